"""Building, loading and observing meshes through the public API only."""
import copy
import json
import os
from fractions import Fraction

from mc import env
from mc.geom import Rect, Region, rect_from_wkt, tiling_errors, adjacency, graph_errors, dyadic, frac

T0, T1 = "2020-01-01", "2020-01-31"


def region_cfg(lat_min, lat_max, long_min, long_max, cw, ch, t0=T0, t1=T1):
    return {"lat_min": lat_min, "lat_max": lat_max, "long_min": long_min, "long_max": long_max,
            "start_time": t0, "end_time": t1, "cell_width": cw, "cell_height": ch}


def config(region, sources=(), split_depth=0, min_dp=1):
    return {"region": copy.deepcopy(region),
            "data_sources": copy.deepcopy(list(sources)),
            "splitting": {"split_depth": split_depth, "minimum_datapoints": min_dp}}


def region_of(cfg):
    r = cfg["region"]
    if not dyadic(r["cell_width"], r["cell_height"]):
        return Region(*[frac(r[k]) for k in ("lat_min", "lat_max", "long_min", "long_max")], decimal=True)
    return Region(r["lat_min"], r["lat_max"], r["long_min"], r["long_max"])


def builder(cfg):
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    return MeshBuilder(copy.deepcopy(cfg))


def build_env(cfg):
    return builder(cfg).build_environmental_mesh()


def build_json(cfg):
    return build_env(cfg).to_json()


def load(mesh_json):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    return EnvironmentMesh.load_from_json(copy.deepcopy(mesh_json))


_csv = {}


def csv(rows, header):
    """Write rows once per process; returns the path."""
    key = (header, tuple(map(tuple, rows)))
    p = _csv.get((os.getpid(), key))
    if p is None:
        p = os.path.join(env.scratch(), f"d{len(_csv)}.csv")
        with open(p, "w") as f:
            f.write(header + "\n")
            for r in rows:
                f.write(",".join("" if v is None else (v if isinstance(v, str) else
                                                             repr(float(v) if isinstance(v, Fraction) else v)) for v in r) + "\n")
        if len(_csv) > 20000:
            for q in _csv.values():
                try:
                    os.remove(q)
                except OSError:
                    pass
            _csv.clear()
            return csv(rows, header)
        _csv[(os.getpid(), key)] = p
    return p


class Obs:
    """What a user can see of a mesh document."""

    def __init__(self, region, mesh_json):
        self.region = region
        self.errors = []
        self.cells = {}     # id -> Rect
        self.data = {}      # id -> dict of remaining attributes
        self.graph = mesh_json["neighbour_graph"]
        for c in mesh_json["cellboxes"]:
            try:
                i = int(c["id"])
            except Exception:
                self.errors.append(f"bad id {c.get('id')!r}")
                continue
            if i in self.cells:
                self.errors.append(f"id {i} used by two cells")
                continue
            try:
                r = rect_from_wkt(region, c["geometry"])
            except ValueError as e:
                self.errors.append(f"cell {i}: {e}")
                continue
            self.cells[i] = r
            # centre and half-size fields describe the same rectangle
            num = frac if region.decimal else (lambda v: v)
            cx = (num(c["cx"]) - region.long_min) % 360
            if cx != (r.x + r.w / 2) % 360 or num(c["cy"]) != r.y + r.h / 2 \
                    or num(c["dcx"]) != r.w / 2 or num(c["dcy"]) != r.h / 2 or not -180 <= c["cx"] <= 180:
                self.errors.append(f"cell {i}: centre/half-size ({c['cx']},{c['cy']},{c['dcx']},{c['dcy']}) "
                                   f"disagree with geometry {c['geometry']}")
            self.data[i] = {k: v for k, v in c.items()
                            if k not in ("geometry", "cx", "cy", "dcx", "dcy", "id")}

    def tiling(self):
        return self.errors + tiling_errors(self.region, self.cells)

    def adjacency_errors(self):
        return self.errors + graph_errors(adjacency(self.region, self.cells), self.graph)

    def by_rect(self):
        return {r: i for i, r in self.cells.items()}

    def leaves(self):
        return sorted(self.cells.values())


def observe_env(region, env_mesh):
    return Obs(region, env_mesh.to_json())


def observe_builder(region, b):
    """Observe an unaggregated mesh under construction."""
    cells = []
    for cb in b.mesh.cellboxes:
        if cb is None:
            continue
        bd = cb.get_bounds()
        cells.append({"id": cb.get_id(), "geometry": bd.to_poly_string(), "cx": float(bd.getcx()),
                      "cy": float(bd.getcy()), "dcx": float(bd.getdcx()), "dcy": float(bd.getdcy())})
    return Obs(region, {"cellboxes": cells, "neighbour_graph": b.neighbour_graph.get_graph()})


def children(r):
    """The four quarters of a cell (reference)."""
    hw, hh = r.w / 2, r.h / 2
    return [Rect(r.x, r.y, hw, hh), Rect(r.x + hw, r.y, hw, hh),
            Rect(r.x, r.y + hh, hw, hh), Rect(r.x + hw, r.y + hh, hw, hh)]


def base_cells(cfg):
    """Initial grid of a configuration (reference)."""
    reg = region_of(cfg)
    cw, ch = cfg["region"]["cell_width"], cfg["region"]["cell_height"]
    if reg.decimal:
        cw, ch = frac(cw), frac(ch)
    return [Rect(i * cw, reg.lat_min + j * ch, cw, ch)
            for j in range(round(reg.H / ch)) for i in range(round(reg.W / cw))]


def abs_long(reg, x):
    """Degrees east of the region's west edge -> longitude in (-180, 180]."""
    v = (reg.long_min + x + 180) % 360 - 180
    return 180.0 if v == -180 else float(v) if isinstance(v, Fraction) else v


def driver_points(reg, split_nodes, prefix=()):
    """Data points (lat, long, value) that make exactly `split_nodes` heterogeneous:
    two unlike points in every node none of whose children is to be split; every
    ancestor then contains both values and every leaf at most one point."""
    s = set(split_nodes)
    pts = []
    for r in sorted(s):
        if not any(c in s for c in children(r)):
            pts.append((r.y + r.h / 4, abs_long(reg, r.x + r.w / 4), 1.0))
            pts.append((r.y + 3 * r.h / 4, abs_long(reg, r.x + 3 * r.w / 4), 0.0))
    return pts


def driver_source(reg, split_nodes, name="drv", agg="MEAN"):
    pts = driver_points(reg, split_nodes)
    if not pts:
        # an inert source: one point, nothing to split
        pts = [(reg.lat_min + reg.H / 2, abs_long(reg, reg.W / 2), 0.0)]
    path = csv(pts, f"lat,long,{name}")
    return {"loader": "scalar_csv", "params": {
        "files": [path], "data_name": name, "aggregate_type": agg,
        "splitting_conditions": [{name: {"threshold": 0.5, "lower_bound": 0.0, "upper_bound": 1.0}}]}}


def leaves_of(bases, split_nodes):
    s = set(split_nodes)
    out, stack = [], list(bases)
    while stack:
        r = stack.pop()
        if r in s:
            stack.extend(children(r))
        else:
            out.append(r)
    return sorted(out)


def trees(r, depth):
    """All subdivisions of cell r down to `depth`: frozensets of split nodes."""
    out = [frozenset()]
    if depth == 0:
        return out
    kids = [trees(c, depth - 1) for c in children(r)]
    import itertools
    for combo in itertools.product(*kids):
        out.append(frozenset({r}).union(*combo))
    return out
