"""Reference geometry: exact rectangles on a longitude circle.

Longitudes are measured eastwards from the western edge of the region, modulo
360, so that a region (or cell) crossing the antimeridian is an ordinary
interval.  Coordinates are dyadic rationals, on which float arithmetic is exact; a
region with a coordinate that is not (0.1, -60.7) is handled with fractions of its
decimal value, and what the code reports is read to 9 decimals.
"""
from collections import namedtuple
from fractions import Fraction

Rect = namedtuple("Rect", "x y w h")          # x: degrees east of the region's west edge

# direction -> (name); opposite direction is the negation
NE, E, SE, S, SW, W, NW, N = 1, 2, 3, 4, -1, -2, -3, -4
DIRS = (NE, E, SE, S, SW, W, NW, N)


def dyadic(*vs):
    return all(float(v) * 65536 == int(float(v) * 65536) for v in vs)


def frac(v):
    """The decimal value a coordinate stands for."""
    return v if isinstance(v, Fraction) else Fraction(str(round(float(v), 9)))


def plain(r):
    """A rectangle as a JSON list."""
    return [float(v) if isinstance(v, Fraction) else v for v in r]


def to_rect(lst):
    return Rect(*lst) if dyadic(*lst) else Rect(*map(frac, lst))


def lon_span(lo, hi):
    """Eastward extent from lo to hi (full circle when equal)."""
    d = (hi - lo) % 360
    return d if d > 0 else 360


class Region:
    def __init__(self, lat_min, lat_max, long_min, long_max, decimal=False):
        self.decimal = decimal or not dyadic(lat_min, lat_max, long_min, long_max)
        if self.decimal:
            lat_min, lat_max, long_min, long_max = map(frac, (lat_min, lat_max, long_min, long_max))
        self.lat_min, self.lat_max = lat_min, lat_max
        self.long_min, self.long_max = long_min, long_max
        self.W = lon_span(long_min, long_max)
        self.H = lat_max - lat_min
        self.globe = (long_min == -180 and long_max == 180)

    def rect(self, long_min, long_max, lat_min, lat_max):
        if self.decimal:
            long_min, long_max, lat_min, lat_max = map(frac, (long_min, long_max, lat_min, lat_max))
        return Rect((long_min - self.long_min) % 360 % 360, lat_min,
                    lon_span(long_min, long_max), lat_max - lat_min)


def parse_wkt(s):
    """[(xmin, ymin, xmax, ymax)] of the polygons in a POLYGON / MULTIPOLYGON text;
    raises ValueError unless each is an axis-parallel rectangle."""
    s = s.strip()
    if s.startswith("MULTIPOLYGON"):
        body = s[len("MULTIPOLYGON"):].strip()
        body = body[2:-2].strip()
        rings = [r.strip().lstrip("(").rstrip(")") for r in body.split("),")]
        rings = [r.replace("(", "").replace(")", "") for r in rings]
    elif s.startswith("POLYGON"):
        body = s[len("POLYGON"):].strip()
        rings = [body.replace("(", "").replace(")", "")]
    else:
        raise ValueError(f"not a polygon: {s[:60]}")
    out = []
    for r in rings:
        pts = [tuple(float(v) for v in p.split()) for p in r.split(",")]
        xs, ys = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
        if len(xs) != 2 or len(ys) != 2 or pts[0] != pts[-1] or len(pts) != 5 \
                or len(set(pts)) != 4:
            raise ValueError(f"not a rectangle: {s[:120]}")
        # consecutive corners share exactly one coordinate
        for a, b in zip(pts, pts[1:]):
            if (a[0] == b[0]) == (a[1] == b[1]):
                raise ValueError(f"self-crossing ring: {s[:120]}")
        out.append((xs[0], ys[0], xs[1], ys[1]))
    return out


def rect_from_wkt(region, s):
    parts = parse_wkt(s)
    if len(parts) == 1:
        x0, y0, x1, y1 = parts[0]
        if not (-180 <= x0 < x1 <= 180):
            raise ValueError(f"longitudes outside -180:180: {s[:120]}")
        return region.rect(x0, x1, y0, y1)
    if len(parts) != 2:
        raise ValueError(f"{len(parts)} polygons: {s[:120]}")
    east = [p for p in parts if p[2] == 180]
    west = [p for p in parts if p[0] == -180]
    if len(east) != 1 or len(west) != 1 or east[0] == west[0]:
        raise ValueError(f"multipolygon does not meet at the antimeridian: {s[:160]}")
    a, b = east[0], west[0]
    if (a[1], a[3]) != (b[1], b[3]):
        raise ValueError(f"latitudes differ across the antimeridian: {s[:160]}")
    return region.rect(a[0], b[2], a[1], a[3])


def tiling_errors(region, rects):
    """rects: {id: Rect}.  Exact cover of the region, each point once."""
    errs = []
    area = 0
    items = list(rects.items())
    for i, r in items:
        area += r.w * r.h
        if r.w <= 0 or r.h <= 0:
            errs.append(f"cell {i} is degenerate: {r}")
        if r.x < 0 or r.x + r.w > region.W or r.y < region.lat_min or r.y + r.h > region.lat_max:
            errs.append(f"cell {i} {r} leaves the region W={region.W}")
    for a in range(len(items)):
        ia, ra = items[a]
        for b in range(a + 1, len(items)):
            ib, rb = items[b]
            if ra.x < rb.x + rb.w and rb.x < ra.x + ra.w and ra.y < rb.y + rb.h and rb.y < ra.y + ra.h:
                errs.append(f"cells {ia} {ra} and {ib} {rb} overlap")
    if area != region.W * region.H:
        errs.append(f"cells cover area {area}, the region has {region.W * region.H}")
    return errs


def adjacency(region, rects):
    """Reference neighbour graph {id: {direction: set(ids)}}."""
    g = {i: {d: set() for d in DIRS} for i in rects}
    items = list(rects.items())
    glob = region.globe
    for ia, a in items:
        for ib, b in items:
            if ia == ib:
                continue
            ax1, ay1, bx1, by1 = a.x + a.w, a.y + a.h, b.x + b.w, b.y + b.h
            east = (ax1 == b.x) or (glob and ax1 == region.W and b.x == 0)
            xo = a.x < bx1 and b.x < ax1
            yo = a.y < by1 and b.y < ay1
            if east:
                if yo:
                    g[ia][E].add(ib); g[ib][W].add(ia)
                elif ay1 == b.y:
                    g[ia][NE].add(ib); g[ib][SW].add(ia)
                elif by1 == a.y:
                    g[ia][SE].add(ib); g[ib][NW].add(ia)
            if xo and ay1 == b.y:
                g[ia][N].add(ib); g[ib][S].add(ia)
    return g


def norm_graph(graph):
    """Implementation graph (int or str keys) -> {int id: {int dir: list}}."""
    out = {}
    for k, m in graph.items():
        kk = int(k)
        if kk in out:
            raise ValueError(f"graph has cell {kk} twice")
        mm = {}
        for d, v in m.items():
            if int(d) in mm:
                raise ValueError(f"cell {kk} has direction {d} twice")
            mm[int(d)] = [int(x) for x in v]
        out[kk] = mm
    return out


def graph_errors(expected, graph, limit=6):
    errs = []
    try:
        g = norm_graph(graph)
    except Exception as e:
        return [f"malformed neighbour graph: {e}"]
    if set(g) != set(expected):
        errs.append(f"graph entries {sorted(set(g) - set(expected))} have no cell; "
                    f"cells {sorted(set(expected) - set(g))} have no entry")
    for i in expected:
        if i not in g:
            continue
        m = g[i]
        if set(m) != set(DIRS):
            errs.append(f"cell {i}: directions {sorted(m)}")
        for d in DIRS:
            got = m.get(d, [])
            if len(got) != len(set(got)):
                errs.append(f"cell {i} direction {d}: duplicate neighbours {got}")
            if set(got) != expected[i][d]:
                errs.append(f"cell {i} direction {d}: listed {sorted(got)}, adjacent {sorted(expected[i][d])}")
        if len(errs) >= limit:
            break
    return errs[:limit]
