"""The space of meshes a build can produce, driven through input data only.

A *shape* is a parent-closed set of cells to be split.  `driver_source` produces a
data file that makes exactly these cells heterogeneous, so every shape is reached by
an ordinary build of the real code from a configuration and a data file.
"""
import itertools

from mc.geom import plain, to_rect
from mc.meshes import *  # noqa: F401,F403
from mc.meshes import region_cfg, config, region_of, base_cells, children, driver_source, leaves_of

# name -> region.  Orientation, sign, aspect, row/column counts, integer and float
# spellings, equator / Greenwich / pole / antimeridian placement all vary.
REGIONS = {
    "plain": region_cfg(-4, 4, -16, 0, 8, 4),
    "south": region_cfg(-80, -60, -90, -70, 10, 10),
    "north": region_cfg(50.0, 60.0, 0.0, 10.0, 5.0, 5.0),
    "pole": region_cfg(-90, -80, 20, 60, 20, 5),
    "npole": region_cfg(80, 90, -5, 5, 5, 5),
    "one": region_cfg(-2.5, 2.5, -2.5, 2.5, 5, 5),
    "row": region_cfg(10, 12.5, -10, 10, 5, 2.5),
    "column": region_cfg(-20, 20, 100, 105, 5, 10),
    "three": region_cfg(-12, 12, -12, 12, 8, 8),
    "am_edge": region_cfg(-4, 4, 160, -160, 20, 4),
    "am_straddle": region_cfg(-4, 4, 170, -150, 20, 4),
    "am_float": region_cfg(-5.0, 5.0, 177.5, -177.5, 2.5, 5.0),
    "am_180": region_cfg(-4, 4, 180, -160, 10, 4),
    "am_m180": region_cfg(-4, 4, 160, -180, 10, 4),
    "east_end": region_cfg(-4, 4, 140, 180, 20, 4),
    "west_end": region_cfg(-4, 4, -180, -140, 20, 4),
    "broad": region_cfg(-60, 60, -120, 120, 60, 60),        # wider than a hemisphere
    "am_broad": region_cfg(-20, 20, 100, -20, 60, 20),
    "globe3": region_cfg(-40, 40, -180, 180, 120, 40),
    "globe4": region_cfg(-90, 90, -180, 180, 90, 90),
}
# long regions: identifiers with more than one and two digits
# coordinates and cell sizes that binary floats cannot hold exactly
DECIMAL = {
    "dec_origin": region_cfg(0, 0.3, 0.1, 0.7, 0.2, 0.1),               # 3 x 3
    "dec_south": region_cfg(-75.3, -74.7, -60.7, -60.1, 0.3, 0.3),      # 2 x 2
    "dec_am": region_cfg(-0.7, 0.7, 179.7, -179.7, 0.2, 0.7),           # 3 x 2
    "dec_straddle": region_cfg(10.1, 12.3, 177.4, -178.0, 2.3, 1.1),    # 2 x 2
    "dec_end": region_cfg(59.9, 60.1, 179.1, 180, 0.3, 0.1),            # 3 x 2
    "dec_start": region_cfg(-0.05, 0.1, -180, -179.6, 0.2, 0.05),       # 2 x 3
    "dec_fine": region_cfg(-66.66, -66.64, 9.99, 10.03, 0.01, 0.01),    # 4 x 2
    "dec_globe": region_cfg(-0.6, 0.6, -180, 180, 14.4, 0.6),           # 25 x 2
}
PAIRS = {
    "pair": region_cfg(-4, 4, -8, 8, 8, 8),
    "am_pair": region_cfg(-4, 4, 170, -174, 8, 8),
}
WIDE = {
    "wide": region_cfg(0, 8, -44, 44, 4, 4),       # 22 x 2
    "tall": region_cfg(-56, 56, 30, 38, 4, 4),     # 2 x 28
    "globe12": region_cfg(-60, 60, -180, 180, 30, 60),
    "am_wide": region_cfg(-4, 4, 150, -150, 5, 4),
}


def all_regions():
    d = dict(REGIONS)
    d.update(WIDE)
    d.update(PAIRS)
    d.update(DECIMAL)
    return d


def shapes_up_to(bases, max_splits, max_depth):
    """All parent-closed split sets with at most `max_splits` members, nested at most
    `max_depth`, in order of size (breadth-first, deduplicated)."""
    depth = {}
    level = {frozenset()}
    out = [frozenset()]
    for b in bases:
        depth[b] = 0
    for _ in range(max_splits):
        nxt = set()
        for s in level:
            cand = [b for b in bases if b not in s]
            for n in s:
                for c in children(n):
                    depth.setdefault(c, depth[n] + 1)
                    if c not in s:
                        cand.append(c)
            for c in cand:
                if depth[c] < max_depth:
                    nxt.add(s | {c})
        level = nxt
        out.extend(sorted(nxt, key=sorted))
    return out


def product_shapes(bases, depth):
    """All subdivisions of every base cell down to `depth` (full product)."""
    from mc.meshes import trees
    per = [trees(b, depth) for b in bases]
    for combo in itertools.product(*per):
        yield frozenset().union(*combo)


def depth_of(shape, bases):
    """Deepest nesting of splits in the shape."""
    d = {b: 0 for b in bases}
    best, stack = 0, [b for b in bases if b in shape]
    while stack:
        n = stack.pop()
        best = max(best, d[n] + 1)
        for c in children(n):
            d[c] = d[n] + 1
            if c in shape:
                stack.append(c)
    return best


def shape_cfg(region, shape, depth=None, nsources=1):
    """Configuration whose build must produce exactly `shape`.  With two sources the
    shape is divided between them: the first drives one half of its maximal cells."""
    cfg0 = config(region)
    reg = region_of(cfg0)
    bases = base_cells(cfg0)
    d = depth_of(shape, bases) if depth is None else depth
    if nsources == 1:
        src = [driver_source(reg, shape)]
    else:
        src = split_between(reg, shape, bases)
    return config(region, src, d)


def split_between(reg, shape, bases):
    """First source asks for the upper levels only, second for everything: the second
    pass then starts from a mesh that is already subdivided."""
    d = {b: 0 for b in bases}
    order = sorted(shape, key=lambda r: (-r.w, r))
    for n in order:
        for c in children(n):
            d[c] = d[n] + 1
    top = frozenset(n for n in shape if d[n] == 0)
    return [driver_source(reg, top, name="drv"), driver_source(reg, shape, name="drw")]


def chunks(n, size):
    return [(i, min(n, i + size)) for i in range(0, n, size)]


def rect_list(s):
    return [plain(r) for r in sorted(s)]


def to_shape(lst):
    return frozenset(to_rect(r) for r in lst)


def placements():
    """Every placement of a 1..4 x 1..2 grid of 20 degree cells on the 20 degree
    lattice of the longitude circle, at five latitudes: [region]."""
    out = []
    for lat in (-90, -20, -10, 0, 50):
        for rows in (1, 2):
            for cols in (1, 2, 3, 4):
                for k in range(18):
                    lo = -180 + 20 * k
                    hi = lo + 20 * cols
                    if hi > 180:
                        hi -= 360
                    out.append(region_cfg(lat, lat + 20 * rows, lo, hi, 20, 20))
    return out


_SHAPES = {}


def shape_space(region_name, k, depth):
    key = (region_name, k, depth)
    if key not in _SHAPES:
        cfg0 = config(all_regions()[region_name])
        _SHAPES[key] = shapes_up_to(base_cells(cfg0), k, depth)
    return _SHAPES[key]


def product_space(region_name, depth):
    key = (region_name, "full", depth)
    if key not in _SHAPES:
        cfg0 = config(all_regions()[region_name])
        _SHAPES[key] = list(product_shapes(base_cells(cfg0), depth))
    return _SHAPES[key]


def build_tasks(tier):
    """Partition of the bounded space of builds."""
    quick = tier == "quick"
    t = []

    def add(kind, region, n, size, **kw):
        for lo, hi in chunks(n, size):
            t.append(dict(kind=kind, region=region, lo=lo, hi=hi, **kw))
    for r in REGIONS:
        k, d = (3, 3) if quick else (4, 4)
        if not quick and r == "three":
            k = 4
        add("shape", r, len(shape_space(r, k, d)), 60, k=k, depth=d, ns=1)
        k2 = 2 if quick else 3
        add("shape", r, len(shape_space(r, k2, 2)), 60, k=k2, depth=2, ns=2)
    for r in WIDE:
        k = 1 if quick else 2
        add("shape", r, len(shape_space(r, k, 2)), 30 if quick else 200, k=k, depth=2, ns=1)
    for r in DECIMAL:
        k = (1 if r == "dec_globe" else 2) if quick else (2 if r == "dec_globe" else 3)
        add("shape", r, len(shape_space(r, k, 3)), 60, k=k, depth=3, ns=1)
    for r in ("pair", "am_pair"):
        add("full", r, len(product_space(r, 2)), 60, depth=2, ns=1)
    add("full", "three", 512, 60, depth=1, ns=1)
    if not quick:
        for r in ("plain", "am_straddle"):
            add("full", r, 17 ** 4, 1000, depth=2, ns=1)
        add("full", "one", 83522, 1000, depth=3, ns=1)
    add("place", "*", len(placements()), 120)
    return t


def build_cases(task):
    """Yields (case, region, config, expected leaves)."""
    if task["kind"] == "place":
        for i, r in list(enumerate(placements()))[task["lo"]:task["hi"]]:
            cfg = config(r)
            yield {"place": i}, r, cfg, sorted(base_cells(cfg))
        return
    r = all_regions()[task["region"]]
    bases = base_cells(config(r))
    sp = shape_space(task["region"], task["k"], task["depth"]) if task["kind"] == "shape" \
        else product_space(task["region"], task["depth"])
    for s in sp[task["lo"]:task["hi"]]:
        yield ({"region": task["region"], "shape": rect_list(s), "ns": task["ns"]}, r,
               shape_cfg(r, s, nsources=task["ns"]), leaves_of(bases, s))


def build_case(case):
    if "place" in case:
        r = placements()[case["place"]]
        cfg = config(r)
        return case, r, cfg, sorted(base_cells(cfg))
    r = all_regions()[case["region"]]
    s = to_shape(case["shape"])
    return case, r, shape_cfg(r, s, nsources=case["ns"]), leaves_of(base_cells(config(r)), s)
