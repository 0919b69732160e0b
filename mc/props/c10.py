"""C10: boundary arithmetic, geometry text and pairwise touching are right everywhere on the globe."""
import itertools
import math

from mc.geom import Rect, Region, parse_wkt, rect_from_wkt, lon_span, NE, E, SE, S, SW, W, NW, N

ID = "C10"
LEVEL = "model_checking"
RULE = ("a state is a rectangle on the longitude circle with a latitude range (or a pair of them); a transition is "
        "one derived quantity computed by the real code; the oracle is exact arithmetic on the circle")
ASSUMPTIONS = ["rectangles narrower than 360 degrees unless -180:180; pairs: rectangles narrower than 180 degrees "
               "that do not overlap", "dyadic coordinates, and decimal ones for longitudes; great-circle sizes are compared with tolerance 1e-9"]
LATS = [(-90, -80), (-90, 90), (-60.5, -60), (-10, 0), (-2.5, 2.5), (0, 10), (89, 90), (30.25, 45.75)]


def bounds(tier):
    s = 15 if tier == "quick" else 7.5
    return (f"all rectangles with longitudes on the {s} degree lattice (and 8 latitude ranges, quartered twice); all "
            "non-overlapping pairs of rectangles with western edges on the 30 degree circle, widths 30/60/90, "
            "latitude bands of height 10/20 in a 30 degree strip; all longitudes -1080..1080 in 7.5 degree steps")


def longs(tier):
    s = 15 if tier == "quick" else 7.5
    n = int(360 / s)
    return [-180 + s * i for i in range(n + 1)]


def tasks(tier):
    t = [{"kind": "single", "lo": lo} for lo in longs(tier)]
    t += [{"kind": "pair", "i": i} for i in range(12)]
    t += [{"kind": "utils"}, {"kind": "invalid"}]
    return t


def circle(lo, hi):
    """(west edge in (-180,180], width)"""
    return (lo - 0.0) % 360, lon_span(lo, hi)


def rect_of(b):
    return ((b.get_long_min() % 360, lon_span(b.get_long_min(), b.get_long_max())), (b.get_lat_min(), b.get_lat_max()))


def haversine(lo, hi, a, b):
    p = math.radians
    d = math.sin(p(b - a) / 2) ** 2 + math.cos(p(a)) * math.cos(p(b)) * math.sin(p(hi - lo) / 2) ** 2
    return 6371 * 2 * math.asin(math.sqrt(d)) * 1000 / math.sqrt(2)


def single(ctx, lo, hi, la, lb, depth=2, time=None):
    from meshiphi.mesh_generation.boundary import Boundary
    case = {"long": [lo, hi], "lat": [la, lb]}
    with ctx.guard(case, "boundary"):
        w = lon_span(lo, hi)
        tr = ["2020-01-01", "2020-02-01"]
        b = Boundary([la, lb], [lo, hi], list(tr))
        ctx.step()
        errs = []
        if b.get_width() != w or b.get_height() != lb - la:
            errs.append(f"size {b.get_width()} x {b.get_height()}, expected {w} x {lb - la}")
        if b.getdcx() != w / 2 or b.getdcy() != (lb - la) / 2:
            errs.append(f"half sizes {b.getdcx()}, {b.getdcy()}")
        if (b.getcx() - (lo + w / 2)) % 360 != 0 or not -180 <= b.getcx() <= 180 or b.getcy() != (la + lb) / 2:
            errs.append(f"centre ({b.getcx()}, {b.getcy()})")
        if (b.get_long_min(), b.get_long_max(), b.get_lat_min(), b.get_lat_max()) != (lo, hi, la, lb):
            errs.append("edges changed")
        if (b.get_time_min(), b.get_time_max()) != tuple(tr):
            errs.append(f"time range {b.get_time_range()}")
        text = b.to_poly_string()
        reg = Region(-90, 90, -180, 180)
        want = Rect((lo + 180) % 360, la, w, lb - la)
        if w < 360 or (lo, hi) == (-180, 180):
            try:
                r = rect_from_wkt(reg, text)
                if r != want:
                    errs.append(f"geometry text {text} is {tuple(r)}, expected {tuple(want)}")
            except ValueError as e:
                errs.append(str(e))
            poly = b.to_polygon()
            if abs(poly.area - w * (lb - la)) > 1e-9 or not poly.is_valid:
                errs.append(f"polygon area {poly.area}, expected {w * (lb - la)}")
            c = Boundary.from_poly_string(text)
            if rect_of(c) != rect_of(b):
                errs.append(f"text {text} reads back as {rect_of(c)}")
            if c.to_poly_string() != text:
                errs.append(f"text {text} reads back as {c.to_poly_string()}")
        size = b.calc_size()
        if abs(size - haversine(lo, hi, la, lb)) > 1e-6 * max(1, size):
            errs.append(f"calc_size {size}, expected {haversine(lo, hi, la, lb)}")
        if not (b == Boundary([la, lb], [lo, hi], list(tr))):
            errs.append("not equal to itself")
        for d in ((la - 0.5, lb, lo, hi), (la, lb + 0.5, lo, hi), (la, lb, lo + 0.5 if lo < 180 else lo - 0.5, hi),
                  (la, lb, lo, hi - 0.5 if hi > -180 else hi + 0.5)):
            if b == Boundary([d[0], d[1]], [d[2], d[3]], list(tr)):
                errs.append(f"equal to {d}")
        parts = b.split()
        ctx.step()
        got = sorted(rect_of(x) for x in parts)
        m, h = (lo + w / 2), la + (lb - la) / 2
        exp = sorted(((x % 360, w / 2), y) for x in (lo, m) for y in ((la, h), (h, lb)))
        if got != exp:
            errs.append(f"quarters {got}, expected {exp}")
        for x in parts:
            if not (-180 <= x.get_long_min() <= 180 and -180 <= x.get_long_max() <= 180):
                errs.append(f"a quarter has longitudes {x.get_long_min()}:{x.get_long_max()}")
            if x.get_time_range() != b.get_time_range():
                errs.append("a quarter lost the time range")
        # documented order: south-west, north-west, south-east, north-east
        order = [rect_of(x) for x in parts]
        if order != [((lo % 360, w / 2), (la, h)), ((lo % 360, w / 2), (h, lb)),
                     ((m % 360, w / 2), (la, h)), ((m % 360, w / 2), (h, lb))]:
            errs.append(f"quarters out of the documented order: {order}")
        if errs:
            ctx.fail(case, "; ".join(errs[:3]), "boundary")
        ctx.state(("b", lo, hi, la, lb))
        ctx.trace({"case": case, "text": text}, outcome=text[:5])
    if depth > 0 and w < 360:
        for x in parts if w < 360 else []:
            single(ctx, x.get_long_min(), x.get_long_max(), x.get_lat_min(), x.get_lat_max(), depth - 1 if depth > 1 else 0)


def dom(v):
    r = (v + 180) % 360 - 180
    return r


def pair_case(ctx, a, b):
    """a, b: (west on the circle 0..360, width, lat_min, height)."""
    from meshiphi.mesh_generation.boundary import Boundary
    from meshiphi.mesh_generation.cellbox import CellBox
    from meshiphi.mesh_generation.neighbour_graph import NeighbourGraph
    case = {"a": list(a), "b": list(b)}
    ax, bx = a[0], b[0]
    east = (ax + a[1] - bx) % 360 == 0
    west = (bx + b[1] - ax) % 360 == 0
    d = (bx - ax) % 360
    xo = d < a[1] or (360 - d) % 360 < b[1]
    ay, by = a[2], b[2]
    yo = ay < by + b[3] and by < ay + a[3]
    if xo and yo:
        return
    north, south = ay + a[3] == by, by + b[3] == ay
    want = 0
    if east:
        want = E if yo else NE if north else SE if south else 0
    elif west:
        want = W if yo else NW if north else SW if south else 0
    elif xo:
        want = N if north else S if south else 0

    def mk(r):
        lo, hi = dom(r[0]), dom(r[0] + r[1])
        return Boundary([r[2], r[2] + r[3]], [lo, 180.0 if hi == -180 else hi])
    with ctx.guard(case, "pair"):
        A, B = mk(a), mk(b)
        g = NeighbourGraph()
        got = g.get_neighbour_case_bounds(A, B)
        got2 = g.get_neighbour_case(CellBox(A, "0"), CellBox(B, "1"))
        ctx.step(2)
        if got != want or got2 != want:
            ctx.fail(case, f"b is in direction {want} of a, reported {got} (bounds) / {got2} (cells)", "touching")
        ctx.state(("p", a, b))
        ctx.trace({"case": case, "direction": want}, outcome=want)


RECTS = [(x, w, la, h) for x in range(0, 360, 30) for w in (30, 60, 90) for la, h in
         ((-10, 10), (0, 10), (10, 10), (-10, 20), (0, 20), (5, 2.5))]


def utils(ctx):
    import numpy as np
    from meshiphi.utils import longitude_domain, longitude_distance
    vals = [i * 7.5 for i in range(-144, 145)]
    with ctx.guard({"utils": "domain"}, "utils"):
        for v in vals:
            got = longitude_domain(v)
            ctx.step()
            if not -180 <= got <= 180 or (got - v) % 360 != 0 or longitude_domain(got) != got:
                ctx.fail({"utils": "domain", "value": v}, f"longitude_domain({v}) = {got}", "domain")
            if -180 <= v <= 180 and got != v:
                ctx.fail({"utils": "domain", "value": v}, f"longitude_domain({v}) = {got}", "domain")
            ctx.state(("dom", v))
            ctx.trace({"longitude": v, "domain": got}, outcome=got)
        for v in [s * (d + k / 10 ** e) for s in (1, -1) for d in (0, 0.1, 59.9, 179, 179.9) for e in (1, 3, 7, 12)
                  for k in range(10)] + [math.nextafter(180, 0), math.nextafter(-180, 0), math.nextafter(0, 1)]:
            # a longitude within -180:180 is not altered, however it is written
            got = longitude_domain(v)
            ctx.step()
            if got != v and abs(v) <= 180:
                ctx.fail({"utils": "domain", "value": v}, f"longitude_domain({v!r}) = {got!r}", "domain")
            if abs(longitude_distance(v, 0.1) - abs(v - 0.1)) > 1e-9 and abs(v - 0.1) < 180:
                ctx.fail({"utils": "distance", "a": v, "b": 0.1}, f"longitude_distance({v}, 0.1)", "distance")
            ctx.state(("dec", v))
        if list(longitude_domain(vals)) != [longitude_domain(v) for v in vals] or \
                list(longitude_domain(np.array(vals))) != [longitude_domain(v) for v in vals]:
            ctx.fail({"utils": "domain", "value": "list"}, "lists and arrays are converted differently", "domain")
    with ctx.guard({"utils": "distance"}, "utils"):
        for a, b in itertools.product(vals[::3], repeat=2):
            got = longitude_distance(a, b)
            ctx.step()
            d = (a - b) % 360
            if got != min(d, 360 - d):
                ctx.fail({"utils": "distance", "a": a, "b": b}, f"longitude_distance({a}, {b}) = {got}", "distance")
            ctx.state(("dist", a, b))


def invalid(ctx):
    """Malformed ranges are refused, well-formed ones are not."""
    from meshiphi.mesh_generation.boundary import Boundary
    lat = [[0, 10], [10, 0], [5], [], [0, 0], [-90, 90]]
    lon = [[0, 10], [10, 0], [-181, 0], [0, 181], [5], [-180, 180], [180, -180], [170, -170],
           [190, 170], [170, -190]]
    tim = [None, [], ["2020-01-01", "2020-01-02"], ["2020-01-02", "2020-01-01"], ["2020-01-01", "2020-01-01"],
           ["2020-02-30", "2020-03-01"], ["2019-12-31", "2020-01-01"], ["x", "2020-01-01"]]
    for a, o, t in itertools.product(lat, lon, tim):
        case = {"invalid": [a, o, t]}
        ok = len(a) == 2 and len(o) == 2 and a[0] <= a[1] and all(-180 <= v <= 180 for v in o)
        if ok and t:
            ok = t[0] <= t[1] and "x" not in t and "2020-02-30" not in t
        with ctx.guard(case, "invalid"):
            try:
                Boundary(list(a), list(o), None if t is None else list(t))
                got = True
            except ValueError:
                got = False
            ctx.step()
            if got != ok:
                ctx.fail(case, f"lat {a} long {o} time {t} was {'accepted' if got else 'refused'}", "validity")
            ctx.state(("inv", str(case)))
            ctx.trace({"case": case, "accepted": got}, outcome=got)


def run(task, ctx):
    if task["kind"] == "single":
        lo = task["lo"]
        for hi in longs(ctx.tier):
            if lo == hi or (lo == 180 and hi == -180):
                continue
            lats = LATS if hi % 45 == 0 or ctx.tier != "quick" else LATS[3:5]
            for la, lb in lats:
                single(ctx, lo, hi, la, lb, 1 if ctx.tier == "quick" else 2)
    elif task["kind"] == "pair":
        for a in RECTS[task["i"]::12]:
            for b in RECTS:
                pair_case(ctx, a, b)
    elif task["kind"] == "utils":
        utils(ctx)
    else:
        invalid(ctx)


def replay_case(case, ctx):
    if "task" in case:
        return run(case["task"], ctx)
    if "a" in case and "utils" not in case:
        return pair_case(ctx, tuple(case["a"]), tuple(case["b"]))
    if "utils" in case:
        return utils(ctx)
    if "invalid" in case:
        return invalid(ctx)
    single(ctx, *case["long"], *case["lat"], 0)
