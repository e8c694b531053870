"""C14 - C16: geometry, and what the plots show."""
import math

from . import register
from .mechanics import circles, model
from .. import gen, ref, drive
from ..drive import Slope
from ..core import Violation, Skip

AUTO = ["user", "auto"]


def outline(g):
    return [
        (0, 0), (0, g.tot_h), (g.crest, g.tot_h),
        (g.crest + g.L, g.tot_h - g.h), (g.tot_l, g.tot_h - g.h),
        (g.tot_l, 0), (0, 0),
    ]


def area(pts):
    return sum(
        a[0] * b[1] - b[0] * a[1] for a, b in zip(pts, pts[1:] + pts[:1])
    ) / 2


def inside(p, poly):
    x, y = p
    res = False
    for (x1, y1), (x2, y2) in zip(poly, poly[1:] + poly[:1]):
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            res = not res
    return res


def pts(tr):
    return list(zip(tr["x"], tr["y"]))


def same_ring(a, b, tol):
    """the same closed polygon, whatever the start and direction"""
    def clean(p):
        out = []
        for q in p:
            if not out or math.dist(q, out[-1]) > tol:
                out.append(q)
        if len(out) > 1 and math.dist(out[0], out[-1]) <= tol:
            out.pop()
        return out

    a, b = clean(a), clean(b)
    if len(a) != len(b):
        return False
    for c in (b, b[::-1]):
        for k in range(len(c)):
            d = c[k:] + c[:k]
            if all(math.dist(p, q) <= tol for p, q in zip(a, d)):
                return True
    return False


@register
class C14:
    id = "C14"
    cases = dict(quick=1600, thorough=40000)
    rule = (
        "One case is a random geometry reached by the constructor or by later "
        "changes, with strata, loads and minimum extents; coordinates, the "
        "drawn outline and 60 elevation/position queries are compared with "
        "the specification. Non-trivial: a query; distinct by geometry and "
        "query point."
    )
    minimum = dict(geometries=500, queries=20000, vertical=20, outside=1000)

    @staticmethod
    def case(r, obs, tier, index):
        spec = gen.spec(r, water=False)
        if r.random() < 0.1:
            spec["angle"], spec["length"] = 90, None
        if r.random() < 0.15:
            spec["angle"], spec["length"] = round(r.uniform(0.5, 12), 2), None
        if r.random() < 0.2:
            spec["h"] = r.choice([0.05, 0.1, 35, 80.5])
            spec["materials"] = gen.materials(r, spec["h"])
        if not r.random() < 0.6:
            spec["udls"], spec["lls"] = [], []
        s = drive.build(spec)
        if r.random() < 0.4:
            # arrive at the same geometry from another
            s.set_external_boundary(height=r.uniform(0.5, 9), angle=r.uniform(10, 89))
            drive.set_boundary(s, spec)
        obs.sample = spec if index < 3 else None
        g = ref.Geo(spec)
        w = dict(spec=spec)
        obs.count("geometries")
        if g.L <= 0.0011:
            obs.count("vertical")
        tol = 1e-8 * max(1, g.tot_l, g.tot_h)
        top, bot = s.get_top_coordinates(), s.get_bottom_coordinates()
        for name, a, b in (("crest", top, g.top), ("toe", bot, g.bot)):
            if math.dist(a, b) > tol:
                raise Violation(f"{name} at {a}, expected {b}", **w)
        ring = pts(drive.figure(s.plot_boundary(material_table=False))["data"][0])
        if not same_ring(ring, outline(g), tol):
            raise Violation(f"ground drawn as {ring}, expected {outline(g)}", **w)
        want = f"Slope: 1V : 2H"
        txt = repr(s)
        try:
            v = float(txt.split(":")[1].strip()[:-1])
            h = float(txt.split(":")[2].strip()[:-1])
        except (IndexError, ValueError):
            raise Violation(f"slope described as {txt}", **w)
        if abs(v - g.h) > 6e-4 or abs(h - g.L) > 6e-4:
            raise Violation(f"slope of height {g.h}, length {g.L} described as {txt}", **w)
        for _ in range(60):
            k = r.random()
            if k < 0.1:
                x = r.choice([0, top[0], bot[0], g.tot_l, top[0] - 1e-6, bot[0] + 1e-6])
                x = min(max(x, 0), g.tot_l)
            elif k < 0.5:
                x = top[0] + (bot[0] - top[0]) * r.random()
            elif k < 0.9:
                x = r.uniform(0, g.tot_l)
            else:
                obs.count("outside")
                x = r.choice([-r.uniform(1e-3, 50), g.tot_l + r.uniform(1e-3, 50)])
                y = s.get_external_y_intersection(x)
                if y is not None:
                    raise Violation(f"ground elevation {y} outside the model at {x}", **w)
                continue
            obs.count("queries")
            obs.seen(spec["h"], spec["angle"], round(x, 6))
            y = s.get_external_y_intersection(x)
            want = g.Y(g.depth(g.u(x)))
            steep = max(1, g.h / g.L)
            if y is None or abs(y - want) > tol * steep:
                raise Violation(f"ground elevation {y} at x={x}, expected {want}", **w)
            # inverse on the face
            yy = bot[1] + (top[1] - bot[1]) * r.uniform(0.001, 0.999)
            xx = s.get_external_x_intersection(yy)
            want = g.X((top[1] - yy) * g.L / g.h)
            if xx is None or abs(xx - want) > tol:
                raise Violation(f"face at elevation {yy}: x={xx}, expected {want}", **w)
            back = s.get_external_y_intersection(xx)
            if back is None or abs(back - yy) > tol * steep:
                raise Violation(f"elevation {yy} -> x={xx} -> elevation {back}", **w)
            if top[0] < x < bot[0]:
                back = s.get_external_x_intersection(y)
                if back is None or abs(back - x) > tol:
                    raise Violation(f"x={x} -> elevation {y} -> x={back}", **w)
        # the ends of the face
        for name, (cx, cy) in (("crest", top), ("toe", bot)):
            x = s.get_external_x_intersection(cy)
            if x is None or abs(x - cx) > tol:
                raise Violation(f"face at the {name}'s level {cy}: x={x}, {name} at {cx}", **w)
        x = s.get_external_x_intersection(top[1] + r.uniform(1e-3, 20))
        if x is not None:
            raise Violation(f"position {x} on the face above the crest", **w)
        # just below the toe the ground extends to the model's edge
        y = bot[1] * r.uniform(0.05, 0.99)
        x = s.get_external_x_intersection(y)
        if x is None or abs(x - g.tot_l) > tol:
            raise Violation(f"below the toe (elevation {y}): x={x}", **w)


def expected_limits(spec, g):
    x1, x2, x3, x4 = spec["limits"] or [0, g.crest, g.crest, g.tot_l]
    x1, x2 = max(x1, 0), min(x2, g.crest)
    x3, x4 = max(x3, g.crest), min(x4, g.tot_l)
    right, left = [x1], [x4]
    if abs(x2 - x3) > 1e-12:
        right.append(x3)
        left.append(x2)
    return right, left


@register
class C15:
    id = "C15"
    cases = dict(quick=640, thorough=12000)
    rule = (
        "One case is a random model (strata with levels at crest, toe and "
        "bottom of the model, loads, water above, on and below the face, "
        "limits) whose boundary plot is decoded: layer polygons are compared "
        "by 200 sample points and area with the strata, and labels, table, "
        "colours, loads, water and limit markers with the specification. "
        "Non-trivial: a drawn layer, load, water table or marker; distinct by "
        "model."
    )
    minimum = dict(models=200, layers=600, loads=200, water=60, table_rows=200, at_toe=30)

    @staticmethod
    def case(r, obs, tier, index):
        spec = gen.spec(r, limits=r.random() < 0.4)
        h = spec["h"]
        if r.random() < 0.25:
            # levels that coincide with the toe
            ds = {m["d"] for m in spec["materials"]}
            if h not in ds:
                spec["materials"].append(gen.material(r, h))
            if r.random() < 0.5:
                spec["materials"] = [m for m in spec["materials"] if m["d"] <= h] + [
                    gen.material(r, round(h * 3.2, 3))
                ]
            spec["limits"] = None
        if r.random() < 0.15:
            spec["materials"] = gen.materials(r, h, r.choice([9, 10, 12]))
            spec["limits"] = None
        for m in spec["materials"]:
            m["color"] = r.choice([
                "", "", "", "green", "#112233", "pink", "notacolor", "#12", "#abc", "12",
            ])
        if r.random() < 0.3:
            g = ref.Geo(spec)
            spec["water"] = r.choice([h, h * 0.999, h * 1.001, 0, g.tot_h, g.tot_h - 0.01, 1e4])
        g = ref.Geo(spec)
        if r.random() < 0.04:
            spec["materials"] = []
            spec["limits"] = None
            g = ref.Geo(spec)
        obs.sample = spec if index < 3 else None
        s = drive.build(spec)
        w = dict(spec=spec)
        kw = dict(material_table=r.random() < 0.6, legend=r.random() < 0.3)
        if r.random() < 0.2:
            s.analyse_slope()  # makes no difference
        fig = drive.figure(s.plot_boundary(**kw))
        obs.count("models")
        obs.seen(repr(spec))
        data = fig["data"]
        lay = fig["layout"]
        shapes = lay.get("shapes", [])
        notes = lay.get("annotations", [])
        tol = 1e-7 * max(1, g.tot_l, g.tot_h)
        if not same_ring(pts(data[0]), outline(g), tol):
            raise Violation(f"ground drawn as {pts(data[0])}, expected {outline(g)}", **w)
        if not spec["materials"]:
            return
        ms = drive.sorted_materials(spec)
        layers = [t for t in data if t.get("fill") == "toself"]
        C15.strata(r, obs, spec, g, ms, layers, tol, w)
        if kw["material_table"]:
            C15.table(obs, ms, layers, shapes, notes, w)
        C15.loads(obs, spec, g, shapes, notes, tol, w)
        C15.water(obs, spec, g, data, tol, w)
        # limits
        right, left = expected_limits(spec, g)
        for sym, want in (("▶", right), ("◀", left), ("|", right + left)):
            got = sorted((a["x"], a["y"]) for a in notes if a["text"] == sym)
            want = sorted((x, g.Y(g.depth(g.u(x)))) for x in want)
            obs.count("markers", len(want))
            if len(got) != len(want) or any(
                abs(p[0] - q[0]) > tol or abs(p[1] - q[1]) > tol * max(1, g.h / g.L)
                for p, q in zip(got, want)
            ):
                raise Violation(f"limit markers {sym} at {got}, expected {want}", **w)

    @staticmethod
    def strata(r, obs, spec, g, ms, layers, tol, w):
        if len(layers) != len(ms):
            raise Violation(f"{len(layers)} layers drawn for {len(ms)} strata", **w)
        by = []
        for m in ms:
            fit = [
                t for t in layers
                if t["meta"][:3] == [m["uw"], m["c"], m["phi"]]
                and t["meta"][3] == m["name"] and t not in [b for b in by]
            ]
            if not fit:
                raise Violation(f"no layer with the properties of {m}", **w)
            by.append(fit[0])
        if any(abs(m["d"] - g.h) < 1e-9 for m in ms):
            obs.count("at_toe")
        # equal properties: take them in the order drawn
        order = [layers[i] for i in range(len(ms))]
        if [t["meta"] for t in order] == [t["meta"] for t in by]:
            by = order
        total = 0
        for m, t in zip(ms, by):
            obs.count("layers")
            for v in (m["uw"], m["c"], m["phi"]):
                if f"{v}" not in t["name"]:
                    raise Violation(f"label {t['name']!r} does not show {v} of {m}", **w)
            if m["name"] not in t["name"]:
                raise Violation(f"label {t['name']!r} does not name {m}", **w)
            ok = m["color"] in ("green", "#112233", "pink", "#abc")
            if ok and t["fillcolor"] != m["color"]:
                raise Violation(f"{m} drawn in {t['fillcolor']}", **w)
            if not ok and (not t["fillcolor"] or t["fillcolor"] == m["color"]):
                raise Violation(f"{m} drawn in {t['fillcolor']!r}", **w)
            total += abs(area(pts(t)))
        auto = [
            t["fillcolor"] for m, t in zip(ms, by)
            if m["color"] not in ("green", "#112233", "pink", "#abc")
        ]
        if len(ms) <= 10 and len(set(auto)) < len(auto):
            raise Violation(f"strata without own color share one: {auto}", **w)
        whole = abs(area(outline(g)[:-1]))
        if abs(total - whole) > 1e-7 * max(1, whole):
            raise Violation(f"layers cover {total} of {whole} m2", **w)
        polys = [pts(t) for t in by]
        bounds = [m["d"] for m in ms[:-1]]
        for _ in range(200):
            k = r.random()
            x = (
                g.crest + g.L * r.random() if k < 0.3
                else min(g.tot_l, g.crest + g.L + r.random() * g.h) if k < 0.5
                else r.uniform(0, g.tot_l)
            )
            if r.random() < 0.5 and bounds:
                y = g.Y(r.choice(bounds) + r.choice([-1, 1]) * r.choice([0.01, 0.1]))
            else:
                y = r.uniform(-0.1 * g.tot_h, 1.1 * g.tot_h)
            z = g.z(y)
            ground = g.depth(g.u(x))
            if (
                min(abs(z - ground), abs(y)) < 1e-4 or abs(z) < 1e-4
                or min(x, g.tot_l - x) < 1e-4
                or any(abs(z - b) < 1e-4 for b in bounds)
                or abs(g.u(x) - z * g.L / g.h) < 1e-3 or abs(z - g.h) < 1e-4
            ):
                continue
            hit = [i for i, p in enumerate(polys) if inside((x, y), p)]
            want = []
            if z > ground and y > 0:
                want = [next(
                    (i for i, b in enumerate(bounds) if z < b), len(ms) - 1
                )]
            obs.count("points")
            if hit != want:
                raise Violation(
                    f"point ({x}, {y}) drawn in layers {hit}, expected {want}", **w
                )
        for m, t in zip(ms, by):
            pass

    @staticmethod
    def table(obs, ms, layers, shapes, notes, w):
        rows = {}
        for a in notes:
            if a.get("xref") == "x domain":
                rows.setdefault(round(a["y"], 4), []).append((a["x"], a["text"]))
        body = []
        for y in sorted(rows, reverse=True):
            body.append((y, [t for _, t in sorted(rows[y], key=lambda q: q[0])]))
        body = body[1:]  # header
        if len(body) != len(ms):
            raise Violation(f"{len(body)} table rows for {len(ms)} strata", **w)
        for (y, row), m, t in zip(body, ms, layers):
            obs.count("table_rows")
            want = [m["name"], m["uw"], m["c"], m["phi"]]
            got = [row[0]] + [_num(v) for v in row[1:]]
            if len(row) != 4 or got != [want[0]] + [float(v) for v in want[1:]]:
                raise Violation(f"table row {row}, expected {want}", **w)
            sw = [
                q for q in shapes
                if q.get("xref") == "paper" and q.get("fillcolor")
                and abs((q["y0"] + q["y1"]) / 2 - y) < 1e-6 and q["x0"] < 0.5
            ]
            if not sw or sw[0]["fillcolor"] != layers[body.index((y, row))]["fillcolor"]:
                raise Violation(f"table row of {m} does not show its color", **w)

    @staticmethod
    def loads(obs, spec, g, shapes, notes, tol, w):
        rects = [
            q for q in shapes
            if q.get("opacity") == 0.2 and q.get("type") == "rect"
        ]
        want = []
        for u in spec["udls"]:
            right = g.crest - u["off"]
            want.append((right - u["len"] if u["len"] else 0.0, right, u["color"], u["q"]))
        got = [(q["x0"], q["x1"], q["fillcolor"], q["yanchor"]) for q in rects]
        match(got, want, lambda a, b: (
            abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol and a[2] == b[2]
            and abs(a[3] - g.tot_h) <= tol
        ), "distributed loads drawn", w)
        for unit, exp in (
            ("kPa", [((a + b) / 2, q) for a, b, _, q in want]),
            ("kN/m", [(g.crest - p["off"], p["P"]) for p in spec["lls"]]),
        ):
            lab = [
                (a["x"], float(a["text"].split()[0]), a["y"]) for a in notes
                if a["text"].endswith(" " + unit)
            ]
            obs.count("loads", len(exp))
            match(lab, exp, lambda a, b: (
                abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= 1e-3
                and abs(a[2] - g.tot_h) <= tol
            ), f"{unit} labels", w)
        # each line load has an arrow in its own color at its position
        for p in spec["lls"]:
            x = g.crest - p["off"]
            if not any(
                q.get("type") == "line" and abs((q.get("xanchor") or 1e9) - x) <= tol
                and q.get("line", {}).get("color") == p["color"] for q in shapes
            ):
                raise Violation(f"no arrow for line load {p} at x={x}", **w)

    @staticmethod
    def water(obs, spec, g, data, tol, w):
        lines = [t for t in data if (t.get("line") or {}).get("width") == 4]
        hw = spec["water"]
        if hw is None or hw >= g.tot_h:
            if lines:
                raise Violation(f"water table drawn at {pts(lines[0])}, there is none", **w)
            return
        obs.count("water")
        if len(lines) != 1:
            raise Violation(f"{len(lines)} water tables drawn", **w)
        got = pts(lines[0])
        if hw <= g.h:
            want = [(0, g.Y(hw)), (g.X(hw * g.L / g.h), g.Y(hw)), g.bot, (g.tot_l, g.bot[1])]
        else:
            want = [(0, g.Y(hw)), (g.tot_l, g.Y(hw))]
        # compare as curves, so that coinciding points do not matter
        ok = math.dist(got[0], want[0]) <= tol and math.dist(got[-1], want[-1]) <= tol
        for a, b in ((got, want), (want, got)):
            for p in a:
                if min(seg(p, q1, q2) for q1, q2 in zip(b, b[1:])) > 10 * tol:
                    if abs(hw - g.h) > 1e-9:
                        ok = False
        if not ok:
            raise Violation(f"water table drawn as {got}, expected {want}", **w)


def seg(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    d = dx * dx + dy * dy
    t = 0 if d == 0 else max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / d))
    return math.dist(p, (a[0] + t * dx, a[1] + t * dy))


def match(got, want, eq, what, w):
    got = list(got)
    if len(got) != len(want):
        raise Violation(f"{what}: {got}, expected {want}", **w)
    for b in want:
        k = next((i for i, a in enumerate(got) if eq(a, b)), None)
        if k is None:
            raise Violation(f"{what}: {got}, expected {want}", **w)
        got.pop(k)


def _num(v):
    try:
        return float(v)
    except (TypeError, ValueError):
        return v


# --------------------------------------------------------------------------- C16
SCALE = {0: (255, 0, 0), 1: (255, 165, 0), 2: (0, 128, 0), 3: (0x0C, 0x84, 0xA8),
         4: (0x0C, 0x1E, 0xA8), 5: (128, 0, 128)}


def rgb(c):
    from colour import Color

    return tuple(round(255 * v) for v in Color(c).rgb)


def legend_scale(s):
    """factor (rounded to 0.1) -> color, from the drawn legend"""
    fig = drive.figure(s.plot_boundary(material_table=False, legend=True))
    out = {}
    for q in fig["layout"]["shapes"]:
        if (
            q.get("xref") == "paper" and abs(q.get("x0", 0) - 0.9) < 1e-9
            and abs(q["x1"] - 0.95) < 1e-9
        ):
            out[round((0.9 - q["y0"]) / 0.4 * 5, 1)] = q["fillcolor"]
    return out


def color_ok(color, fos, scale):
    k = min(max(fos, 0), 5)
    return any(
        scale.get(round(min(max(v, 0), 5), 1)) == color
        for v in (k, k - 6e-4, k + 6e-4)
    )


def arc_ok(xy, x, radius_tol, extra):
    """polyline from l_c to r_c along the surface's arc"""
    R = x["radius"]
    c = (x["c_x"], x["c_y"])
    if math.dist(xy[0], x["l_c"]) > 1e-6 or math.dist(xy[-1], x["r_c"]) > 1e-6:
        return f"ends at {xy[0]}, {xy[-1]} instead of {x['l_c']}, {x['r_c']}"
    for a, b in zip(xy, xy[1:]):
        if b[0] < a[0] - 2e-3:
            return f"runs backwards at {a}, {b}"
    for p in xy[1:-1]:
        if abs(math.dist(p, c) - R) > radius_tol:
            return f"point {p} is {math.dist(p, c)} from the centre, radius {R}"
        if p[1] > c[1] + radius_tol:
            return f"point {p} on the upper half of the circle"
    # how far the arc is from the drawn line
    sag = R * (1 - math.cos(math.radians(2.2))) + extra
    for k in range(1, 12):
        u = x["l_c"][0] + (x["r_c"][0] - x["l_c"][0]) * k / 12
        d = R * R - (u - c[0]) ** 2
        if d <= 0:
            continue
        p = (u, c[1] - math.sqrt(d))
        if min(seg(p, a, b) for a, b in zip(xy, xy[1:])) > sag:
            return f"arc at {p} not drawn"
    return None


@register
class C16:
    id = "C16"
    cases = dict(quick=320, thorough=6000)
    rule = (
        "One case is a random analysed slope (search thinned by an upper "
        "bound, or individual surfaces) with factors from 0 to 1e6; the "
        "critical and all-planes plots with random options are decoded and "
        "compared with the results, surface by surface. Non-trivial: a drawn "
        "surface; distinct by model and circle."
    )
    minimum = dict(critical=150, planes=3000, filtered=60, unfiltered=20, high=60, zero=3,
                   many=4)

    @staticmethod
    def case(r, obs, tier, index):
        kind = r.random()
        spec = gen.spec(r, limits=r.random() < 0.2)
        many = r.random() < 0.04  # thousands of surfaces, as users have
        if many:
            spec.update(iterations=r.randint(5000, 12000), slices=10)
            obs.count("many")
        if kind < 0.15:  # nothing holds it up
            for m in spec["materials"]:
                m["phi"], m["c"] = 0, 0
        elif kind < 0.35:  # very safe
            for m in spec["materials"]:
                m["c"] = m["c"] + 10 ** r.uniform(2, 5)
        elif kind < 0.5:
            f = r.uniform(0.001, 0.2)
            for m in spec["materials"]:
                m["phi"], m["c"] = m["phi"] * f, m["c"] * f
        g = ref.Geo(spec)
        planes = []
        if not many and r.random() < 0.6:
            planes = [model(g, c) for c in circles(r, g, r.choice([1, 3, 10, 40]))]
            if not planes:
                raise Skip("no circle")
        s = drive.build(spec, planes)
        if planes and r.random() < 0.3:
            # some between points too, also nearly flat ones
            s.add_single_entry_exit_plane(g.crest * r.uniform(0.5, 0.99), g.X(g.L * r.uniform(0.5, 1)), 3)
        s.analyse_slope()
        res = drive.results(s)
        if not res:
            raise Skip("no surface with a factor")
        if len(res) > 120 and not many:
            s.analyse_slope(max_fos=max(res[r.randint(20, 110)]["FOS"], 1e-9))
            res = drive.results(s)
            if not res or len(res) > 600:
                raise Skip("too many surfaces")
        obs.sample = spec if index < 3 else None
        w = dict(spec=spec, planes=planes)
        scale = legend_scale(s)
        if sorted(scale) != [round(k / 10, 1) for k in range(51)]:
            raise Violation(f"legend shows factors {sorted(scale)}", **w)
        for k, v in SCALE.items():
            if any(abs(a - b) > 1 for a, b in zip(rgb(scale[float(k)]), v)):
                raise Violation(f"color {scale[float(k)]} for factor {k} in the legend", **w)
        obs.seen(spec["h"], len(res), res[0]["FOS"])
        kw = dict(material_table=r.random() < 0.15, legend=r.random() < 0.2)
        base = len(drive.figure(s.plot_boundary(material_table=False))["data"])
        fig = drive.figure(s.plot_critical(**kw))
        C16.critical(obs, fig["data"][base:], res, s, scale, w)
        # all planes
        fs = [x["FOS"] for x in res]
        mode = r.choice(["default", "none", "some", "edge", "low"])
        bound = dict(
            default=5, none=None, some=round(r.uniform(0.5, 6), 2),
            edge=fs[len(fs) // 2], low=fs[0],
        )[mode]
        if mode == "default":
            fig = s.plot_all_planes(material_table=False, legend=False)
        else:
            fig = s.plot_all_planes(bound, material_table=False, legend=False)
        data = drive.figure(fig)["data"]
        C16.critical(obs, data[base:base + 2], res, s, scale, w)
        got = data[base + 2:]
        want = [x for x in res if bound is None or x["FOS"] < bound]
        obs.count("unfiltered" if bound is None else "filtered")
        if len(got) != len(want):
            raise Violation(
                f"{len(got)} surfaces drawn below {bound}, {len(want)} analysed", **w
            )
        meta = [t["meta"][0] for t in got]
        if any(a < b for a, b in zip(meta, meta[1:])):
            raise Violation("most critical surface not drawn last", **w)
        # equal factors may be drawn in any order
        left = list(want)
        for t in got:
            f = t["meta"][0]
            fit = [x for x in left if abs(x["FOS"] - f) <= 5.001e-4 * max(1, 1e-9 * f)]
            err = "no analysed surface has that factor"
            for x in fit:
                err = arc_ok(pts(t), x, 2e-3, 3e-3)
                if err is None:
                    left.remove(x)
                    if not color_ok(t["line"]["color"], x["FOS"], scale):
                        raise Violation(
                            f"surface with factor {x['FOS']} drawn in {t['line']['color']}",
                            **w
                        )
                    break
            if err:
                raise Violation(f"surface labelled {f}: {err}", **w)
            if t.get("mode") != "lines" or "meta" not in (t.get("hovertemplate") or ""):
                raise Violation("surface not labelled", **w)
            obs.count("planes")

    @staticmethod
    def critical(obs, tr, res, s, scale, w):
        obs.count("critical")
        low = [x for x in res if x["FOS"] == res[0]["FOS"]]
        if res[0]["FOS"] > 5:
            obs.count("high")
        if res[0]["FOS"] == 0:
            obs.count("zero")
        if len(tr) < 2:
            raise Violation(f"critical plot has only {len(tr)} more traces", **w)
        err = None
        for x in low:
            line, note = pts(tr[0]), tr[1]
            R, c = x["radius"], (round(x["c_x"], 3), round(x["c_y"], 3))
            # closing lines to the centre
            body = line[:-2]
            err = None
            if math.dist(line[-2], c) > 1.1e-3 or math.dist(line[-1], x["l_c"]) > 1e-6:
                err = f"centre drawn at {line[-2]}, is {c}"
            err = err or arc_ok(body, x, 4e-3, 5e-3)
            if not err and math.dist((note["x"][0], note["y"][0]), c) > 1.1e-3:
                err = f"annotated at {note['x'], note['y']}"
            f = x["FOS"]
            text = note["text"][0]
            if not err and abs(float(text) - f) > 1.01e-3:
                err = f"annotated with {text}, factor {f}"
            hov = note["hovertemplate"]
            import re

            nums = [float(v) for v in re.findall(r"-?\d+\.\d+", hov)]
            if not err and (
                len(nums) != 4 or any(
                    abs(a - b) > 1.1e-3 for a, b in zip(nums, (*c, R, f))
                )
            ):
                err = f"annotated with {hov}"
            if not err and not (
                color_ok(tr[0]["line"]["color"], f, scale)
                and color_ok(note["textfont"]["color"], f, scale)
            ):
                err = f"drawn in {tr[0]['line']['color']}, factor {f}"
            if err is None:
                break
        if err:
            raise Violation(f"critical surface: {err}", surface=low[0], **w)
