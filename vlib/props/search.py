"""C03 - C06: what a search (or a set of requested surfaces) examines and reports."""
import math

from . import register
from .mechanics import circles, model, C01
from .. import gen, ref, drive
from ..core import Violation, Skip, Obs


def check_getters(s, res, spec, what=""):
    """reported minimum, circle and end points belong to the lowest entry"""
    low = min(x["FOS"] for x in res)
    f = s.get_min_FOS()
    if f != low:
        raise Violation(
            f"minimum reported {f}, lowest result {low} {what}", spec=spec
        )
    c = tuple(s.get_min_FOS_circle())
    e = tuple(tuple(p) for p in s.get_min_FOS_end_points())
    ok = [
        x for x in res
        if x["FOS"] == f and (x["c_x"], x["c_y"], x["radius"]) == c
        and (tuple(x["l_c"]), tuple(x["r_c"])) == e
    ]
    if not ok:
        raise Violation(
            f"reported critical circle {c} with end points {e} is not a "
            f"surface with the minimum factor {f} {what}", spec=spec,
        )


@register
class C03:
    id = "C03"
    cases = dict(quick=480, thorough=9000)
    rule = (
        "One case is a random model searched (or given individual surfaces) "
        "with and without an upper bound; order, minimum, getters, filter and "
        "completeness are checked on the whole list and up to 60 entries are "
        "analysed again on their own. Non-trivial: an entry analysed again; "
        "distinct by model and circle."
    )
    minimum = dict(entries=20000, alone=5000, filtered=100, individual=50)

    @staticmethod
    def case(r, obs, tier, index):
        indiv = r.random() < 0.3
        spec = gen.spec(
            r, limits=r.random() < 0.3,
            iterations=r.choice([500, 500, 700, 1000]),
        )
        if r.random() < 0.12:  # ground without any strength on top
            min(spec["materials"], key=lambda m: m["d"]).update(phi=0, c=0)
        g = ref.Geo(spec)
        obs.sample = spec if index < 3 else None
        cs = []
        if indiv:
            raw = circles(r, g, r.choice([1, 2, 5, 20]))
            cs = [model(g, c) for c in raw]
            if not cs:
                raise Skip("no circle")
        s = drive.build(spec, cs)
        s.analyse_slope()
        res = [dict(x) for x in drive.results(s)]
        if not res:
            raise Skip("no surface with a factor")
        obs.count("entries", len(res))
        w = dict(spec=spec, circles=cs)
        fs = [x["FOS"] for x in res]
        if any(not math.isfinite(f) for f in fs):
            raise Violation(f"factor not a number: {fs[:5]}", **w)
        for a, b in zip(fs, fs[1:]):
            if a > b:
                raise Violation(f"results out of order: {a} before {b}", **w)
        check_getters(s, res, spec)

        # upper bound only removes what is above it
        mid = fs[min(len(fs) - 1, int(len(fs) * r.random()))]
        for bound in {mid, round(mid, 2), 5, r.choice([1, 1.5, 2, 3]), 0}:
            s.analyse_slope(max_fos=bound)
            got = drive.results(s)
            want = [x for x in res if x["FOS"] <= bound]
            obs.count("filtered")
            drive.same_results(
                got, want, f"analysis with upper bound {bound}", rel=0, **w
            )
            if got:
                check_getters(s, got, spec, f"(upper bound {bound})")
        s.analyse_slope()
        drive.same_results(
            drive.results(s), res, "analysis without bound after one with", rel=0, **w
        )

        # requested surfaces: each one once
        if indiv:
            obs.count("individual")
            for c, q in zip(cs, raw):
                n = len(drive.find(res, c))
                if n > 1:
                    raise Violation(f"surface {c} reported {n} times", **w)
                if not n:
                    obs.count("absent")
                    C01.one(
                        Obs(), spec, g,
                        [(q[3], g.depth(q[3]), True), (q[4], g.depth(q[4]), True)],
                        q[0], q[1], q[2], None, "requested",
                    )
            if len(res) > len(cs):
                raise Violation("more surfaces than requested", **w)

        # surfaces the same search examines on firm ground: they are missing
        # only if they have no factor
        elif r.random() < 0.5:
            firm = dict(spec, water=None, materials=[
                dict(m, phi=0, c=5) for m in spec["materials"]])
            t = drive.build(firm)
            t.analyse_slope()
            have = {drive.key(x)[:3] for x in res}
            gone = [x for x in drive.results(t) if drive.key(x)[:3] not in have]
            r.shuffle(gone)
            for x in gone[:60]:
                if drive.find(res, (x["c_x"], x["c_y"], x["radius"]), 3e-5):
                    continue
                obs.count("absent_from_search")
                cu, cz = g.u(x["c_x"]), g.z(x["c_y"])
                cr = [c for c in ref.crossings(g, cu, cz, x["radius"]) if c[2]]
                C01.one(Obs(), spec, g, cr, cu, cz, x["radius"], None, "searched")

        # each on its own
        pick = res if len(res) <= 60 else [res[0], res[-1]] + r.sample(res, 58)
        seen = set()
        alone = drive.build(spec)
        todo = []
        for x in pick:
            c = (x["c_x"], x["c_y"], x["radius"])
            if c not in seen:
                seen.add(c)
                todo.append((c, x))
        got = drive.fos_of(alone, [c for c, _ in todo])
        for (c, x), f in zip(todo, got):
            obs.count("alone")
            obs.seen(spec["h"], c)
            if f is None or not drive.close(f, x["FOS"], 1e-9):
                raise Violation(
                    f"surface {c} reported with factor {x['FOS']}, "
                    f"on its own {f}", **w
                )
        # a truly separate analysis of the critical one
        one = drive.build(spec, [todo[0][0]])
        one.analyse_slope()
        if not drive.close(one.get_min_FOS(), todo[0][1]["FOS"], 1e-9):
            raise Violation(
                f"critical surface {todo[0][1]} alone gives {one.get_min_FOS()}",
                **w
            )


def check_surface(x, g, what, **w):
    """end points on circle and ground, arc in the ground"""
    (lx, ly), (rx, ry) = x["l_c"], x["r_c"]
    R = x["radius"]
    tol = 1e-5 * max(1, R, g.tot_h)
    if not lx < rx:
        raise Violation(f"{what}: end points out of order {x}", **w)
    for px, py in ((lx, ly), (rx, ry)):
        if abs(math.hypot(px - x["c_x"], py - x["c_y"]) - R) > tol:
            raise Violation(f"{what}: end point not on the circle {x}", **w)
        if not -1e-6 <= px <= g.tot_l + 1e-6:
            raise Violation(f"{what}: end point outside the model {x}", **w)
        # distance to the ground surface (steep face: measure horizontally)
        u = g.u(px)
        dz = abs(g.z(py) - g.depth(u))
        du = min(abs(u - t) for t in face_u(g, g.z(py), u))
        if min(dz, du) > max(tol, 1e-6):
            raise Violation(f"{what}: end point not on the ground {x}", **w)
    n = 24
    for k in range(1, n):
        px = lx + (rx - lx) * k / n
        d = R * R - (px - x["c_x"]) ** 2
        if d < -tol:
            raise Violation(f"{what}: arc does not span its end points {x}", **w)
        y = x["c_y"] - math.sqrt(max(d, 0))
        above = g.depth(g.u(px)) - g.z(y)  # > 0: arc above the ground
        if above > 0.02 + 1e-6 * R:
            # near a steep face the same sliver is tall but thin
            if face_gap(g, g.u(px), g.z(y)) > 0.02 + 1e-6 * R:
                raise Violation(
                    f"{what}: arc {above:.3f} m above the ground at x={px:.3f} {x}",
                    **w
                )


def face_u(g, z, near):
    res = [near + 1e9]
    if -1e-9 <= z <= g.h + 1e-9:
        res.append(z * g.L / g.h)
    return res


def face_gap(g, u, z):
    """horizontal distance of a point above the ground to the face"""
    if 0 <= z <= g.h:
        return max(0.0, u - z * g.L / g.h)
    return float("inf")


@register
class C04:
    id = "C04"
    cases = dict(quick=640, thorough=12000)
    rule = (
        "One case is a random geometry with a search, a set of circles, or "
        "several entry/exit requests; every reported surface is checked "
        "against the circle equation and the ground profile. Non-trivial: "
        "a surface checked; distinct by its circle."
    )
    minimum = dict(surfaces=20000, by_points=300, by_circle=300, searches=100)
    assumptions = [
        "slivers of up to 2 cm between ground crossings closer than 1 cm "
        "(which the library merges) are not material",
        "requested circles have their centre above the crest",
    ]

    @staticmethod
    def case(r, obs, tier, index):
        kind = r.choice(["search", "search", "circle", "points", "points"])
        spec = gen.spec(r, limits=kind == "search" and r.random() < 0.5)
        if kind != "search":
            # so that every surface in the ground has a factor
            spec["water"] = None
            frictionless = r.random() < 0.7
            for m in spec["materials"]:
                m["c"] = max(m["c"], 2)
            if r.random() < 0.7:
                spec["udls"], spec["lls"] = [], []
                if frictionless:
                    m["phi"] = 0
        g = ref.Geo(spec)
        obs.sample = dict(kind=kind, spec=spec) if index < 4 else None
        w = dict(spec=spec)
        s = drive.build(spec)
        if kind == "search":
            s.analyse_slope()
            obs.count("searches")
        elif kind == "circle":
            cs = [c for c in circles(r, g, 6, face_entry=True)]
            if not cs:
                raise Skip("no circle")
            for c in cs:
                s.add_single_circular_plane(*model(g, c))
            s.analyse_slope()
            res = drive.results(s)
            for c in cs:
                m = drive.find(res, model(g, c), 1e-9)
                if not m:
                    b = ref.Bishop(spec, g, *c[:3], c[3], c[4], spec["slices"])
                    if b.driving() > 1e-3 * sum(abs(x["W"] * x["s"]) for x in b.rows):
                        em, worst = b.emulate(spec["tol"], spec["maxit"])
                        if em is not None and worst > 0.05:
                            raise Violation(
                                f"requested circle {model(g, c)} not analysed", **w
                            )
                    continue
                obs.count("by_circle")
                for a, b in ((m[0]["l_c"], c[3]), (m[0]["r_c"], c[4])):
                    if abs(g.u(a[0]) - b) > 1e-6 * max(1, c[2]):
                        raise Violation(
                            f"circle {model(g, c)} ends at {m[0]['l_c']}, "
                            f"{m[0]['r_c']}, expected x = {g.X(c[3])}, {g.X(c[4])}",
                            **w
                        )
        else:
            C04.points(r, obs, spec, g, w)
            return
        for x in drive.results(s):
            obs.count("surfaces")
            obs.seen(round(x["c_x"], 6), round(x["c_y"], 6), round(x["radius"], 6))
            check_surface(x, g, kind, **w)

    @staticmethod
    def points(r, obs, spec, g, w):
        for _ in range(6):
            face = r.random() < 0.15
            ul = g.L * r.uniform(0, 0.4) if face else -g.crest * r.uniform(0.01, 0.9)
            if r.random() < 0.2:
                ul = 0.0
            ur = r.choice([
                g.L, g.L * r.uniform(0.45, 1),
                g.L + g.toe * r.uniform(0.01, 0.9),
                g.L + g.toe * r.uniform(0.01, 0.2),
            ])
            n = r.choice([None, 1, 2, 3, 5, 8])
            if ur - ul < 0.1:
                continue
            # one surface that certainly exists (with none, the whole slope is
            # searched)
            anchor = circles(r, g, 1)
            if not anchor:
                continue
            anchor = model(g, anchor[0])
            s = drive.build(spec, [anchor])
            if n is None:
                s.add_single_entry_exit_plane(g.X(ul), g.X(ur))
                n = 5
            else:
                s.add_single_entry_exit_plane(g.X(ul), g.X(ur), n)
            s.analyse_slope()
            res = drive.results(s)
            other = drive.find(res, anchor, 1e-9)
            res = [x for x in res if x not in other[:1]]
            P = (g.X(ul), g.Y(g.depth(ul)))
            Q = (g.X(ur), g.Y(g.depth(ur)))
            if len(res) > n:
                raise Violation(
                    f"{len(res)} surfaces for {n} requested between {P}, {Q}", **w
                )
            for x in res:
                obs.count("by_points")
                obs.count("surfaces")
                obs.seen(P, Q, round(x["radius"], 6))
                tol = 1e-6 * max(1, x["radius"])
                for p in (P, Q):
                    if abs(ref.dist(p, (x["c_x"], x["c_y"])) - x["radius"]) > tol:
                        raise Violation(
                            f"surface requested through {P} and {Q} does not "
                            f"pass through {p}: {x}", **w
                        )
                check_surface(x, g, "points", **w)
            rad = sorted(x["radius"] for x in res)
            if any(b - a < 1e-9 * b for a, b in zip(rad, rad[1:])):
                raise Violation(f"repeated radius between {P}, {Q}: {rad}", **w)
            # exit on the face: every arc lies in the ground, so all exist
            zl, zr = g.depth(ul), g.depth(ur)
            deep = not (spec["udls"] or spec["lls"]) and ul <= 0 and 0.15 * g.L < ur < g.L - 0.02 and zr > 0.3 and g.L > 0.05
            if deep and len(res) < n:
                half = math.hypot(ur - ul, zr - zl) / 2
                if half > 0.3 and all(m["phi"] == 0 for m in spec["materials"]):
                    raise Violation(
                        f"only {len(res)} of {n} surfaces between {P}, {Q}", **w
                    )
                continue
            if deep:
                obs.count("full_families")


@register
class C05:
    id = "C05"
    cases = dict(quick=640, thorough=12000)
    rule = (
        "One case is a random model with limits and/or a minimum failure "
        "distance, searched; both are checked for every reported surface. "
        "Non-trivial: a surface checked while a limit or distance is set; "
        "distinct by model and circle."
    )
    minimum = dict(limited=20000, distance=10000, beside_load=300, binding=50)

    @staticmethod
    def case(r, obs, tier, index):
        has_lim = r.random() < 0.75
        spec = gen.spec(
            r, limits=has_lim, cohesive=True, water=r.random() < 0.2,
            iterations=r.choice([500, 500, 800, 1300]),
        )
        g = ref.Geo(spec)
        if not has_lim or r.random() < 0.6:
            spec["mfd"] = round(
                r.uniform(0.02, 0.6) * min(g.tot_l, 4 * (g.h + g.L)), 2
            )
        obs.sample = spec if index < 3 else None
        if has_lim and r.random() < 0.4:
            # partial calls: unset limits keep their value
            s = drive.build(dict(spec, limits=None))
            a = spec["limits"]
            names = ["left_x", "left_x_right", "right_x_left", "right_x"]
            full = [0, g.crest, g.crest, g.tot_l]
            keep = {n: v for n, v in zip(names, a) if r.random() < 0.6}
            lim = [keep.get(n, d) for n, d in zip(names, full)]
            if not (lim[0] < lim[1] and lim[2] < lim[3]):
                raise Skip("limits out of order")
            items = list(keep.items())
            if r.random() < 0.5 and items:
                s.set_analysis_limits(**dict(items))
            else:
                for n, v in items:
                    cur = dict(zip(names, full))
                    cur.update({n: v})
                    try:
                        s.set_analysis_limits(**{n: v})
                    except ValueError:
                        raise Skip("limits out of order")
            spec = dict(spec, limits=lim)
        else:
            s = drive.build(spec)
        lim = spec["limits"] or [0, g.crest, g.crest, g.tot_l]
        s.analyse_slope()
        res = drive.results(s)
        loads = [g.X(-p["off"]) for p in spec["lls"]] + [
            g.X(-u["off"] - u["len"]) for u in spec["udls"] if u["len"]
        ]
        tol = 1e-5
        if spec["mfd"] and r.random() < 0.5:
            # a distance removes only what is too short
            t = drive.build(dict(spec, mfd=0))
            t.analyse_slope()
            want = [
                x for x in drive.results(t)
                if ref.dist(x["l_c"], x["r_c"]) > spec["mfd"] + tol
            ]
            have = {drive.key(x)[:3] for x in res}
            for x in want:
                obs.count("long_enough")
                if drive.key(x)[:3] not in have and not drive.find(
                    res, (x["c_x"], x["c_y"], x["radius"]), 3e-5
                ):
                    raise Violation(
                        f"surface {x} missing with a minimum distance of "
                        f"{spec['mfd']}", spec=spec,
                    )
        short = None
        for x in res:
            lx, rx = x["l_c"][0], x["r_c"][0]
            if spec["limits"]:
                obs.count("limited")
            if not (lim[0] - tol <= lx <= lim[1] + tol):
                raise Violation(f"entry {lx} outside limits {lim}", spec=spec, surface=x)
            if not (lim[2] - tol <= rx <= lim[3] + tol):
                raise Violation(f"exit {rx} outside limits {lim}", spec=spec, surface=x)
            d = ref.dist(x["l_c"], x["r_c"])
            if spec["mfd"]:
                obs.count("distance")
                if d <= spec["mfd"] - tol:
                    raise Violation(
                        f"entry and exit {d} apart, minimum {spec['mfd']}",
                        spec=spec, surface=x,
                    )
                short = d if short is None else min(short, d)
            if any(abs(lx - p) < 0.01 for p in loads):
                obs.count("beside_load")
            obs.seen(spec["h"], round(x["c_x"], 6), round(x["radius"], 6))
        if short is not None and short < spec["mfd"] * 1.1:
            obs.count("binding")


@register
class C06:
    id = "C06"
    cases = dict(quick=480, thorough=6000)
    rule = (
        "One case is a random dry frictionless model (so that every surface "
        "in the ground has a factor) with 0-30 loads and random limits, searched; "
        "the entry points, exit points, radii and number of all reported "
        "surfaces are compared with the allowed ranges and the iterations "
        "asked for, and the minimum with surfaces requested through the ends "
        "of the ranges. Non-trivial: a search; distinct by model."
    )
    minimum = dict(searches=200, many_loads=50, limited=50, beside_load=100, ends=200)

    @staticmethod
    def case(r, obs, tier, index):
        spec = gen.spec(
            r, limits=False, loads=False, water=False, mats=r.choice([1, 1, 2, 3]),
            iterations=r.choice([500, 500, 600, 1000, 1000, 2000, 3000, 4800])
            if r.random() < 0.96 else r.choice([8000, 12000, 20000, 60000]),
            slices=10, frictionless=True,
        )
        nl = r.choice([0, 0, 1, 2, 4, 9, 12, 30])
        for _ in range(nl):
            if r.random() < 0.5:
                spec["lls"].append(gen.ll(r, spec["h"]))
            else:
                spec["udls"].append(gen.udl(r, spec["h"]))
        # too small to hold up a surface
        for p in spec["lls"]:
            p["P"] = 0.001
        for u in spec["udls"]:
            u["q"] = 0.001
        g = ref.Geo(spec)
        if r.random() < 0.5:
            spec["limits"] = gen.gen_limits(r, spec)
        x1, x2, x3, x4 = spec["limits"] or [0, g.crest, g.crest, g.tot_l]
        obs.sample = spec if index < 3 else None
        w = dict(spec=spec)
        s = drive.build(spec)
        s.analyse_slope()
        res = drive.results(s)
        it = spec["iterations"]
        nc = max(5, it // 800)
        per = math.isqrt(int(it / nc))
        n_top = max(2, per - nl)
        if not res:
            raise Skip("no surface with a factor")
        obs.count("searches")
        obs.seen(spec["h"], spec["angle"], spec["limits"], nl, it)
        obs.count("surfaces", len(res))
        if nl >= 9:
            obs.count("many_loads")
        if spec["limits"]:
            obs.count("limited")
        ent = sorted({round(x["l_c"][0], 7) for x in res})
        ext = sorted({round(x["r_c"][0], 7) for x in res})

        # A range so small that points coincide cannot show a grid (the library
        # treats points within 1 cm as one); an entry point is missed only if
        # there are deep arcs in the ground from it to the far exit limit.
        tol = 1e-5 + 1e-6 * g.tot_l
        if x2 - x1 > 0.5:
            obs.count("ends")
            if ent[0] > x1 + tol and from_entry(g, x1, x1, x4):
                raise Violation(
                    f"no surface enters at the left limit {x1}: first {ent[0]}", **w
                )
            step = (x2 - x1) / (n_top - 1)
            if ent[-1] < x2 - tol and from_entry(g, x2, x2, x4):
                raise Violation(
                    f"no surface enters at the inner limit {x2}: last {ent[-1]}", **w
                )
            for a, b in zip(ent, ent[1:]):
                if b - a > 1.02 * step + tol and from_entry(g, a, b, x4):
                    raise Violation(
                        f"entry points leave a gap of {b - a} in [{x1}, {x2}] "
                        f"({n_top} expected)", **w
                    )
        tol = 1e-5 + 1e-6 * g.tot_l
        step = (x4 - x3) / per
        # a part of the exit range without any surface is a gap only if deep
        # arcs to every point of it stay in the ground
        lo = max(x3, g.crest)
        pts = [lo] + [e for e in ext if e > lo] + [x4 + step]
        for a, b in zip(pts, pts[1:]):
            if b - a > 2.05 * step + tol:
                b = min(b, x4)
                if reachable(g, ent, a, b):
                    raise Violation(
                        f"no exit point between {a} and {b} in [{x3}, {x4}] "
                        f"({per} expected)", **w
                    )
        if ext[-1] < x4 - tol and reachable(g, ent, x4 - step / 4, x4):
            raise Violation(
                f"no surface exits at the far limit {x4}: last {ext[-1]}", **w
            )
        # radii per pair, where every arc lies in the ground.  (An exit shared
        # by several entry points is one that was aimed at, the others are
        # where an arc aimed further out left through the face.)
        fam = {}
        shared = {}
        for x in res:
            # (bins whose edges are off the round numbers points lie on)
            k = (bin_(x["l_c"][0]), bin_(x["r_c"][0]))
            fam.setdefault(k, {})[bin_(x["radius"])] = x
            shared.setdefault(k[1], set()).add(k[0])
        for k, v in fam.items():
            if g.L < 1 or len(shared[k[1]]) < max(4, 0.35 * len(ent)):
                continue
            x = next(iter(v.values()))
            k = (x["l_c"][0], x["r_c"][0])
            if not (in_ground(g, *k, 1.1) and in_ground(g, *k, 40)):
                continue
            if len(v) < 5 and not drives(spec, g, *k):
                continue
            if len(v) < 5:
                raise Violation(f"{len(v)} radii between x={k[0]} and {k[1]}", **w)
            obs.count("families")
        # number of surfaces
        extra = nl * (per + 6 + it // (nc * n_top)) * nc
        if len(res) > 2.5 * it + extra * 2:
            raise Violation(f"{len(res)} surfaces for {it} iterations", **w)
        if nl == 0 and not spec["limits"] and len(res) < 0.35 * it:
            raise Violation(f"{len(res)} surfaces for {it} iterations", **w)
        # entry points just behind loads
        for p in [g.X(-q["off"]) for q in spec["lls"]] + [
            g.X(-u["off"] - u["len"]) for u in spec["udls"] if u["len"]
        ]:
            if x1 + 0.1 < p < x2 - 0.05 and from_entry(g, p - 0.01, p, x4):
                obs.count("beside_load")
                if not any(0 < p - e < 0.05 for e in ent):
                    raise Violation(f"no entry point just behind the load at x={p}", **w)
        # the ends of the ranges
        low = s.get_min_FOS()
        t = drive.build(dict(spec, limits=None))
        for a in (x1, x2):
            t.add_single_entry_exit_plane(a, x4, nc)
        t.analyse_slope()
        for x in drive.results(t):
            if x3 - 1e-6 <= x["r_c"][0] <= x4 + 1e-6 and x1 - 1e-6 <= x["l_c"][0] <= x2 + 1e-6:
                obs.count("range_ends")
                if x["FOS"] < low - 1e-6:
                    raise Violation(
                        f"surface through the ends of the ranges has factor "
                        f"{x['FOS']}, the search found {low}", surface=x, **w
                    )


def bin_(x):
    return math.floor((x + 3.14159265e-6) * 1e5)


def in_ground(g, e, x, ratio):
    """the arc from entry to exit (model x) with the radius a multiple of the
    steepest possible one lies in the ground, with some margin"""
    ul, ur = g.u(e), g.u(x)
    zl, zr = g.depth(ul), g.depth(ur)
    if ur - ul < 0.2 or zr < zl + 0.02:
        return False
    return gen.valid_arc(g, *chord_circle(g, e, x, ratio))


def chord_circle(g, e, x, ratio):
    ul, ur = g.u(e), g.u(x)
    zl, zr = g.depth(ul), g.depth(ur)
    half = math.hypot(ur - ul, zr - zl) / 2
    beta = math.atan2(zr - zl, ur - ul)
    R = half / math.cos(beta) * ratio
    q = math.sqrt(R * R - half * half)
    return (ul + ur) / 2 + math.sin(beta) * q, (zl + zr) / 2 - math.cos(beta) * q, R, ul, ur


def drives(spec, g, e, x):
    """gravity clearly drives even the deepest arc (the steeper, the less)"""
    b = ref.Bishop(spec, g, *chord_circle(g, e, x, 1.08), spec["slices"])
    return b.driving() > 0.02 * sum(abs(q["W"] * q["s"]) for q in b.rows)


def from_entry(g, a, b, x4):
    """deep arcs from all of [a, b] to the far exit limit are in the ground"""
    return all(
        in_ground(g, a + (b - a) * k / 6, x4, ratio)
        for k in range(7) for ratio in (1.1, 1.15)
    )


def reachable(g, ent, a, b):
    """some entry point has deep arcs in the ground to all of [a, b]"""
    for e in ent[:: max(1, len(ent) // 12)]:
        if e < g.crest - 0.05 and all(
            in_ground(g, e, a + (b - a) * (0.02 + 0.96 * k / 8), 1.1)
            and in_ground(g, e, a + (b - a) * (0.02 + 0.96 * k / 8), 1.15)
            for k in range(9)
        ):
            return True
    return False
