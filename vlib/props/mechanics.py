"""C01, C02, C13, C22: factors of safety against independent statics."""
import itertools
import math

from . import register
from .. import gen, ref, drive
from ..core import Violation, Skip


def variants(b):
    """all ways to give line loads on a slice edge to a neighbouring slice"""
    if len(b.ll_ambiguous) > 4:
        raise Skip("many loads on slice edges")
    base = [row["W"] for row in b.rows]
    for combo in itertools.product(*[c for _, c in b.ll_ambiguous]):
        for row, w in zip(b.rows, base):
            row["W"] = w
        for (P, _), i in zip(b.ll_ambiguous, combo):
            if i is not None:
                b.rows[i]["W"] += P
        yield b
    for row, w in zip(b.rows, base):
        row["W"] = w


def verdict(b, spec, got):
    """compare an observed factor (None: not reported) with the oracle.

    Returns (ok, expected, decided)"""
    seen = []
    for v in variants(b):
        tight = spec["tol"] <= 1e-9 and spec["maxit"] >= 100
        D = v.driving()
        scale = sum(abs(r["W"] * r["s"]) for r in v.rows) or 1
        if abs(D) < 1e-9 * scale:
            return True, None, False
        em, worst = v.emulate(spec["tol"], spec["maxit"])
        if worst < 0.03:
            return True, None, False  # ill conditioned
        if em is None:
            if got is None:
                return True, None, True
            # reported although the iteration has no positive resistance:
            # acceptable only if it really solves the equation
            try:
                N, w2 = v.step(got)
            except (ZeroDivisionError, OverflowError):
                seen.append(em)
                continue
            if w2 > 0 and abs(N / D - got) <= spec["tol"] + 1e-6 * abs(got):
                return True, got, True
            seen.append(em)
            continue
        if got is None:
            seen.append(em)
            continue
        if not math.isfinite(got):
            seen.append(em)
            continue
        if tight:
            fp = v.fixed_point()
            if fp is None:
                fp = em
            if abs(got - fp) <= 1e-7 + 1e-6 * abs(fp):
                return True, fp, True
            seen.append(fp)
        else:
            fp = v.fixed_point()
            slack = abs(em - fp) if fp is not None else 0
            target = fp if fp is not None else em
            if abs(got - target) <= slack * 1.5 + spec["tol"] + 1e-6 * abs(target):
                return True, target, True
            seen.append(target)
    return False, seen, True


def circles(r, g, n, **k):
    out = []
    for _ in range(n):
        c = gen.circle(r, g, **k)
        if c:
            out.append(c)
    return out


def model(g, c):
    return (g.X(c[0]), g.Y(c[1]), c[2])


@register
class C01:
    id = "C01"
    cases = dict(quick=5000, thorough=40000)
    rule = (
        "One case is a random model (geometry, 1-8 strata, loads, water, "
        "options) with ~14 random circles added individually, or the results "
        "of a search; every reported factor is compared with the independent "
        "Bishop model (exact solution for tight tolerances). Non-trivial: a "
        "circle with a decided verdict; distinct by model and circle."
    )
    minimum = dict(decided=3000, missing=5, water=500, multi_layer=1000, search=200)
    assumptions = [
        "surfaces whose verdict would rest on rounding are not decided: "
        "m-alpha below 0.03, driving moment near zero, slice base within 1e-7 "
        "of a stratum boundary, ground crossings less than 0.02 m apart",
    ]

    @staticmethod
    def case(r, obs, tier, index):
        k = r.random()
        tight = k < 0.75
        spec = gen.spec(
            r, tight=tight,
            slices=r.choice([None, None, None, None, 37, 500 if r.random() < 0.2 else 100]),
        )
        if not tight:
            spec["tol"] = r.choice([0.005, 0.005, 0.05, 0.001])
            spec["maxit"] = r.choice([15, 15, 3, 50])
        g = ref.Geo(spec)
        obs.sample = spec if index < 3 else None
        if k > 0.88:
            s = drive.build(spec)
            s.analyse_slope()
            res = drive.results(s)
            pick = [res[0]] if res else []
            pick += r.sample(res, min(len(res), 40))
            for x in pick:
                cu, cz = g.u(x["c_x"]), g.z(x["c_y"])
                cr = [c for c in ref.crossings(g, cu, cz, x["radius"]) if c[2]]
                C01.one(obs, spec, g, cr, cu, cz, x["radius"], x["FOS"], "search")
            return
        cs = circles(r, g, 14, face_entry=True)
        if not cs:
            raise Skip("no circle")
        if r.random() < 0.25:  # limits are for searches only
            spec["limits"] = gen.gen_limits(r, spec)
        try:
            s = drive.build(spec, [model(g, c) for c in cs])
        except ValueError:
            spec["limits"] = None
            s = drive.build(spec, [model(g, c) for c in cs])
        s.analyse_slope()
        res = drive.results(s)
        for c in cs:
            m = drive.find(res, model(g, c))
            C01.one(
                obs, spec, g,
                [(c[3], g.depth(c[3]), True), (c[4], g.depth(c[4]), True)],
                c[0], c[1], c[2], m[0]["FOS"] if m else None, "individual",
            )

    @staticmethod
    def one(obs, spec, g, cr, cu, cz, R, got, kind):
        if len(cr) < 2:
            obs.count("undecided")
            return
        # merged crossings are indistinguishable points
        pts = [cr[0]]
        for c in cr[1:]:
            if c[0] - pts[-1][0] < 1e-7:
                continue
            if c[0] - pts[-1][0] < 0.02:
                obs.count("undecided")
                return
            pts.append(c)
        if len(pts) < 2:
            obs.count("undecided")
            return
        if ref.corner_touch(g, cu, cz, R, pts[0][0], pts[1][0]):
            obs.count("undecided")
            return
        b = ref.Bishop(spec, g, cu, cz, R, pts[0][0], pts[1][0], spec["slices"])
        if (
            not b.ok or b.near_boundary < 1e-7
            or max(x["zb"] - x["zt"] for x in b.rows) < 1e-3
        ):
            obs.count("undecided")  # nothing in the ground to speak of
            return
        ok, exp, dec = verdict(b, spec, got)
        if not dec:
            obs.count("undecided")
            return
        obs.count("decided")
        obs.count(kind)
        if got is None:
            obs.count("missing")
        if any(x["U"] > 0 for x in b.rows):
            obs.count("water")
        if len({(x["coh"], x["t"]) for x in b.rows}) > 1:
            obs.count("multi_layer")
        if any(x["Q"] for x in b.rows):
            obs.count("udl")
        obs.seen(spec["h"], spec["angle"], cu, cz, R)
        if not ok:
            raise Violation(
                f"factor of safety {got} but Bishop's equation gives {exp}",
                spec=spec, circle=(g.X(cu), g.Y(cz), R), kind=kind,
            )


@register
class C02:
    id = "C02"
    cases = dict(quick=1500, thorough=30000)
    rule = (
        "One case is a frictionless model (the factor is then inversely "
        "proportional to the driving force, so the loads acting on a surface "
        "can be measured from the outside) with several loads and ~12 "
        "circles, a third of them with slice edges placed on the loads; the "
        "measured load effect is compared with statics, drawn load extents "
        "with the offsets. Non-trivial: a circle passing under a load; "
        "distinct by model and circle."
    )
    minimum = dict(under_load=2000, clear_of_load=300, at_edge=200, extents=300, limited=300)

    @staticmethod
    def case(r, obs, tier, index):
        spec = gen.spec(r, frictionless=True, loads=True, tight=True, water=False)
        while r.random() < 0.5:
            spec[r.choice(["udls", "lls"])].append(None)
        spec["udls"] = [u or gen.udl(r, spec["h"]) for u in spec["udls"]]
        spec["lls"] = [u or gen.ll(r, spec["h"]) for u in spec["lls"]]
        if r.random() < 0.15:
            spec["lls"] += [dict(spec["lls"][0])] if spec["lls"] else []
        if r.random() < 0.3:
            for u in spec["udls"]:
                u["off"] = round(u["off"] * r.uniform(1, 10), 2)
            for u in spec["lls"]:
                u["off"] = round(u["off"] * r.uniform(1, 10), 2)
        obs.sample = spec if index < 3 else None
        g = ref.Geo(spec)
        n = spec["slices"]
        cs = circles(r, g, 8)
        lo = dict(spec, udls=[], lls=[])
        # circles with slice edges on load positions
        pos = [-p["off"] for p in spec["lls"]]
        for u in spec["udls"]:
            pos += [-u["off"]] + ([-u["off"] - u["len"]] if u["len"] else [])
        for p in pos:
            if r.random() < 0.7:
                k = r.randrange(1, n)
                ul = p - r.choice([0.05, 0.1, 0.2, 0.25, 0.5]) * k
                if r.random() < 0.2:
                    ul = p
                    k = 0
                w = (p - ul) / k if k else None
                ur = ul + n * w if w else None
                if ul <= -g.crest or (ur is not None and not 0 < ur < g.L + g.toe):
                    continue
                c = gen.circle(r, g, entry=ul, exit_=ur, tries=8)
                if c:
                    cs.append(c)
        if not cs:
            raise Skip("no circle")

        # the model may be built in any order
        order = r.random()
        if order < 0.6:
            s = drive.build(spec)
        else:
            other = gen.spec(r)
            s = drive.new_slope(other)
            s.set_udls(*[drive.mk_udl(u) for u in spec["udls"]])
            s.set_materials(*[drive.mk_material(m) for m in spec["materials"]])
            if r.random() < 0.5:
                for p in spec["lls"]:
                    s.set_lls(drive.mk_ll(p))
                drive.set_boundary(s, spec)
            else:
                drive.set_boundary(s, spec)
                for p in spec["lls"]:
                    s.set_lls(drive.mk_ll(p))
            drive.set_extents(s, spec)
            drive.set_options(s, spec)
            if spec["ext_L"] and spec["ext_L"] < g.tot_l:
                # explicit extents set last may be less than the loads need
                s = drive.build(spec)
        if r.random() < 0.4:
            limited(r, s, spec, obs)
        fl = drive.fos_of(s, [model(g, c) for c in cs])
        s0 = drive.build(lo)
        g0 = ref.Geo(lo)
        f0 = drive.fos_of(s0, [model(g0, c) for c in cs if -c[3] < g0.crest - 0.001 and c[4] < g0.L + g0.toe])
        f0 = dict(zip([c for c in cs if -c[3] < g0.crest - 0.001 and c[4] < g0.L + g0.toe], f0))
        for c, f in zip(cs, fl):
            b = ref.Bishop(spec, g, *c[:3], c[3], c[4], n)
            if not b.ok or b.near_boundary < 1e-7 or len(b.ll_ambiguous) > 6:
                obs.count("undecided")
                continue
            amb = b.ll_ambiguous
            soil = sum(x["soil"] * x["s"] for x in b.rows)
            R = sum(x["coh"] * x["b"] / x["c"] for x in b.rows)
            q = sum(x["Q"] * x["s"] for x in b.rows)
            pl = b.driving() - soil - q
            ex = [soil + q + pl]
            for P, cand in amb:
                ex = [
                    e + (0 if i is None else P * b.rows[i]["s"])
                    for e in ex for i in cand
                ]
            scale = sum(abs(x["W"] * x["s"]) for x in b.rows) + sum(P for P, _ in amb)
            loaded = q != 0 or pl != 0 or amb
            if f is None:
                if any(e > 1e-6 * scale for e in ex) and not any(e <= 1e-6 * scale for e in ex):
                    raise Violation(
                        "surface under load not reported although driving "
                        f"force is {ex}", spec=spec, circle=model(g, c),
                    )
                continue
            if min(ex) <= 1e-6 * scale:
                obs.count("undecided")
                continue
            got = R / f
            obs.count("under_load" if loaded else "clear_of_load")
            if amb:
                obs.count("at_edge")
            obs.seen(spec["h"], spec["angle"], c)
            if not any(abs(got - e) <= 1e-7 * scale for e in ex):
                raise Violation(
                    f"loads: measured driving force {got}, statics {ex} "
                    f"(soil alone {soil})",
                    spec=spec, circle=model(g, c), fos=f,
                )
            if not loaded and f0.get(c) is not None:
                if not drive.close(f, f0[c], 1e-7):
                    raise Violation(
                        f"load changes the factor of a surface it is not on: "
                        f"{f0[c]} -> {f}", spec=spec, circle=model(g, c),
                    )
        C02.extents(obs, s, spec, g)

    @staticmethod
    def extents(obs, s, spec, g):
        """loads as drawn lie on the crest, whole, at their offset"""
        fig = drive.figure(s.plot_boundary(material_table=False))
        lay = fig["layout"]
        boxes = [
            (o["x0"], o["x1"], o["yanchor"]) for o in lay.get("shapes", [])
            if o["type"] == "rect" and o.get("xref") == "x"
        ]
        want = []
        for u in spec["udls"]:
            right = g.X(-u["off"])
            left = right - u["len"] if u["len"] else 0.0
            want.append((left, right, g.tot_h))
            if left < -1e-9:
                raise Violation("load outside the model", spec=spec)
        boxes.sort()
        want.sort()
        if drive.diff([list(b) for b in boxes], [list(b) for b in want]):
            raise Violation(
                f"distributed loads drawn at {boxes}, entered at {want}",
                spec=spec,
            )
        heads = [
            (a["x"], a["y"]) for a in lay.get("annotations", [])
            if str(a.get("text", "")).endswith("kN/m")
        ]
        want = sorted((g.X(-p["off"]), g.tot_h) for p in spec["lls"])
        if drive.diff([list(b) for b in sorted(heads)], [list(b) for b in want]):
            raise Violation(
                f"line loads drawn at {sorted(heads)}, entered at {want}",
                spec=spec,
            )
        obs.count("extents")


def limited(r, s, spec, obs):
    """set analysis limits, which are for searches only, and perhaps enter
    the loads again afterwards"""
    lim = gen.gen_limits(r, spec)
    try:
        drive.set_limits(s, dict(limits=lim))
    except ValueError:
        return
    obs.count("limited")
    k = r.random()
    if k < 0.4:
        s.remove_udls(remove_all=True)
        s.remove_lls(remove_all=True)
        s.set_lls(*[drive.mk_ll(p) for p in spec["lls"]])
        s.set_udls(*[drive.mk_udl(u) for u in spec["udls"]])
    elif k < 0.6:
        s.set_water_table(r.choice([0, 1, 2.5]))
        s.remove_water_table()


def solid(spec, g, c, margin=1e-6):
    """the factor of this circle does not rest on rounding (else None)"""
    b = ref.Bishop(spec, g, *c[:3], c[3], c[4], spec["slices"])
    if not b.ok or b.near_boundary < margin or b.ll_margin < margin:
        return None
    if max(x["zb"] - x["zt"] for x in b.rows) < 1e-2:
        return None
    D = b.driving()
    if D <= 1e-3 * sum(abs(x["W"] * x["s"]) for x in b.rows):
        return None
    f = b.fixed_point()
    em, worst = b.emulate(spec["tol"], spec["maxit"])
    if f is None or em is None or worst < 0.05:
        return None
    return f


def fos(spec, cs, s=None):
    g = ref.Geo(spec)
    return drive.fos_of(s or drive.build(spec), [model(g, c) for c in cs])


@register
class C13:
    id = "C13"
    cases = dict(quick=4000, thorough=30000)
    rule = (
        "One case is a random model and ~8 circles, analysed again with one "
        "parameter changed (cohesion, friction angle, water level, water "
        "factor, an added load, scaled cohesion). Non-trivial: a pair of "
        "factors that differ; distinct by change, model and circle."
    )
    minimum = dict(
        pairs=2000, changed=1000, cohesion=200, friction=100, water=100,
        factor=50, load=100, scale=200,
    )
    assumptions = ["pairs with m-alpha below 0.05 are not judged"]

    @staticmethod
    def case(r, obs, tier, index):
        kind = r.choice(["cohesion", "friction", "water", "factor", "load", "scale"])
        less = kind in ("load", "scale")
        spec = gen.spec(r, tight=True, frictionless=less)
        if kind == "friction":
            spec["water"] = None
        g = ref.Geo(spec)
        m = [dict(x) for x in spec["materials"]]
        var = dict(spec, materials=m)
        i = r.randrange(len(m))
        rel = None
        cs = circles(r, g, 8)
        if kind == "cohesion":
            m[i]["c"] += num(r)
            rel = ">="
        elif kind == "friction":
            spec["materials"][i]["c"] = 0
            spec["materials"][i]["phi"] = max(1, spec["materials"][i]["phi"])
            m[i]["c"] = 0
            m[i]["phi"] = spec["materials"][i]["phi"] + r.choice([0.5, 2, 10])
            rel = ">="
        elif kind == "water":
            spec["H"] = var["H"] = 1
            if spec["water"] is not None and spec["water"] > 2.5 * spec["h"]:
                spec["water"] = None
            top = spec["water"] if spec["water"] is not None else 2 * spec["h"]
            var["water"] = max(0, round(top * r.uniform(0, 0.95), 3))
            if r.random() < 0.25:  # at the crest or the toe
                var["water"] = r.choice([0, 0, spec["h"]])
                if var["water"] >= top:
                    var["water"] = 0
                if top == 0:
                    spec["water"] = spec["h"] / 2
            rel = "<="
        elif kind == "factor":
            if spec["water"] is None:
                spec["water"] = var["water"] = round(spec["h"] * r.uniform(0, 1.2), 2)
            a, b = sorted([round(r.random(), 2), round(r.random(), 2)])
            spec["H"], var["H"] = a, b
            rel = "<="
        elif kind == "scale":
            k = r.choice([0.5, 2, 3, 1.1, 10])
            for x in m:
                x["c"] = x["c"] * k
            rel = k
        elif kind == "load":
            rel = "<="
            if not cs:
                raise Skip("no circle")
            c = cs[0]
            lim = min(0.0, c[0])  # left of circle centre, on the crest
            if c[3] >= lim - 0.1:
                raise Skip("no crest under circle")
            a = c[3] + (lim - c[3]) * r.uniform(0, 0.7)
            if r.random() < 0.5:
                var["lls"] = spec["lls"] + [dict(P=num(r), off=-a)]
            else:
                b = a + (lim - a) * r.uniform(0.1, 1)
                var["udls"] = spec["udls"] + [dict(q=num(r), off=-b, len=b - a)]
            cs = [c]
        if not cs:
            raise Skip("no circle")
        gv = ref.Geo(var)
        judged = [
            c for c in cs if solid(spec, g, c) and solid(var, gv, c)
        ]
        if not judged:
            raise Skip("nothing well conditioned")
        f1 = fos(spec, judged)
        f2 = fos(var, judged)
        obs.sample = dict(kind=kind, spec=spec) if index < 3 else None
        for c, a, b in zip(judged, f1, f2):
            w = dict(spec=spec, changed=var, circle=model(g, c), kind=kind)
            if a is None or b is None:
                raise Violation(f"{kind}: surface not reported ({a}, {b})", **w)
            obs.count("pairs")
            obs.count(kind)
            if not drive.close(a, b, 1e-6):
                obs.count("changed")
                obs.seen(kind, spec["h"], c)
            eps = 1e-6 * abs(a)
            bad = (
                (rel == ">=" and b < a - eps) or (rel == "<=" and b > a + eps)
                or (isinstance(rel, (int, float)) and abs(b - rel * a) > rel * eps)
            )
            if bad:
                raise Violation(f"{kind}: factor {a} became {b}", **w)


def num(r):
    return gen.num(r, 0.5, 80, [1, 2, 5, 10, 50])


@register
class C22:
    id = "C22"
    cases = dict(quick=4000, thorough=30000)
    rule = (
        "One case is a random model and an equivalent description of it "
        "(split or reordered strata and loads, other bottom for the deepest "
        "stratum, consistent scaling) with ~8 circles analysed in both. "
        "Non-trivial: a pair of well-conditioned factors; distinct by "
        "transformation, model and circle."
    )
    minimum = dict(
        pairs=2000, split_layer=100, deepest=100, split_udl=100,
        stack_udl=100, split_ll=100, reorder=100, scale=100, extents=100,
    )
    assumptions = C13.assumptions

    @staticmethod
    def case(r, obs, tier, index):
        kind = r.choice(
            ["split_layer", "deepest", "split_udl", "stack_udl", "split_ll",
             "reorder", "scale", "extents"]
        )
        spec = gen.spec(r, tight=True, loads=True)
        if kind == "extents":
            spec["ext_L"] = spec["ext_H"] = None
        if spec["water"] is not None and spec["water"] > 2.5 * spec["h"]:
            spec["water"] = None
        # extents generous so that equivalent descriptions share them
        g = ref.Geo(spec)
        larger = dict(
            ext_L=round(3 * (g.tot_l + 10), 1), ext_H=round(2 * g.tot_h + 10, 1))
        if kind != "extents":
            spec.update(larger)
        if kind in ("split_udl", "stack_udl") and not spec["udls"]:
            spec["udls"] = [gen.udl(r, spec["h"])]
        if kind == "split_ll" and not spec["lls"]:
            spec["lls"] = [gen.ll(r, spec["h"])]
        g = ref.Geo(spec)
        m = [dict(x) for x in spec["materials"]]
        var = dict(
            spec, materials=m, udls=[dict(u) for u in spec["udls"]],
            lls=[dict(p) for p in spec["lls"]],
        )
        k = 1
        s = None
        if kind == "split_layer":
            for _ in range(r.choice([1, 2, 4])):
                i = r.randrange(len(m))
                lo = m[i - 1]["d"] if i else 0
                d = round(lo + (m[i]["d"] - lo) * r.uniform(0.1, 0.9), 4)
                if any(abs(d - x["d"]) < 1e-3 for x in m) or d <= 0:
                    continue
                m.insert(i, dict(m[i], d=d))
        elif kind == "deepest":
            lo = m[-2]["d"] if len(m) > 1 else 0
            if r.random() < 0.5:
                m[-1]["d"] = round(lo + 0.1 + r.uniform(0, 2 * spec["h"]), 2)
            else:
                m.append(dict(m[-1], d=round(m[-1]["d"] + r.uniform(0.1, 9), 2)))
        elif kind == "split_udl":
            u = r.choice(var["udls"])
            var["udls"].remove(u)
            cut = round(r.uniform(0.05, 0.95) * (u["len"] or 5), 3)
            var["udls"] += [
                dict(u, len=cut),
                dict(u, off=u["off"] + cut, len=u["len"] - cut if u["len"] else u["len"]),
            ]
        elif kind == "stack_udl":
            u = r.choice(var["udls"])
            var["udls"].remove(u)
            q = u["q"] * r.uniform(0.1, 0.9)
            var["udls"] += [dict(u, q=q), dict(u, q=u["q"] - q)]
        elif kind == "split_ll":
            p = r.choice(var["lls"])
            var["lls"].remove(p)
            n = r.choice([2, 2, 3])
            var["lls"] += [dict(p, P=p["P"] / n) for _ in range(n)]
        elif kind == "reorder":
            for n in ("materials", "udls", "lls"):
                r.shuffle(var[n])
            s = drive.new_slope(var)
            drive.set_extents(s, var)
            adds = (
                [(s.set_materials, drive.mk_material(x)) for x in var["materials"]]
                + [(s.set_udls, drive.mk_udl(x)) for x in var["udls"]]
                + [(s.set_lls, drive.mk_ll(x)) for x in var["lls"]]
            )
            r.shuffle(adds)
            for f, x in adds:
                f(x)
            s.set_water_table(var["water"])
            drive.set_water_factor(s, var)
            drive.set_options(s, var)
        elif kind == "extents":
            n = r.choice([("ext_L",), ("ext_H",), ("ext_L", "ext_H")])
            var.update({x: larger[x] for x in n})
        elif kind == "scale":
            if g.L < 0.05:
                raise Skip("vertical face has a fixed minimum length")
            k = r.choice([0.5, 2, 3, r.uniform(0.6, 4)])
            var["h"] *= k
            for n in ("length", "water", "ext_L", "ext_H"):
                if var[n] is not None:
                    var[n] *= k
            for x in m:
                x["c"] *= k
                x["d"] *= k
            for u in var["udls"]:
                u["q"] *= k
                u["off"] *= k
                u["len"] = u["len"] * k if u["len"] else u["len"]
            for p in var["lls"]:
                p["P"] *= k * k
                p["off"] *= k
        cs = circles(r, g, 8)
        gv = ref.Geo(var)
        pairs = []
        for c in cs:
            cv = tuple(v * k for v in c)
            if solid(spec, g, c, 1e-5) and solid(var, gv, cv, 1e-5):
                pairs.append((c, cv))
        if not pairs:
            raise Skip("nothing well conditioned")
        obs.sample = dict(kind=kind, spec=spec, equivalent=var) if index < 3 else None
        f1 = fos(spec, [a for a, _ in pairs])
        f2 = fos(var, [b for _, b in pairs], s)
        for (c, cv), a, b in zip(pairs, f1, f2):
            obs.count("pairs")
            obs.count(kind)
            obs.seen(kind, spec["h"], c)
            if a is None or b is None or not drive.close(a, b, 1e-6):
                raise Violation(
                    f"{kind}: factor {a} against {b} for the equivalent model",
                    spec=spec, equivalent=var, circle=model(g, c), kind=kind,
                )
