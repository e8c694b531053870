"""C21: options and inputs are normalised as documented."""
import math

from . import register
from .mechanics import circles, model
from .state import quick_spec, compare
from .. import gen, ref, drive
from ..core import Violation, Skip
from ..drive import Slope, Material, Udl, LineLoad


def factors(s, cs, g):
    return drive.fos_of(s, [model(g, c) for c in cs])


def same(a, b, what, rel=1e-9, **w):
    for x, y in zip(a, b):
        if not drive.close(x, y, rel):
            raise Violation(f"{what}: factor {x} against {y}", **w)


@register
class C21:
    id = "C21"
    cases = dict(quick=1000, thorough=20000)
    limit = 600
    rule = (
        "One case takes a random model and one normalisation: option values "
        "outside their range against the clamped ones, sequences of partial "
        "option updates against one full update, defaults against explicit "
        "values, tolerance and iteration cap against the exact Bishop "
        "solution, negative inputs against positive ones, zero loads against "
        "none, unusable against default colours, length against length and "
        "angle. Non-trivial: a compared pair; distinct by model and setting."
    )
    minimum = dict(
        slices=60, iterations=40, partial=60, defaults=20, water_factor=50,
        tolerance=60, cap=60, negative=60, zero=40, colors=40, length=40,
        circles=2000,
    )

    @staticmethod
    def case(r, obs, tier, index):
        kinds = [
            C21.slices, C21.iterations, C21.partial, C21.defaults,
            C21.water_factor, C21.tolerance, C21.cap, C21.negative, C21.zero,
            C21.colors, C21.length, C21.partial, C21.tolerance,
        ]
        if index == 0 or (tier == "thorough" and index % 4000 == 1):
            return C21.upper_iterations(r, obs)
        kinds[index % len(kinds)](r, obs)

    # -- analysis options
    @staticmethod
    def slices(r, obs):
        spec = quick_spec(r)
        g = ref.Geo(spec)
        cs = circles(r, g, 6)
        n = r.choice([0, 0, 1, 2, 5, 9, 10, 11, 499, 500, 501, 1000, 10 ** 6, -3, -100, 12, 250])
        held = min(500, max(10, n))
        a = drive.build(dict(spec, slices=n))
        b = drive.build(dict(spec, slices=held))
        w = dict(spec=spec, slices=n)
        fa = factors(a, cs, g)
        same(fa, factors(b, cs, g), f"{n} slices against {held}", **w)
        # and they are used: the independent model with that many slices
        for c, f in zip(cs, fa):
            bs = ref.Bishop(spec, g, *c, held)
            if not bs.ok or f is None or held > 60 or bs.near_boundary < 1e-7:
                continue
            from .mechanics import verdict

            ok, want, dec = verdict(bs, spec, f)
            if not ok:
                raise Violation(
                    f"{n} slices give {f}, {held} slices give {want}",
                    circle=c, **w)
            if dec:
                obs.count("sliced")
        obs.count("slices")
        obs.count("circles", len(cs))
        obs.seen("slices", n, repr(spec))

    @staticmethod
    def iterations(r, obs):
        spec = quick_spec(r, limits=r.random() < 0.3)
        n = r.choice([0, 1, 10, 100, 499, 500, 501, -5, -1000])
        held = max(500, n)
        a = drive.build(dict(spec, iterations=n))
        b = drive.build(dict(spec, iterations=held))
        w = dict(spec=spec, iterations=n)
        a.analyse_slope()
        b.analyse_slope()
        drive.same_results(
            drive.results(a), drive.results(b),
            f"{n} iterations against {held}", **w)
        obs.count("iterations")
        obs.seen("iterations", n, repr(spec))

    @staticmethod
    def upper_iterations(r, obs):
        res = []
        for n in (50000, 100000, 250000):
            s = Slope(height=3, angle=60)
            s.set_materials(Material(18, 20, 5, 4))
            s.update_analysis_options(
                slices=10, iterations=n, max_iterations=2)
            s.analyse_slope()
            res.append(sorted(
                (round(x["FOS"], 9), round(x["radius"], 6))
                for x in drive.results(s)
            ))
        half, full, more = res
        if full != more:
            raise Violation(
                f"250000 iterations analyse {len(more)} surfaces, 100000 "
                f"{len(full)}")
        if not 1.6 * len(half) < len(full) < 2.5 * len(half):
            raise Violation(
                f"100000 iterations analyse {len(full)} surfaces, 50000 "
                f"{len(half)}")
        obs.count("iterations")
        obs.count("upper", len(full))

    @staticmethod
    def partial(r, obs):
        spec = quick_spec(r)
        g = ref.Geo(spec)
        s = drive.build(spec)
        now = dict(
            slices=spec["slices"], iterations=spec["iterations"],
            tolerance=spec["tol"], max_iterations=spec["maxit"],
            min_failure_dist=0,
        )
        H = spec["H"]
        log = []
        for _ in range(r.randint(2, 7)):
            k = r.random()
            if k < 0.7:
                new = {}
                for name, vals in dict(
                    slices=[3, 10, 14, 20, 30], iterations=[500, 700, 900, 20],
                    tolerance=[0.1, 0.01, 0.005, 1e-6, 0],
                    max_iterations=[1, 3, 15, 60],
                    min_failure_dist=[0, g.h / 2, g.h],
                ).items():
                    if r.random() < 0.4:
                        new[name] = r.choice(vals)
                    elif r.random() < 0.2:
                        new[name] = None
                s.update_analysis_options(**new)
                log.append(new)
                for a, v in new.items():
                    if v is not None:
                        now[a] = v
            elif k < 0.85:
                H = r.choice([None, 0, 0.3, 1, 2])
                if H is None:
                    s.update_water_analysis_options() if r.random() < 0.5 else (
                        s.update_water_analysis_options(auto=True, H=0.123))
                else:
                    s.update_water_analysis_options(auto=False, H=H)
                log.append(("H", H))
            elif k < 0.93:
                s.analyse_slope()
                log.append("analyse")
            else:
                s.update_boundary_options()
                log.append("boundary options without values")
        now["slices"] = max(10, now["slices"])
        now["iterations"] = max(500, now["iterations"])
        t = drive.build(dict(spec, H=H))
        t.update_analysis_options(**now)
        compare(
            s, t, f"options after {log} against {now}, H={H}", plots=False,
            spec=spec)
        obs.count("partial")
        obs.seen("partial", repr(log), repr(spec))

    @staticmethod
    def defaults(r, obs):
        s = Slope()
        s.set_materials(Material())
        t = Slope(height=1, angle=30, length=None)
        t.set_materials(Material(
            unit_weight=20, friction_angle=35, cohesion=2, depth_to_bottom=5,
            name=r.choice(["", None]), color=r.choice(["", None])))
        t.update_boundary_options(MIN_EXT_L=10, MIN_EXT_H=6)
        if r.random() < 0.5:
            s.set_udls(Udl(10))
            t.set_udls(Udl(
                magnitude=10, offset=0, length=r.choice([None, 0]), color="red",
                dynamic_offset=False))
        if r.random() < 0.5:
            s.set_lls(LineLoad(15))
            t.set_lls(LineLoad(
                magnitude=15, offset=0, color="blue", dynamic_offset=False))
        if r.random() < 0.5:
            d = r.choice([1, 0.5])
            s.set_water_table(d)
            t.set_water_table(depth=d)
        t.update_water_analysis_options(auto=True)
        t.update_analysis_options(
            slices=25, iterations=1000, min_failure_dist=0, tolerance=0.005,
            max_iterations=15)
        compare(s, t, "defaults against their documented values")
        obs.count("defaults")

    @staticmethod
    def water_factor(r, obs):
        spec = quick_spec(r)
        spec["water"] = gen.num(r, 0, spec["h"], [0])
        g = ref.Geo(spec)
        cs = circles(r, g, 8)
        H = r.choice([-1, -0.2, 1.5, 7, 1, 0, 0.4, 1.0001, -1e-9])
        a = drive.build(dict(spec, H=H))
        b = drive.build(dict(spec, H=min(1, max(0, H))))
        same(
            factors(a, cs, g), factors(b, cs, g),
            f"water factor {H} against the limit", spec=spec, H=H)
        c = drive.build(dict(spec, H=None))
        d = drive.build(dict(
            spec, H=math.cos(math.atan2(g.h, g.L)) ** 2))
        same(
            factors(c, cs, g), factors(d, cs, g),
            "automatic water factor against cos(a)^2", spec=spec)
        obs.count("water_factor")
        obs.count("circles", len(cs))
        obs.seen("H", H, repr(spec))

    # -- tolerance and cap against the exact solution
    @staticmethod
    def exact(spec, g, c, f):
        b = ref.Bishop(spec, g, *c, spec["slices"])
        if not b.ok or f is None or b.near_boundary < 1e-7 or b.ll_ambiguous:
            return None
        D = b.driving()
        if abs(D) < 1e-6 * (sum(abs(x["W"] * x["s"]) for x in b.rows) or 1):
            return None
        em, worst = b.emulate(1e-13, 2000)
        if em is None or worst < 0.1:
            return None
        N, _ = b.step(em)
        if abs(N / D - em) > 1e-9 * max(1, em):
            return None  # not converging
        return b, D, em

    @staticmethod
    def tolerance(r, obs):
        spec = quick_spec(r)
        g = ref.Geo(spec)
        cs = circles(r, g, 8)
        tols = [10 ** r.uniform(-11, 0) for _ in range(4)]
        if r.random() < 0.4:
            tols[0] = 0
        tols.sort(reverse=True)
        got = []
        for t in tols:
            got.append(factors(drive.build(dict(spec, tol=t, maxit=500)), cs, g))
        for i, c in enumerate(cs):
            ex = C21.exact(spec, g, c, got[0][i])
            if ex is None:
                continue
            b, D, x = ex
            err = [None if f[i] is None else abs(f[i] - x) for f in got]
            if None in err:
                raise Violation(
                    f"factor only for some tolerances: {[f[i] for f in got]}",
                    spec=spec, circle=c)
            # a contraction: every step comes closer
            for (t, e), (t2, e2) in zip(zip(tols, err), list(zip(tols, err))[1:]):
                if e2 > e * (1 + 1e-6) + 1e-9:
                    raise Violation(
                        f"tolerance {t2} is {e2} from the exact factor {x}, "
                        f"tolerance {t} only {e}", spec=spec, circle=c)
            # at the end the remaining change is within the tolerance
            for t, f in zip(tols, got):
                N, _ = b.step(f[i])
                if abs(N / D - f[i]) > t + 1e-9 * x:
                    raise Violation(
                        f"factor {f[i]} for tolerance {t}, another step gives "
                        f"{N / D}", spec=spec, circle=c)
            obs.count("circles")
            obs.seen("tol", repr(tols), repr(c))
        obs.count("tolerance")

    @staticmethod
    def cap(r, obs):
        spec = quick_spec(r)
        g = ref.Geo(spec)
        cs = circles(r, g, 8)
        caps = [1, 2, 3, 4, 6, 10, 400]
        got = [
            factors(drive.build(dict(spec, tol=0 if k < 400 else 1e-13, maxit=k)), cs, g)
            for k in caps
        ]
        for i, c in enumerate(cs):
            ex = C21.exact(spec, g, c, got[-1][i])
            if ex is None:
                continue
            b, D, x = ex
            err = [None if f[i] is None else abs(f[i] - x) for f in got]
            if None in err:
                continue
            if err[-1] > 1e-7 * max(1, x):
                raise Violation(
                    f"{err[-1]} from the exact factor {x} after 400 steps",
                    spec=spec, circle=c)
            for k, e, k2, e2 in zip(caps, err, caps[1:], err[1:]):
                if e2 > e * (1 + 1e-6) + 1e-9:
                    raise Violation(
                        f"{e2} from the exact factor after at most {k2} "
                        f"steps, {e} after {k}", spec=spec, circle=c)
            # the cap is a cap: k steps from the ordinary factor
            for k, f in zip(caps[:4], got):
                em, _ = b.emulate(0, k)
                e1, _ = b.emulate(0, k + 1)
                if em is None or e1 is None:
                    continue
                if abs(f[i] - x) < abs(e1 - x) - 1e-7 * x:
                    raise Violation(
                        f"factor {f[i]} with a cap of {k} refinements is "
                        f"beyond {e1} after {k + 1}", spec=spec, circle=c)
            obs.count("circles")
            obs.seen("cap", repr(spec), repr(c))
        obs.count("cap")

    # -- inputs
    @staticmethod
    def negative(r, obs):
        spec = quick_spec(r)
        neg = dict(spec)

        def flip(v):
            return -v if v and r.random() < 0.6 else v

        neg["materials"] = [
            dict(m, c=flip(m["c"]), d=flip(m["d"])) for m in spec["materials"]
        ]
        neg["udls"] = [
            dict(u, q=flip(u["q"]), off=flip(u["off"]), len=flip(u["len"]))
            for u in spec["udls"]
        ]
        neg["lls"] = [
            dict(p, P=flip(p["P"]), off=flip(p["off"])) for p in spec["lls"]
        ]
        compare(
            drive.build(neg), drive.build(spec),
            "negative inputs against their absolute values", spec=neg)
        obs.count("negative")
        obs.seen("neg", repr(neg))

    @staticmethod
    def zero(r, obs):
        spec = quick_spec(r)
        z = dict(spec)
        z["udls"] = list(spec["udls"])
        z["lls"] = list(spec["lls"])
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.5:
                z["udls"].insert(
                    r.randint(0, len(z["udls"])),
                    dict(gen.udl(r, spec["h"]), q=r.choice([0, 0.0, -0.0]),
                         off=r.choice([0, 1, 500])))
            else:
                z["lls"].insert(
                    r.randint(0, len(z["lls"])),
                    dict(gen.ll(r, spec["h"]), P=r.choice([0, 0.0, -0.0]),
                         off=r.choice([0, 1, 500])))
        compare(
            drive.build(z), drive.build(spec), "zero loads against none",
            spec=z)
        obs.count("zero")
        obs.seen("zero", repr(z))

    @staticmethod
    def colors(r, obs):
        spec = quick_spec(r, loads=True)
        bad = ["", "zzz", "#12", "nocolor", "#12345g", "redd", None, 5, "rgb"]
        x, y = dict(spec), dict(spec)
        x["udls"] = [dict(u, color=r.choice(bad)) for u in spec["udls"]]
        y["udls"] = [dict(u, color="red") for u in spec["udls"]]
        x["lls"] = [dict(p, color=r.choice(bad)) for p in spec["lls"]]
        y["lls"] = [dict(p, color="blue") for p in spec["lls"]]
        strings = [b for b in bad if isinstance(b, str)]
        x["materials"] = [
            dict(m, color=r.choice(strings)) for m in spec["materials"]]
        y["materials"] = [dict(m, color="") for m in spec["materials"]]
        compare(
            drive.build(x), drive.build(y),
            "unusable colors against the defaults", spec=x)
        obs.count("colors")
        obs.seen("colors", repr(x))

    @staticmethod
    def length(r, obs):
        spec = quick_spec(r)
        if spec["length"] is None:
            spec["length"] = round(gen.num(r, 0.3, 4) * spec["h"], 3)
        spec["angle"] = None
        a = drive.build(spec)
        b = drive.build(dict(spec, angle=gen.num(r, 10, 90)))
        if r.random() < 0.5:
            b.set_external_boundary(
                height=spec["h"], angle=gen.num(r, 10, 90),
                length=spec["length"])
            drive.set_limits(b, spec)
        compare(a, b, "length against length and angle", spec=spec)
        # and the angle stands for the length it makes
        ang = math.degrees(math.atan2(spec["h"], spec["length"]))
        if spec["length"] and ang < 89.9:
            c = drive.build(dict(spec, length=None, angle=ang))
            for n in ("get_top_coordinates", "get_bottom_coordinates"):
                d = drive.diff(
                    list(getattr(a, n)()), list(getattr(c, n)()), tol=1e-6)
                if d:
                    raise Violation(f"angle {ang}: {n} {d}", spec=spec)
        obs.count("length")
        obs.seen("length", repr(spec))
