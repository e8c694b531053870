"""C17: dynamic analysis."""
import contextlib
import io
import re

from . import register
from .mechanics import circles, model
from .state import quick_spec
from .. import gen, ref, drive
from ..core import Violation, Skip


def weak_spec(r):
    """a model whose factor depends on its loads"""
    spec = quick_spec(r, loads=False, limits=False, slices=r.choice([10, 12, 20]))
    h = spec["h"]
    for m in spec["materials"]:
        m["phi"] = gen.num(r, 0, 30, [0, 0, 10, 20])
        m["c"] = gen.num(r, 1, 30, [2, 5, 10, 20])
    q = 20 * h
    spec["udls"], spec["lls"] = [], []

    def load(dyn):
        if r.random() < 0.6:
            u = gen.udl(r, h)
            u.update(q=round(q * r.uniform(0.2, 3), 1), dyn=dyn)
            spec["udls"].append(u)
        else:
            p = gen.ll(r, h)
            p.update(P=round(q * h * r.uniform(0.2, 2), 1), dyn=dyn)
            spec["lls"].append(p)

    for _ in range(r.choice([1, 1, 1, 2, 2, 3]) if r.random() < 0.95 else 0):
        load(True)
    for _ in range(r.choice([0, 0, 1, 2])):
        load(False)
    if r.random() < 0.2:
        # a fixed one like one that moves
        kind = r.choice([k for k in ("udls", "lls") if spec[k]] or ["udls"])
        if spec[kind]:
            x = dict(r.choice(spec[kind]))
            spec[kind].append(dict(x, dyn=not x["dyn"]))
    r.shuffle(spec["udls"])
    r.shuffle(spec["lls"])
    return spec


def at(s, offset):
    """move the dynamic loads of a freshly built model (adding them there could
    give other extents) and have it take notice"""
    for load in list(s._udls) + list(s._lls):
        if load.dynamic_offset:
            load.offset = offset
    s.set_udls()
    s.set_lls()


def extended(spec):
    """the specification with the extents the model takes for its loads"""
    s = drive.build(dict(spec, limits=None))
    return dict(
        spec, ext_L=s._external_length, ext_H=s.get_top_coordinates()[1]
    )


@register
class C17:
    id = "C17"
    cases = dict(quick=240, thorough=8000)
    rule = (
        "One case is a model with 0-3 dynamic and 0-2 fixed loads, with and "
        "without limits, water and individual surfaces, analysed dynamically "
        "for a target below, within, at and above its range of factors. "
        "Every analysis it makes is observed (offsets, factor) and every "
        "reported pair is compared with a fresh model with the dynamic loads "
        "at that offset. Non-trivial: a reported pair; distinct by model and "
        "offset."
    )
    minimum = dict(
        pairs=500, safe=20, unsafe=15, refined=60, fixed_loads=50, steps=500,
    )

    @staticmethod
    def case(r, obs, tier, index):
        spec = weak_spec(r)
        g = ref.Geo(spec)
        if r.random() < 0.3:
            spec["limits"] = gen.gen_limits(r, extended(spec))
        planes = []
        if r.random() < 0.2:
            planes = [model(g, c) for c in circles(r, g, 4)]
        w = dict(spec=spec, planes=planes)
        lengths = [u["len"] or 0 for u in spec["udls"] if u["dyn"]]

        again = False
        if r.random() < 0.35:
            # a dynamic analysis of other ground went before
            s = drive.build(dict(spec, materials=[
                dict(m, phi=m["phi"] + r.choice([0, 1, 5]),
                     c=m["c"] * r.choice([0.3, 0.9, 1.5, 3]))
                for m in spec["materials"]
            ]), planes)
            s.analyse_dynamic(r.uniform(0.3, 3))
            s.get_dynamic_results()
            for load in list(s._udls) + list(s._lls):
                if load.dynamic_offset:
                    load.offset = 0
            s.remove_material(remove_all=True)
            s.set_materials(*[
                drive.mk_material(m) for m in spec["materials"]])
            obs.count("repeated")
            again = True
        else:
            s = drive.build(spec, planes)
        if r.random() < 0.3:
            s.analyse_slope()
        if r.random() < 0.2:
            s.plot_boundary()
        ext = (s._external_length, s.get_top_coordinates()[1])
        crest = s.get_top_coordinates()[0]
        furthest = crest - max(lengths, default=0)
        w["furthest"] = furthest

        def fresh(offset):
            t = drive.build(spec, planes)
            at(t, offset)
            t.analyse_slope()
            return t

        t0 = fresh(0.0)
        tl = fresh(max(furthest - 0.01, 0.0))
        if not drive.results(t0) or not drive.results(tl):
            raise Skip("no surfaces")
        f0, fl = t0.get_min_FOS(), tl.get_min_FOS()

        k = r.random()
        if k < 0.12:
            target = f0 * r.uniform(0.3, 0.999)
        elif k < 0.24:
            target = max(f0, fl) * r.uniform(1.001, 2)
        elif k < 0.3:
            target = f0
        elif k < 0.36:
            target = fl
        elif k < 0.4:
            target = 1.3
        else:
            target = f0 + (fl - f0) * r.uniform(0.001, 0.999)
        if r.random() < 0.3:
            target = round(target, r.choice([1, 2, 3]))
        w["target"] = target

        # observe every analysis
        log = []
        real = s.analyse_slope
        loads = list(s._udls) + list(s._lls)
        dyn = [x for x in loads if x.dynamic_offset]
        fixed = [(x, x.offset) for x in loads if not x.dynamic_offset]

        def watch(*a, **kw):
            res = real(*a, **kw)
            log.append((
                sorted({x.offset for x in dyn}), s.get_min_FOS(),
                all(x.offset == o for x, o in fixed),
            ))
            return res

        s.analyse_slope = watch
        ret = s.analyse_dynamic(target) if r.random() < 0.5 else (
            s.analyse_dynamic(critical_fos=target))
        del s.analyse_slope
        pairs = s.get_dynamic_results()
        w["pairs"] = list(pairs.items())
        w["returned"] = ret
        obs.sample = dict(target=target, returned=ret, pairs=w["pairs"])
        if fixed:
            obs.count("fixed_loads")

        # return value
        if f0 >= target:
            want, kind = 0, "safe"
        elif fl < target:
            want, kind = 1, "unsafe"
        else:
            want, kind = None, "refined"
        # the furthest offset may be chosen a little differently
        if ret != want:
            raise Violation(
                f"returned {ret}, expected {want}: factor {f0} at the crest, "
                f"{fl} furthest, target {target}", **w)
        obs.count(kind)

        # offsets
        if not pairs:
            raise Violation("no results reported", **w)
        if not any(abs(o) < 1e-9 for o in pairs):
            raise Violation("the crest is not among the offsets tried", **w)
        if kind != "safe" and not any(
            max(furthest, 0) - 0.02 <= o <= max(furthest, 0) + 1e-9 for o in pairs
        ):
            raise Violation("the furthest offset is not among those tried", **w)
        tried = sorted(set(pairs) | {o for e in log for o in e[0]}) if dyn else sorted(pairs)
        for o in tried:
            if not -1e-9 <= o <= max(furthest, 0) + 1e-9:
                raise Violation(
                    f"offset {o} outside of 0 to {furthest}", **w)
        if len(pairs) > 20 or len(log) > 20:
            raise Violation(f"{len(log)} analyses, {len(pairs)} offsets", **w)

        # steps
        for e in log:
            obs.count("steps")
            if not e[2]:
                raise Violation("a fixed load was moved", **w)
            if dyn and len(e[0]) != 1:
                raise Violation(f"dynamic loads at several offsets {e[0]}", **w)
        if kind == "refined" and dyn and log:
            lo, hi = 0.0, max(furthest, 0.0)
            for e in log:
                o, f = e[0][0], e[1]
                if not lo - 1e-9 <= o <= hi + 1e-9:
                    raise Violation(
                        f"offset {o} tried, the target lies between {lo} and "
                        f"{hi}", log=log, **w)
                if f < target:
                    lo = max(lo, o)
                else:
                    hi = min(hi, o)
                if hi < lo:  # factor decreasing with offset somewhere
                    lo, hi = hi, lo
        # pairs
        final = {x.offset for x in dyn}
        for o, f in pairs.items():
            t = fresh(o)
            obs.count("pairs")
            obs.seen(repr(spec), o)
            if not drive.close(t.get_min_FOS(), f, 1e-9):
                raise Violation(
                    f"factor {f} reported for offset {o}, analysis gives "
                    f"{t.get_min_FOS()}", **w)
            if dyn and final == {o}:
                last = t
        for x, o in fixed:
            if x.offset != o:
                raise Violation("a fixed load was moved", **w)

        # the state left
        if dyn:
            if len(final) != 1 or not final <= set(pairs):
                raise Violation(
                    f"dynamic loads left at {sorted(final)}, reported "
                    f"{sorted(pairs)}", **w)
        else:
            last = t0
        e = (s._external_length, s.get_top_coordinates()[1])
        if drive.diff(list(e), list(ext)):
            raise Violation(f"extents changed from {ext} to {e}", **w)
        drive.same_figure(
            s.plot_boundary(), last.plot_boundary(),
            "model after dynamic analysis against one with the loads there",
            **w)
        drive.same_results(
            drive.results(s), drive.results(last),
            "results after dynamic analysis against the loads there", **w)
        if not drive.close(s.get_min_FOS(), last.get_min_FOS()):
            raise Violation("minimum after dynamic analysis", **w)
        if kind == "refined" and len(pairs) - 2 < 10 and dyn and len(
            log
        ) - 2 < 10 and log and round(s.get_min_FOS(), 3) < target - 1e-9:
            raise Violation(
                f"stopped at factor {s.get_min_FOS()} below the target "
                f"{target} after {len(log) - 2} refinements", **w)

        # printed form
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            s.print_dynamic_results()
        got = [
            tuple(float(v) for v in re.findall(r"[-+0-9.e]+(?= m|$)", line))
            for line in out.getvalue().strip().splitlines()
        ]
        want = [(o, f) for o, f in s.get_dynamic_results().items()]
        if len(got) != len(want) or any(
            len(a) != 2 or abs(a[0] - b[0]) > 6e-4 or abs(a[1] - b[1]) > 6e-4
            for a, b in zip(got, want)
        ):
            raise Violation(f"printed {got}, reported {want}", **w)
