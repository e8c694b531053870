"""C07 - C12: histories of calls, staleness, rejected input, independence."""
import copy
import math
import threading

from . import register
from .mechanics import circles, model
from .. import gen, ref, drive
from ..pristine import Frozen
from ..drive import mk_material, mk_udl, mk_ll, Slope, Material, Udl, LineLoad
from ..core import Violation, Skip

READS = ["plot_boundary", "get_top_coordinates", "get_bottom_coordinates"]
RESULT_READS = [
    "get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points",
    "plot_critical", "plot_all_planes",
]


def quick_spec(r, **kw):
    kw.setdefault("slices", r.choice([10, 12, 20]))
    return gen.spec(r, **kw)


def extents(s):
    """length and height of the model"""
    return s._external_length, s.get_top_coordinates()[1]


def compare(a, b, what, plots=True, rel=1e-9, table=False, **w):
    """a and b describe the same model and give the same results"""
    for n in ("get_top_coordinates", "get_bottom_coordinates"):
        d = drive.diff(list(getattr(a, n)()), list(getattr(b, n)()))
        if d:
            raise Violation(f"{what}: {n} {d}", **w)
    drive.same_figure(
        a.plot_boundary(material_table=table),
        b.plot_boundary(material_table=table), f"{what}: plot_boundary",
        **w
    )
    a.analyse_slope()
    b.analyse_slope()
    ra, rb = drive.results(a), drive.results(b)
    drive.same_results(ra, rb, what, rel, **w)
    if ra:
        fa, fb = a.get_min_FOS(), b.get_min_FOS()
        if not drive.close(fa, fb, rel):
            raise Violation(f"{what}: minimum {fa} against {fb}", **w)
        # equal factors may come in either order
        tie = len(ra) > 1 and ra[1]["FOS"] - ra[0]["FOS"] < 1e-9
        if plots and not tie:
            drive.same_figure(
                a.plot_critical(material_table=False),
                b.plot_critical(material_table=False),
                f"{what}: plot_critical", **w
            )
    return ra


# --------------------------------------------------------------------------- C07
class History:
    """Calls that end up at a specification, in a random order."""

    def __init__(self, r, spec):
        self.r = r
        self.log = []
        self.planes = []
        self.temp = False  # something was added that may have enlarged the model
        self.spec = spec

    def do(self, s, name, *a, **k):
        self.log.append(f"{name}({', '.join([repr(x) for x in a] + [f'{n}={v!r}' for n, v in k.items()])})")
        return getattr(s, name)(*a, **k)

    def start(self):
        r, spec = self.r, self.spec
        if r.random() < 0.5:
            self.final_boundary = True
            s = drive.new_slope(spec)
            self.log.append(f"Slope({spec['h']}, {spec['angle']}, {spec['length']})")
        else:
            self.final_boundary = False
            h = gen.num(r, 0.5, 20, gen.NICE_H)
            a = gen.num(r, 12, 90, gen.NICE_A)
            s = Slope(height=h, angle=a)
            self.log.append(f"Slope({h}, {a})")
        return s

    def boundary(self, s, h, angle, length):
        if length is None:
            self.do(s, "set_external_boundary", height=h, angle=angle)
        else:
            self.do(s, "set_external_boundary", height=h, length=length)

    def noise(self, s, late):
        """calls that change nothing"""
        r = self.r
        k = r.random()
        if k < 0.1:
            self.do(s, "analyse_slope")
        elif k < 0.16:
            self.do(s, "plot_boundary")
        elif k < 0.2:
            self.do(s, "set_materials")
        elif k < 0.24:
            self.do(s, "set_udls")
        elif k < 0.28:
            self.do(s, "remove_lls")
        elif k < 0.32:
            self.do(s, "update_analysis_options")
        elif k < 0.35 and not late:
            self.do(s, "update_boundary_options")  # resets limits
        elif k < 0.38:
            self.do(s, "set_udls", Udl(0, 1000, 1000))

    def run(self):
        r, spec = self.r, self.spec
        s = self.start()
        chains = []  # each chain is done in order, chains interleave

        # geometry
        c = []
        for _ in range(r.choice([0, 0, 1, 2])):
            h = gen.num(r, 0.5, 20, gen.NICE_H)
            a = gen.num(r, 12, 90, gen.NICE_A)
            c.append(lambda h=h, a=a: self.boundary(s, h, a, None))
        if r.random() < 0.3:  # nearly the same ground
            h = round(spec["h"] * r.choice([0.8, 1.2]), 3)
            length = ref.Geo(spec).L * r.choice([1, 1, 0.9])
            c.append(lambda: self.boundary(s, h, None, length))
            c.append(lambda: self.do(s, "analyse_slope"))
        if not self.final_boundary or c:
            c.append(lambda: self.boundary(
                s, spec["h"], spec["angle"], spec["length"]))
        chains.append(c)

        # extents
        for key, n in (("ext_L", "MIN_EXT_L"), ("ext_H", "MIN_EXT_H")):
            c = []
            v = spec.get(key)
            if r.random() < 0.3:
                t = gen.num(r, 1, 100)
                if not v:
                    v = dict(ext_L=10, ext_H=6)[key]  # the default
                c.append(lambda n=n, t=t: self.do(s, "update_boundary_options", **{n: t}))
            if v:
                c.append(lambda n=n, v=v: self.do(s, "update_boundary_options", **{n: v}))
            chains.append(c)

        # strata
        c = []
        ms = [mk_material(m) for m in spec["materials"]]
        if r.random() < 0.35:
            t = [mk_material(m) for m in gen.materials(r, spec["h"], 2)]
            self.temp = True
            c.append(lambda t=t: self.do(s, "set_materials", *t))
            if r.random() < 0.5:
                c.append(lambda: self.do(s, "remove_material", remove_all=True))
            else:
                c.append(lambda t=t: self.do(s, "remove_material", t[0]))
                c.append(lambda t=t: self.do(s, "remove_material", depth=t[1].depth_to_bottom))
        r.shuffle(ms)
        while ms:
            k = r.randint(1, len(ms))
            grp, ms = ms[:k], ms[k:]
            c.append(lambda grp=grp: self.do(s, "set_materials", *grp))
        chains.append(c)

        # loads
        for key, mk, add, rem in (
            ("udls", mk_udl, "set_udls", "remove_udls"),
            ("lls", mk_ll, "set_lls", "remove_lls"),
        ):
            c = []
            ls = [mk(x) for x in spec[key]]
            if r.random() < 0.3:
                t = mk(dict(
                    (gen.udl if key == "udls" else gen.ll)(r, spec["h"]),
                    off=gen.num(r, 0, 30),
                ))
                self.temp = True
                c.append(lambda t=t, add=add: self.do(s, add, t))
                c.append(lambda t=t, rem=rem: self.do(s, rem, remove_all=True))
            r.shuffle(ls)
            while ls:
                k = r.randint(1, len(ls))
                grp, ls = ls[:k], ls[k:]
                c.append(lambda grp=grp, add=add: self.do(s, add, *grp))
            chains.append(c)

        late = []
        # water
        c = []
        if r.random() < 0.4:
            t = gen.num(r, 0, 10)
            c.append(lambda t=t: self.do(s, "set_water_table", t))
            if spec["water"] is None:
                c.append(
                    (lambda: self.do(s, "remove_water_table"))
                    if r.random() < 0.5
                    else (lambda: self.do(s, "set_water_table", None))
                )
        if spec["water"] is not None:
            c.append(lambda: self.do(s, "set_water_table", spec["water"]))
        (chains if r.random() < 0.6 else late).append(c)

        # water factor
        c = []
        if r.random() < 0.4:
            t = gen.num(r, 0, 1)
            c.append(lambda t=t: self.do(s, "update_water_analysis_options", auto=False, H=t))
            if spec["H"] is None:
                c.append(lambda: self.do(s, "update_water_analysis_options", auto=True))
        if spec["H"] is not None:
            c.append(lambda: self.do(s, "update_water_analysis_options", auto=False, H=spec["H"]))
        (chains if r.random() < 0.6 else late).append(c)

        # options
        opts = dict(
            slices=spec["slices"], iterations=spec["iterations"],
            tolerance=spec["tol"], max_iterations=spec["maxit"],
        )
        c = []
        if r.random() < 0.4:
            c.append(lambda: self.do(
                s, "update_analysis_options", slices=77, iterations=500,
                tolerance=0.1, max_iterations=3))
        items = list(opts.items())
        r.shuffle(items)
        while items:
            k = r.randint(1, len(items))
            grp, items = items[:k], items[k:]
            c.append(lambda grp=grp: self.do(s, "update_analysis_options", **dict(grp)))
        (chains if r.random() < 0.6 else late).append(c)

        self.interleave(s, chains)

        # limits and minimum distance count from the last extent change
        lim = spec.get("limits")
        g = ref.Geo(spec)
        c = []
        if r.random() < 0.4:
            t = r.uniform(0.1, 0.5) * g.crest
            c.append(lambda t=t: self.do(s, "set_analysis_limits", left_x=t))
            if not lim:
                c.append(lambda: self.do(s, "remove_analysis_limits"))
        if lim:
            if r.random() < 0.5:
                c.append(lambda: self.do(s, "remove_analysis_limits"))
            c.append(lambda: self.do(
                s, "set_analysis_limits", left_x=lim[0], left_x_right=lim[1],
                right_x_left=lim[2], right_x=lim[3]))
        late.append(c)
        c = []
        if spec.get("mfd"):
            if r.random() < 0.3:
                c.append(lambda: self.do(s, "update_analysis_options", min_failure_dist=1))
            c.append(lambda: self.do(s, "update_analysis_options", min_failure_dist=spec["mfd"]))
        elif r.random() < 0.3:
            c.append(lambda: self.do(s, "update_analysis_options", min_failure_dist=1))
            c.append(lambda: self.do(s, "update_analysis_options", min_failure_dist=0))
        late.append(c)
        # superseded bound, individual surfaces
        if r.random() < 0.25:
            late.append([
                lambda: self.do(s, "add_single_circular_plane",
                                g.crest + g.L, g.tot_h + g.h, 1.9 * g.h + 0.1 * g.L),
                lambda: self.do(s, "remove_individual_planes"),
            ])
        if not self.temp and r.random() < 0.2:
            self.planes = [model(g, c) for c in circles(r, g, r.randint(1, 4))]
            late.append([
                lambda p=p: self.do(s, "add_single_circular_plane", *p)
                for p in self.planes
            ])
            late[-2:] = [[f for c in late[-2:] for f in c]]
        self.interleave(s, late, True)
        return s

    def interleave(self, s, chains, late=False):
        r = self.r
        chains = [list(c) for c in chains if c]
        while chains:
            c = r.choice(chains)
            c.pop(0)()
            if not c:
                chains.remove(c)
            self.noise(s, late)


@register
class C07:
    id = "C07"
    pristine = True
    cases = dict(quick=480, thorough=9000)
    rule = (
        "One case is a random final configuration reached twice: directly, "
        "and by a random history (calls interleaved, grouped, superseded, "
        "undone, with analyses and plots in between). Model coordinates, "
        "results of a search and plots must agree. Non-trivial: such a "
        "comparison; distinct by call sequence."
    )
    minimum = dict(histories=300, calls=3000, boundary_after=100, superseded=100)
    assumptions = [
        "analysis limits and the minimum distance count from the last change "
        "of the model's extents",
        "where something temporary enlarged the model, the directly built "
        "slope is given the same extents",
    ]

    @staticmethod
    def case(r, obs, tier, index):
        spec = quick_spec(r, limits=r.random() < 0.4)
        if r.random() < 0.2:
            g = ref.Geo(spec)
            spec["mfd"] = round(r.uniform(0.05, 0.4) * (g.h + g.L), 3)
        h = History(r, spec)
        try:
            s = h.run()
        except ValueError as e:
            if spec["limits"] and "limits" in str(e):
                # only possible if the model is not the specified one
                if h.temp:
                    raise Skip("limits on enlarged model")
            raise Violation(f"valid call rejected: {e}", spec=spec, calls=h.log)
        obs.sample = h.log if index < 3 else None
        obs.count("histories")
        obs.count("calls", len(h.log))
        if any("set_external_boundary" in c for c in h.log):
            obs.count("boundary_after")
        direct = spec
        if h.temp:
            obs.count("superseded")
            L, H = extents(s)
            g = ref.Geo(spec)
            if L < g.tot_l - 1e-6 or H < g.tot_h - 1e-6:
                raise Violation(
                    f"model {L} x {H} smaller than the configuration needs "
                    f"({g.tot_l} x {g.tot_h})", spec=spec, calls=h.log
                )
            direct = dict(spec, ext_L=L, ext_H=H)
            lim = spec["limits"]
            if lim and L > g.tot_l + 1e-9:
                # the limits were given for other coordinates
                raise Skip("limits on enlarged model")
        table, crit = r.random() < 0.3, r.random() < 0.5
        t = Frozen(direct, h.planes, table, crit)
        obs.seen(tuple(h.log))
        compare(s, t, "built in another order",
                plots=crit, table=table, spec=spec, calls=h.log)


# --------------------------------------------------------------------------- C08
@register
class C08:
    id = "C08"
    pristine = True
    cases = dict(quick=480, thorough=9000)
    rule = (
        "One case adds random strata, loads, water, limits and surfaces to a "
        "random slope and removes some or all of them (by object, equal "
        "object, depth or remove-all, with analyses in between, naming things "
        "that are not there), and compares with a slope to which only the "
        "rest was ever added, with the same extents. Non-trivial: a "
        "comparison; distinct by call sequence."
    )
    minimum = dict(
        compared=300, strata=60, loads=60, water=30, limits=30, planes=30,
        absent=60,
    )

    @staticmethod
    def case(r, obs, tier, index):
        base = quick_spec(r, limits=False)
        log = []

        def do(s, n, *a, **k):
            log.append(f"{n}({', '.join([repr(x) for x in a] + [f'{i}={v!r}' for i, v in k.items()])})")
            return getattr(s, n)(*a, **k)

        s = drive.build(base)
        want = copy.deepcopy(base)
        planes = []
        if r.random() < 0.3:
            s.analyse_slope()
        kinds = ["strata", "udls", "lls", "water", "limits", "planes", "absent"]
        r.shuffle(kinds)
        kinds = kinds[: r.choice([1, 1, 2, 3])]
        pend = []  # removals
        limits_touched = False
        for kind in kinds:
            if kind == "strata":
                obs.count("strata")
                taken = {m["d"] for m in base["materials"]}
                new = [
                    m for m in gen.materials(r, base["h"], r.randint(1, 3))
                    if all(abs(m["d"] - d) > 1e-6 for d in taken)
                ]
                if not new:
                    continue
                if r.random() < 0.15 and 0 not in taken:
                    new[0] = dict(new[0], d=0)  # an empty one
                elif r.random() < 0.4:
                    # thin layers, millimetres apart
                    every = taken | {m["d"] for m in new}
                    for m in list(new):
                        d = round(r.choice(sorted(every)) + r.choice(
                            [-1, 1]) * r.choice([0.001, 0.003, 0.004, 0.009, 0.1]), 4)
                        if d > 0 and all(abs(d - x) > 1e-6 for x in every):
                            new.append(dict(m, d=d))
                            every.add(d)
                    r.shuffle(new)
                    obs.count("thin")
                objs = [mk_material(m) for m in new]
                do(s, "set_materials", *objs)
                how = r.choice(["object", "equal", "depth", "all"])
                if how == "all":
                    pend.append(lambda: (
                        do(s, "remove_material", remove_all=True),
                        do(s, "set_materials", *[mk_material(m) for m in base["materials"]]),
                    ))
                else:
                    keep = []
                    for m, o in zip(new, objs):
                        if r.random() < 0.25:
                            keep.append(m)
                            continue
                        if how == "object":
                            pend.append(lambda o=o: do(s, "remove_material", o))
                        elif how == "equal":
                            pend.append(lambda m=m: do(s, "remove_material", mk_material(m)))
                        else:
                            pend.append(lambda m=m: do(s, "remove_material", depth=m["d"]))
                    want["materials"] = want["materials"] + keep
            elif kind in ("udls", "lls"):
                obs.count("loads")
                mk, add, rem, g_ = (
                    (mk_udl, "set_udls", "remove_udls", gen.udl)
                    if kind == "udls" else (mk_ll, "set_lls", "remove_lls", gen.ll)
                )
                new = [g_(r, base["h"]) for _ in range(r.randint(1, 5))]
                if len(new) > 1 and r.random() < 0.3:
                    new[-1] = dict(new[0])  # an equal one
                ident = lambda x: (
                    x["off"], x.get("q", x.get("P")), x.get("len") or None
                )
                objs = [mk(x) for x in new]
                do(s, add, *objs)
                how = r.choice(["object", "equal", "all", "several"])
                if how == "all":
                    pend.append(lambda rem=rem, add=add, mk=mk, kind=kind: (
                        do(s, rem, remove_all=True),
                        do(s, add, *[mk(x) for x in base[kind]]),
                    ))
                    continue
                gone = [x for x in new if r.random() < 0.7] or [new[0]]
                ids = {ident(x) for x in gone}
                named = []
                for x, o in zip(new, objs):
                    if x in gone and (how != "several" or ident(x) not in
                                      [ident(y) for y, _ in named]):
                        named.append((x, o))
                if how == "several":
                    pend.append(lambda named=named, rem=rem: do(s, rem, *[o for _, o in named]))
                else:
                    for x, o in named:
                        o = o if how == "object" else mk(x)
                        pend.append(lambda o=o, rem=rem: do(s, rem, o))
                want[kind] = [x for x in want[kind] + new if ident(x) not in ids]
            elif kind == "water":
                obs.count("water")
                do(s, "set_water_table", gen.num(r, 0, 2 * base["h"]))
                if base["water"] is None:
                    pend.append(lambda: do(s, "remove_water_table"))
                elif r.random() < 0.5:
                    pend.append(lambda: (
                        do(s, "remove_water_table"),
                        do(s, "set_water_table", base["water"]),
                    ))
                else:
                    want["water"] = None
                    pend.append(lambda: do(s, "remove_water_table"))
            elif kind == "limits":
                obs.count("limits")
                g = ref.Geo(base)
                lim = gen.gen_limits(r, base)
                try:
                    do(s, "set_analysis_limits", left_x=lim[0], left_x_right=lim[1],
                       right_x_left=lim[2], right_x=lim[3])
                except ValueError:
                    raise Skip("limits on enlarged model")
                pend.append(lambda: do(s, "remove_analysis_limits"))
            elif kind == "planes":
                obs.count("planes")
                L, H = s.get_top_coordinates()
                k = r.randint(1, 4)
                for _ in range(k):
                    a, b = L * r.uniform(0.3, 0.95), L + r.uniform(0.3, 1) * base["h"]
                    if r.random() < 0.5:
                        do(s, "add_single_entry_exit_plane", a, b)
                    else:
                        do(s, "add_single_circular_plane", L + base["h"] * r.uniform(0, 0.5),
                           H + base["h"] * r.uniform(0, 1), base["h"] * r.uniform(0.8, 1.8))
                pend.append(lambda: do(s, "remove_individual_planes"))
            else:
                obs.count("absent")
                # not the depth of any stratum, though close to one
                near = round(r.choice(base["materials"])["d"] + r.choice(
                    [0.0004, -0.0004, 0.0006, 0.0044, 0.0104]), 6)
                absent = [
                    lambda: do(s, "remove_udls", Udl(3.21, 0.123, 9.87)),
                    lambda: do(s, "remove_lls", LineLoad(3.21, 0.123)),
                    lambda: do(s, "remove_material", depth=0.0123),
                    lambda d=near: do(s, "remove_material", depth=d),
                    lambda d=near: do(s, "remove_material", Material(depth_to_bottom=d)),
                    lambda: do(s, "remove_material", Material(depth_to_bottom=0.0123)),
                    lambda: do(s, "remove_material"),
                    lambda: do(s, "remove_udls"),
                    lambda: do(s, "remove_lls"),
                    lambda: do(s, "remove_individual_planes"),
                    lambda: do(s, "remove_analysis_limits"),
                ]
                # near misses of what is there
                for u in base["udls"][:1]:
                    absent.append(lambda u=u: do(s, "remove_udls", mk_udl(dict(u, off=u["off"] + 0.001))))
                    absent.append(lambda u=u: do(s, "remove_udls", mk_udl(dict(u, q=u["q"] + 0.5))))
                    absent.append(lambda u=u: do(s, "remove_udls", mk_udl(dict(u, len=(u["len"] or 0) + 1))))
                for p in base["lls"][:1]:
                    absent.append(lambda p=p: do(s, "remove_lls", mk_ll(dict(p, off=p["off"] + 0.001))))
                    absent.append(lambda p=p: do(s, "remove_lls", mk_ll(dict(p, P=p["P"] + 0.5))))
                if base["udls"] or base["lls"]:
                    ids = {(u["off"], u["q"], u["len"] or None) for u in base["udls"]}
                    absent = [a for a in absent]
                # limits and surfaces: only when none were added
                if "limits" in kinds:
                    absent.pop(10)
                if "planes" in kinds:
                    absent.pop(9)
                pend += [a for a in absent if r.random() < 0.5]
        if r.random() < 0.4:
            do(s, "analyse_slope")
        if not any(k in kinds for k in ("strata",)):
            r.shuffle(pend)
        for p in pend:
            p()
            if r.random() < 0.15:
                do(s, "plot_boundary")
        if near_miss_hits(base, want, log):
            raise Skip("a load equal to the absent one")
        obs.sample = log if index < 3 else None
        obs.count("compared")
        obs.seen(tuple(log))
        L, H = extents(s)
        want["ext_L"], want["ext_H"] = L, H
        table, crit = r.random() < 0.3, r.random() < 0.4
        t = Frozen(want, (), table, crit)
        compare(s, t, "after removing what was added",
                plots=crit, table=table, spec=base, calls=log)


def near_miss_hits(base, want, log):
    """a generated 'absent' load coincides with one that is there"""
    us = {(u["off"], u["q"], u["len"] or None) for u in base["udls"] + want["udls"]}
    ps = {(p["off"], p["P"]) for p in base["lls"] + want["lls"]}
    for u in base["udls"][:1]:
        if {
            (u["off"] + 0.001, u["q"], u["len"] or None),
            (u["off"], u["q"] + 0.5, u["len"] or None),
            (u["off"], u["q"], (u["len"] or 0) + 1),
        } & us:
            return True
    for p in base["lls"][:1]:
        if {(p["off"] + 0.001, p["P"]), (p["off"], p["P"] + 0.5)} & ps:
            return True
    return False


# --------------------------------------------------------------------------- C09
def mutators(r, spec, s, planes):
    """(name, kinds, call, changed specification) for changes of the model.

    planes: circles (model coordinates) added so far; the call may change the
    list returned as third element."""
    h = spec["h"]
    out = []

    def m(name, call, new, np=None):
        out.append((name, call, new, planes if np is None else np))

    h2, a2 = gen.num(r, 0.5, 20, gen.NICE_H), gen.num(r, 12, 90, gen.NICE_A)
    m(f"set_external_boundary({h2},{a2})",
      lambda: s.set_external_boundary(height=h2, angle=a2),
      dict(spec, h=h2, angle=a2, length=None, limits=None))
    l2 = round(spec["h"] * r.uniform(0.5, 3), 2)
    m(f"set_external_boundary({h},length={l2})",
      lambda: s.set_external_boundary(height=h, length=l2),
      dict(spec, length=l2, angle=None, limits=None))
    h3 = round(h * r.choice([0.5, 0.8, 1.1, 1.25]), 3)
    l3 = ref.Geo(spec).L
    m(f"set_external_boundary({h3},length={l3})",
      lambda: s.set_external_boundary(height=h3, length=l3),
      dict(spec, h=h3, length=l3, angle=None, limits=None))
    new = gen.material(r, gen.num(r, 0.2, 1.5 * h))
    if all(abs(x["d"] - new["d"]) > 1e-6 for x in spec["materials"]):
        m("set_materials", lambda: s.set_materials(mk_material(new)),
          dict(spec, materials=spec["materials"] + [new]))
    if len(spec["materials"]) > 1:
        gone = r.choice(spec["materials"])
        rest = [x for x in spec["materials"] if x is not gone]
        m("remove_material(object)", lambda: s.remove_material(mk_material(gone)),
          dict(spec, materials=rest))
        m("remove_material(depth)", lambda: s.remove_material(depth=gone["d"]),
          dict(spec, materials=rest))
    u = dict(gen.udl(r, h), off=round(r.uniform(0, 1), 2))
    p = dict(gen.ll(r, h), off=round(r.uniform(0, 1), 2))
    m("set_udls", lambda: s.set_udls(mk_udl(u)), dict(spec, udls=spec["udls"] + [u]))
    m("set_lls", lambda: s.set_lls(mk_ll(p)), dict(spec, lls=spec["lls"] + [p]))
    if spec["udls"]:
        g1 = spec["udls"][0]
        same = lambda x: (x["q"], x["off"], x["len"] or None) == (
            g1["q"], g1["off"], g1["len"] or None)
        m("remove_udls", lambda: s.remove_udls(mk_udl(g1)),
          dict(spec, udls=[x for x in spec["udls"] if not same(x)]))
        m("remove_udls(all)", lambda: s.remove_udls(remove_all=True), dict(spec, udls=[]))
    if spec["lls"]:
        g2 = spec["lls"][0]
        same2 = lambda x: (x["P"], x["off"]) == (g2["P"], g2["off"])
        m("remove_lls", lambda: s.remove_lls(mk_ll(g2)),
          dict(spec, lls=[x for x in spec["lls"] if not same2(x)]))
        m("remove_lls(all)", lambda: s.remove_lls(remove_all=True), dict(spec, lls=[]))
    w = round(r.uniform(0, h), 3)
    m(f"set_water_table({w})", lambda: s.set_water_table(w), dict(spec, water=w))
    if spec["water"] is not None:
        m("remove_water_table", s.remove_water_table, dict(spec, water=None))
        m("set_water_table(None)", lambda: s.set_water_table(None), dict(spec, water=None))
    H = round(r.uniform(0, 1), 2)
    m(f"update_water_analysis_options(H={H})",
      lambda: s.update_water_analysis_options(auto=False, H=H), dict(spec, H=H))
    m("update_water_analysis_options(auto)",
      lambda: s.update_water_analysis_options(auto=True), dict(spec, H=None))
    n = spec["slices"] + r.randint(1, 9)
    m(f"slices={n}", lambda: s.update_analysis_options(slices=n), dict(spec, slices=n))
    it = spec["iterations"] + 200
    m(f"iterations={it}", lambda: s.update_analysis_options(iterations=it),
      dict(spec, iterations=it))
    m("tolerance", lambda: s.update_analysis_options(tolerance=1e-7, max_iterations=50),
      dict(spec, tol=1e-7, maxit=50))
    m("max_iterations", lambda: s.update_analysis_options(max_iterations=1),
      dict(spec, maxit=1))
    d = round(r.uniform(0.1, 0.4) * (h + 1), 2)
    m(f"min_failure_dist={d}", lambda: s.update_analysis_options(min_failure_dist=d),
      dict(spec, mfd=d))
    g = ref.Geo(spec)
    b = round(g.tot_l * r.uniform(1.01, 1.5), 2)
    m(f"MIN_EXT_L={b}", lambda: s.update_boundary_options(MIN_EXT_L=b),
      dict(spec, ext_L=b, limits=None))
    b2 = round(g.tot_h * r.uniform(1.01, 1.5), 2)
    m(f"MIN_EXT_H={b2}", lambda: s.update_boundary_options(MIN_EXT_H=b2),
      dict(spec, ext_H=b2, limits=None))
    lim = gen.gen_limits(r, spec)
    m(f"set_analysis_limits({lim})", lambda: s.set_analysis_limits(
        left_x=lim[0], left_x_right=lim[1], right_x_left=lim[2], right_x=lim[3]),
      dict(spec, limits=lim))
    m("remove_analysis_limits", s.remove_analysis_limits, dict(spec, limits=None))
    c = circles(r, g, 1)
    if c:
        c = model(g, c[0])
        m("add_single_circular_plane", lambda: s.add_single_circular_plane(*c),
          spec, planes + [c])
    if planes:
        m("remove_individual_planes", s.remove_individual_planes, spec, [])
    return out


def read_all(s, names=RESULT_READS):
    """what the result readers return, or the error they raise"""
    out = {}
    for n in names:
        try:
            if n.startswith("plot"):
                fig = drive.figure(getattr(s, n)(material_table=False))
                out[n] = fig["data"]
            else:
                out[n] = getattr(s, n)()
        except Exception as e:
            out[n] = e
    return out


@register
class C09:
    id = "C09"
    pristine = True
    cases = dict(quick=480, thorough=9000)
    rule = (
        "One case is an analysed slope (search or individual surfaces) that is "
        "changed by 1-4 random calls; after each, every reader of results is "
        "called (must have nothing, or what a fresh slope reports), and after "
        "another analysis everything must equal a freshly built slope. "
        "Non-trivial: a change after which readers were checked; distinct by "
        "call and model."
    )
    minimum = dict(changes=500, reads=2500, fresh=400, with_planes=150)

    @staticmethod
    def case(r, obs, tier, index):
        spec = quick_spec(r, limits=r.random() < 0.3)
        if r.random() < 0.4:
            spec["limits"] = None
            roomy(r, spec)
        g = ref.Geo(spec)
        planes = []
        if r.random() < 0.5:
            planes = [model(g, c) for c in circles(r, g, r.randint(1, 4))]
        s = drive.build(spec, planes)
        log = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            s.analyse_slope()
            before = read_all(s, RESULT_READS[:3])
            n_planes = len(planes)
            L, H = extents(s)
            name, call, new, planes2 = r.choice(mutators(r, spec, s, planes))
            log.append(name)
            w = dict(spec=spec, planes=planes, calls=log)
            call()
            if name.startswith("set_") and _ext(new) != _ext(spec):
                # what has been added may extend the model, which resets limits
                s.remove_analysis_limits()
                new = dict(new, limits=None)
            obs.count("changes")
            obs.seen(name, spec["h"], spec["angle"], n_planes)
            if n_planes:
                obs.count("with_planes")
            after = read_all(s, RESULT_READS[:3] + [r.choice(RESULT_READS[3:])])
            fresh = None
            for k, v in after.items():
                obs.count("reads")
                if isinstance(v, Exception) or not v:
                    continue
                if isinstance(v, (tuple, list)) and not any(_flat(v)):
                    continue
                if k.startswith("plot") and len(v) <= plain_traces(s):
                    continue
                if fresh is None:
                    fresh = drive.build(_ref(new, spec, L, H), planes2)
                    fresh.analyse_slope()
                    fresh = read_all(fresh, list(after))
                if isinstance(fresh[k], Exception) or drive.diff(
                    _list(v), _list(fresh[k])
                ):
                    old = before.get(k, ValueError())
                    kind = (
                        "still the results from before"
                        if not isinstance(old, Exception)
                        and not drive.diff(_list(v), _list(old)) else "results"
                    )
                    raise Violation(
                        f"after {name}, {k} presents {kind}: {str(v)[:200]}", **w
                    )
            spec, planes = _ref(new, spec, L, H), planes2
        w = dict(spec=spec, planes=planes, calls=log)
        t = Frozen(spec, planes)
        s.analyse_slope()
        if planes and any(
            not any(drive.find([x], c) for c in planes) for x in drive.results(t)
        ):
            # a circle that does not cut the ground can not be added, and with
            # none added the whole slope is searched
            raise Skip("no surface cuts the ground any more")
        drive.same_results(
            drive.results(s), drive.results(t),
            "analysed again against a fresh slope", **w
        )
        obs.count("fresh")
        obs.sample = log if index < 3 else None
        if drive.results(s):
            for n in ("get_min_FOS", "get_min_FOS_circle", "get_min_FOS_end_points"):
                d = drive.diff(_list(getattr(s, n)()), _list(getattr(t, n)()))
                if d and not tie(drive.results(t)):
                    raise Violation(f"{n} against a fresh slope: {d}", **w)
            if r.random() < 0.5 and not tie(drive.results(t)):
                drive.same_figure(
                    s.plot_critical(material_table=False),
                    t.plot_critical(material_table=False),
                    "plot_critical against a fresh slope", **w
                )
        drive.same_figure(
            s.plot_boundary(material_table=False),
            t.plot_boundary(material_table=False),
            "plot_boundary against a fresh slope", **w
        )


def _ext(spec):
    """what the strata and loads require of the model's extents"""
    return (
        max([2.5 * (u["off"] + (u["len"] or 3)) for u in spec["udls"]]
            + [3 * p["off"] for p in spec["lls"]] + [0]),
        max(m["d"] for m in spec["materials"]),
    )


def tie(res):
    return len(res) > 1 and res[1]["FOS"] - res[0]["FOS"] < 1e-9


def _ref(new, old, L, H):
    """loads and strata keep the model enlarged when removed"""
    if (
        len(new["udls"]) < len(old["udls"]) or len(new["lls"]) < len(old["lls"])
        or len(new["materials"]) < len(old["materials"])
    ):
        # keep what they required, whatever the geometry is later
        ext_L = new.get("ext_L") or 10
        ext_H = new.get("ext_H") or 6
        for u in old["udls"]:
            ext_L = max(ext_L, 2.5 * (u["off"] + (u["len"] or 3)))
        for p in old["lls"]:
            ext_L = max(ext_L, 3 * p["off"])
        # the deepest stratum set the minimum height only if it did not fit
        ext_H = max(ext_H, H) if H > ref.Geo(new).tot_h + 1e-9 else ext_H
        return dict(new, ext_L=ext_L, ext_H=ext_H)
    return new


def _flat(v):
    for x in v:
        if isinstance(x, (tuple, list)):
            yield from _flat(x)
        else:
            yield x


def _list(v):
    return [_list(x) for x in v] if isinstance(v, (tuple, list)) else v


def plain_traces(s):
    return len(drive.figure(s.plot_boundary(material_table=False))["data"])


# --------------------------------------------------------------------------- C10
BAD = ["3", "abc", [1], (2,), {}, "", 1j]


def bad_number(r):
    return r.choice(BAD)


def invalid_calls(r, spec, s):
    g = ref.Geo(spec)
    h = spec["h"]
    out = []

    def add(name, fn, *a, **k):
        out.append((f"{name}({', '.join([repr(x) for x in a] + [f'{i}={v!r}' for i, v in k.items()])})",
                    lambda: fn(*a, **k)))

    neg = -round(r.uniform(0.001, 50), 3)
    bad = bad_number(r)
    for cls, nm in ((s.set_external_boundary, "set_external_boundary"), (Slope, "Slope")):
        for hh in (0, 0.0, neg, bad):
            add(nm, cls, height=hh, angle=30)
        for aa in (0, 0.0, neg, 90.001, 91, 180, 360.5, bad):
            if aa == "" or aa == [] or aa == {}:
                pass
            add(nm, cls, height=2, angle=aa)
            add(nm, cls, height=2, angle=aa, length=3)
        for ll in (neg, bad):
            add(nm, cls, height=2, length=ll)
            add(nm, cls, height=2, angle=30, length=ll)
        add(nm, cls, height=2, angle=None, length=None)
        add(nm, cls, 2, None, None)
    # strata
    for uw in (0, 0.99, 50.01, 51, neg, bad, 1000):
        add("Material", Material, unit_weight=uw)
    for phi in (-0.001, neg, bad):
        add("Material", Material, friction_angle=phi)
    add("Material", Material, cohesion=bad)
    add("Material", Material, depth_to_bottom=bad)
    old = r.choice(spec["materials"])
    dup = mk_material(gen.material(r, old["d"]))
    fresh = [mk_material(m) for m in gen.materials(r, h, 2)]
    deep = mk_material(gen.material(r, round(g.tot_h * r.uniform(1.2, 3), 2)))
    taken = {m["d"] for m in spec["materials"]}
    fresh = [m for m in fresh if m.depth_to_bottom not in taken]
    add("set_materials", s.set_materials, dup)
    add("set_materials", s.set_materials, *fresh, dup)
    add("set_materials", s.set_materials, deep, dup)
    add("set_materials", s.set_materials, dup, deep)
    add("set_materials", s.set_materials, deep, mk_material(gen.material(r, deep.depth_to_bottom)))
    add("set_materials", s.set_materials, mk_material(gen.material(r, -old["d"])))
    for x in (None, "sand", 3, Udl(5), Material):
        add("set_materials", s.set_materials, x)
        add("set_materials", s.set_materials, deep, x)
    # loads
    add("Udl", Udl, magnitude=bad)
    add("Udl", Udl, magnitude=1, offset=bad)
    if bad:
        add("Udl", Udl, magnitude=1, length=bad)
    add("LineLoad", LineLoad, magnitude=bad)
    add("LineLoad", LineLoad, magnitude=1, offset=bad)
    # water
    add("set_water_table", s.set_water_table, neg)
    add("set_water_table", s.set_water_table, bad)
    add("update_water_analysis_options", s.update_water_analysis_options, auto=False, H=bad)
    # extents
    for x in (bad, 0, 0.0):
        add("update_boundary_options", s.update_boundary_options, MIN_EXT_L=x)
        add("update_boundary_options", s.update_boundary_options, MIN_EXT_H=x)
    big = round(g.tot_l * 1.5, 2)
    add("update_boundary_options", s.update_boundary_options, MIN_EXT_L=neg)
    add("update_boundary_options", s.update_boundary_options, MIN_EXT_H=neg)
    add("update_boundary_options", s.update_boundary_options, MIN_EXT_L=big, MIN_EXT_H=neg)
    add("update_boundary_options", s.update_boundary_options, MIN_EXT_L=neg, MIN_EXT_H=big)
    # limits
    lim = spec["limits"] or [0, g.crest, g.crest, g.tot_l]
    x1, x2, x3, x4 = lim
    L = s.set_analysis_limits
    n = "set_analysis_limits"
    for key in ("left_x", "left_x_right", "right_x_left", "right_x"):
        add(n, L, **{key: neg})
        add(n, L, **{key: bad})
    for key in ("left_x_right", "right_x_left", "right_x"):
        add(n, L, **{key: 0})
    add(n, L, left_x=x2)
    add(n, L, left_x=x2 + r.uniform(0, 5))
    if x1 > 0:
        add(n, L, left_x_right=x1)
        add(n, L, left_x_right=x1 * r.uniform(0.1, 1))
    add(n, L, right_x_left=x4)
    add(n, L, right_x_left=x4 + r.uniform(0, 5))
    add(n, L, right_x=g.crest * r.uniform(0.1, 1))
    if x3 > g.crest + 0.1:
        add(n, L, right_x=x3)
        add(n, L, right_x=g.crest + (x3 - g.crest) * r.uniform(0.1, 1))
    a, b = sorted([g.crest * r.uniform(0.05, 0.9), g.crest * r.uniform(0.05, 0.9)])
    c, d = sorted([r.uniform(g.crest + 0.01, g.tot_l), r.uniform(g.crest + 0.01, g.tot_l)])
    add(n, L, left_x=b, left_x_right=a, right_x_left=c, right_x=d)
    add(n, L, left_x=a, left_x_right=b, right_x_left=d, right_x=c)
    add(n, L, left_x=a, left_x_right=b, right_x_left=c, right_x=c)
    add(n, L, left_x=a, left_x_right=a, right_x_left=c, right_x=d)
    add(n, L, left_x=a, left_x_right=b, right_x_left=c, right_x=neg)
    add(n, L, left_x=a, left_x_right=b, right_x=bad)
    return out


@register
class C10:
    id = "C10"
    pristine = True
    cases = dict(quick=480, thorough=9000)
    rule = (
        "One case is an analysed random slope on which 25 random invalid calls "
        "are made; each must raise ValueError, and afterwards existing "
        "results, plots, limits and a new analysis must be as before. "
        "Non-trivial: an invalid call; distinct by call and model."
    )
    minimum = dict(invalid=4000, unchanged=300)

    @staticmethod
    def case(r, obs, tier, index):
        spec = quick_spec(r, limits=r.random() < 0.4)
        planes = []
        g = ref.Geo(spec)
        if r.random() < 0.3:
            planes = [model(g, c) for c in circles(r, g, 2)]
        s = drive.build(spec, planes)
        analysed = r.random() < 0.8
        if analysed:
            s.analyse_slope()
        res = [dict(x) for x in drive.results(s)]
        calls = invalid_calls(r, spec, s)
        figs = drive.canon(s.plot_boundary(material_table=False))
        names = []
        for name, call in r.sample(calls, 25):
            names.append(name)
            w = dict(spec=spec, calls=names)
            obs.count("invalid")
            obs.seen(name, spec["h"])
            try:
                call()
            except ValueError:
                pass
            except Exception as e:
                raise Violation(
                    f"{name} raised {type(e).__name__} ({e}) instead of ValueError", **w
                )
            else:
                raise Violation(f"{name} was accepted", **w)
            now = drive.results(s)
            if len(now) != len(res) or any(
                drive.diff(_plain(a), _plain(b)) for a, b in zip(now[:3], res)
            ):
                raise Violation(f"results changed by rejected {name}", **w)
        w = dict(spec=spec, calls=names)
        obs.sample = names[:8] if index < 3 else None
        d = drive.diff(figs, drive.canon(s.plot_boundary(material_table=False)))
        if d:
            raise Violation(f"model plot changed by rejected calls: {d}", **w)
        drive.same_results(drive.results(s), res, "results after rejected calls", rel=0, **w)
        t = drive.build(spec, planes)
        t.analyse_slope()
        s.analyse_slope()
        drive.same_results(
            drive.results(s), Frozen(spec, planes, crit=False)._search,
            "analysis after rejected calls", **w
        )
        drive.same_results(
            drive.results(s), drive.results(t),
            "analysis after rejected calls against another slope", **w
        )
        # later calls behave as if nothing had happened
        k = r.choice(["boundary", "material", "limits"])
        for o in (s, t):
            if k == "boundary":
                o.set_external_boundary(height=spec["h"] * 1.3, angle=37)
            elif k == "material":
                o.set_materials(Material(depth_to_bottom=0.0371, cohesion=7))
            else:
                o.set_analysis_limits(left_x=g.crest * 0.01) if spec["limits"] is None else o.remove_analysis_limits()
            o.analyse_slope()
        drive.same_results(
            drive.results(s), drive.results(t), f"later {k} after rejected calls", **w
        )
        d = drive.diff(
            drive.canon(s.plot_boundary(material_table=False)),
            drive.canon(t.plot_boundary(material_table=False)),
        )
        if d:
            raise Violation(f"later {k} after rejected calls: plot {d}", **w)
        obs.count("unchanged")


def _plain(x):
    return {k: _list(v) for k, v in x.items()}


# --------------------------------------------------------------------------- C11
def build_steps(r, spec, pools=None):
    """closures taking a slope; with pools, objects of equal value are shared"""

    def obj(kind, mk, d):
        if pools is None:
            return mk(d)
        k = (kind, repr(sorted(d.items(), key=str)))
        if k not in pools:
            pools[k] = mk(d)
        return pools[k]

    steps = [
        lambda s: drive.set_extents(s, spec),
    ]
    ms = list(spec["materials"])
    us, ps = list(spec["udls"]), list(spec["lls"])
    steps.append(lambda s: s.set_materials(*[obj("m", mk_material, m) for m in ms]))
    for u in us:
        steps.append(lambda s, u=u: s.set_udls(obj("u", mk_udl, u)))
    for p in ps:
        steps.append(lambda s, p=p: s.set_lls(obj("p", mk_ll, p)))
    if spec["water"] is not None:
        steps.append(lambda s: s.set_water_table(spec["water"]))
    steps.append(lambda s: drive.set_water_factor(s, spec))
    steps.append(lambda s: drive.set_options(s, spec))
    steps.append(lambda s: drive.set_limits(s, spec))
    return steps


def variant(r, spec):
    """the same model but for one value"""
    v = copy.deepcopy(spec)
    v["limits"] = None
    g = ref.Geo(spec)
    k = r.choice(["h", "L", "uw", "phi", "c", "d", "q", "P", "off", "water", "H",
                  "slices", "tol", "ext_L", "ext_H"])
    f = r.choice([0.8, 1.25, 0.5, 1.1])
    m = r.choice(v["materials"])
    if k == "h":
        v.update(h=round(spec["h"] * f, 3), length=g.L, angle=None)
    elif k == "L":
        v.update(length=g.L * f, angle=None)
    elif k == "uw":
        m["uw"] = 10 if m["uw"] > 20 else 25
    elif k == "phi":
        m["phi"] = m["phi"] + 5
    elif k == "c":
        m["c"] = m["c"] * 1.5 + 1
    elif k == "d":
        d = round(m["d"] * 1.01 + 0.05, 3)
        if all(abs(d - x["d"]) > 1e-3 for x in v["materials"]):
            m["d"] = d
    elif k in ("q", "P", "off") and (v["udls"] or v["lls"]):
        ld = r.choice(v["udls"] + v["lls"])
        if k == "off":
            ld["off"] = round(ld["off"] * 0.9, 3)
        else:
            n = "q" if "q" in ld else "P"
            ld[n] = round(ld[n] * 1.3, 3)
    elif k == "water":
        v["water"] = round(spec["h"] * 0.37, 3) if spec["water"] is None else None
    elif k == "H":
        v["H"] = 0.77 if spec["H"] is None else None
    elif k == "slices":
        v["slices"] = spec["slices"] + 7
    elif k == "tol":
        v.update(tol=1e-8, maxit=60)
    elif k == "ext_L":
        v["ext_L"] = round(g.tot_l * 1.2, 2)
    elif k == "ext_H":
        v["ext_H"] = round(g.tot_h * 1.2, 2)
    return v


def roomy(r, spec):
    """extents that changes of the geometry stay within"""
    g = ref.Geo(spec)
    spec["ext_L"] = round(g.tot_l * r.uniform(1.3, 2), 1)
    spec["ext_H"] = round(g.tot_h * r.uniform(1.3, 2), 1)


def siblings(r, specs):
    """make some of the models near copies of the first, with the same
    surfaces; returns the individual surfaces of each"""
    planes = [[] for _ in specs]
    if r.random() < 0.5:
        specs[0]["limits"] = None
        if r.random() < 0.7:
            roomy(r, specs[0])
        for i in range(1, len(specs)):
            if r.random() < 0.8:
                specs[i] = variant(r, specs[0])
        if r.random() < 0.7:
            g = ref.Geo(specs[0])
            cs = [model(g, c) for c in circles(r, g, r.randint(1, 5))]
            for i, sp in enumerate(specs):
                planes[i] = [c for c in cs if cuts(sp, c)]
    return planes


def cuts(spec, c):
    """the circle (model coordinates) can be added to this model"""
    s = drive.build(spec, [c])
    s.analyse_slope()
    return bool(drive.find(drive.results(s), c))


@register
class C11:
    id = "C11"
    pristine = True
    cases = dict(quick=256, thorough=6000)
    rule = (
        "One case is 2-4 slopes in one process: built in interleaved steps "
        "from shared material and load objects, analysed, plotted and changed "
        "in turns; or built, analysed and plotted in parallel threads with a "
        "1 microsecond switch interval. Every report is compared with that of "
        "the same slope alone. Non-trivial: a comparison; distinct by model "
        "and interleaving."
    )
    minimum = dict(sequential=150, threads=100, shared_objects=100, switches=500)
    maxtasks = 50

    @staticmethod
    def case(r, obs, tier, index):
        if r.random() < 0.55:
            C11.sequential(r, obs, index)
        else:
            C11.threaded(r, obs, index)

    @staticmethod
    def sequential(r, obs, index):
        n = r.choice([2, 2, 3, 4])
        specs = [quick_spec(r, limits=r.random() < 0.2) for _ in range(n)]
        # common strata and loads, at the same offset and depth in all
        for i in range(1, n):
            if r.random() < 0.7:
                specs[i]["materials"] = [dict(m) for m in specs[0]["materials"]]
                if r.random() < 0.5:
                    m = specs[i]["materials"]
                    specs[i]["materials"] = [
                        m[j] for j in sorted(r.sample(range(len(m)), r.randint(1, len(m))))
                    ]
            if r.random() < 0.7:
                specs[i]["udls"] = [dict(u) for u in specs[0]["udls"]]
            if r.random() < 0.7:
                specs[i]["lls"] = [dict(u) for u in specs[0]["lls"]]
            specs[i]["limits"] = None
        planes = siblings(r, specs)
        pools = {}
        todo = []
        slopes = [None] * n
        for i, sp in enumerate(specs):
            todo.append(
                [("new", lambda i=i, sp=sp: drive.new_slope(sp))]
                + [("step", st) for st in build_steps(r, sp, pools)]
                + [("step", lambda s, c=c: s.add_single_circular_plane(*c))
                   for c in planes[i]]
                + [("read", None)] * r.choice([1, 2, 3])
            )
        order = []
        reports = []
        while any(todo):
            i = r.choice([k for k in range(n) if todo[k]])
            kind, f = todo[i].pop(0)
            order.append((i, kind))
            if kind == "new":
                slopes[i] = f()
            elif kind == "step":
                f(slopes[i])
            else:
                s = slopes[i]
                s.analyse_slope()
                k = None
                # let another one act between analysis and reading
                others = [j for j in range(n) if j != i and slopes[j] is not None]
                if others and r.random() < 0.5:
                    j = r.choice(others)
                    slopes[j].analyse_slope()
                    if r.random() < 0.5:
                        slopes[j].plot_boundary(material_table=False)
                fig = None
                if r.random() < 0.4:
                    fig = (
                        s.plot_critical(material_table=False)
                        if drive.results(s)
                        else s.plot_boundary(material_table=False)
                    )
                reports.append((i, [dict(x) for x in drive.results(s)], fig))
        obs.count("switches", sum(a[0] != b[0] for a, b in zip(order, order[1:])))
        if len(pools) < sum(
            len(sp["materials"]) + len(sp["udls"]) + len(sp["lls"]) for sp in specs
        ):
            obs.count("shared_objects")
        obs.seen(tuple(order), specs[0]["h"])
        obs.sample = dict(order=order, specs=specs) if index < 2 else None
        alone = {}
        for i, res, fig in reports:
            w = dict(specs=specs, order=order)
            if i not in alone:
                alone[i] = Frozen(specs[i], planes[i])
            t = alone[i]
            obs.count("sequential")
            drive.same_results(
                res, drive.results(t), f"slope {i} of {n} against the same alone", **w
            )
            if fig is not None and not tie(res):
                f2 = (
                    t.plot_critical(material_table=False) if res
                    else t.plot_boundary(material_table=False)
                )
                drive.same_figure(
                    fig, f2, f"plot of slope {i} of {n} against the same alone", **w
                )

    @staticmethod
    def threaded(r, obs, index):
        import sys

        n = r.choice([2, 3, 4])
        specs = [quick_spec(r, limits=r.random() < 0.2) for _ in range(n)]
        if r.random() < 0.3:
            specs[1] = dict(specs[0], slices=specs[0]["slices"] + 3)
        planes = siblings(r, specs)
        obs.sample = dict(threads=specs) if index < 4 else None
        out = [None] * n
        go = threading.Barrier(n)

        def work(i):
            go.wait()
            try:
                s = drive.build(specs[i], planes[i])
                s.analyse_slope()
                res = [dict(x) for x in drive.results(s)]
                fig = (
                    s.plot_critical(material_table=False)
                    if res else s.plot_boundary(material_table=False)
                )
                out[i] = (res, fig, s.get_min_FOS() if res else None)
            except Exception as e:
                out[i] = e

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        for i in range(n):
            w = dict(specs=specs, thread=i)
            if isinstance(out[i], Exception):
                raise Violation(
                    f"analysis in parallel failed: {type(out[i]).__name__} {out[i]}", **w
                )
            t = Frozen(specs[i], planes[i])
            res, fig, low = out[i]
            obs.count("threads")
            obs.seen(specs[i]["h"], len(res), low)
            drive.same_results(
                res, drive.results(t), "analysed in parallel against alone", rel=0, **w
            )
            f2 = (
                t.plot_critical(material_table=False) if res
                else t.plot_boundary(material_table=False)
            )
            drive.same_figure(fig, f2, "plotted in parallel against alone", **w)


# --------------------------------------------------------------------------- C12
def public(o):
    """entered values of a material or load"""
    names = {
        Material: ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name"),
        Udl: ("magnitude", "offset", "length", "color", "dynamic_offset"),
        LineLoad: ("magnitude", "offset", "color", "dynamic_offset"),
    }[type(o)]
    return {n: getattr(o, n) for n in names}


CHILD = """
import sys, json
sys.path[:0] = [sys.argv[1]]
import os
from vlib import core, drive
spec = json.load(sys.stdin)
s = drive.build(spec)
s.analyse_slope()
print(json.dumps([[x["c_x"], x["c_y"], x["radius"], x["FOS"]] for x in drive.results(s)]))
"""


@register
class C12:
    id = "C12"
    pristine = True
    cases = dict(quick=224, thorough=6000)
    rule = (
        "One case is an analysed random slope on which 3-8 random readers "
        "(getters, plots with random options, repeated analyses) are called; "
        "results, plots and the entered objects must be bit-identical "
        "throughout, to an identically built slope, and (some cases) to one "
        "in a new process with another hash seed. Non-trivial: a reader "
        "call; distinct by call sequence and model."
    )
    minimum = dict(reads=1000, repeated=300, processes=8)

    @staticmethod
    def case(r, obs, tier, index):
        spec = quick_spec(r, limits=r.random() < 0.3)
        g = ref.Geo(spec)
        planes = []
        if r.random() < 0.3:
            planes = [model(g, c) for c in circles(r, g, r.randint(1, 4))]
        s = drive.new_slope(spec)
        drive.set_extents(s, spec)
        objs = [mk_material(m) for m in spec["materials"]]
        us = [mk_udl(u) for u in spec["udls"]]
        ps = [mk_ll(p) for p in spec["lls"]]
        before_objs = [public(o) for o in objs + us + ps]
        s.set_materials(*objs)
        s.set_udls(*us)
        s.set_lls(*ps)
        if spec["water"] is not None:
            s.set_water_table(spec["water"])
        drive.set_water_factor(s, spec)
        drive.set_options(s, spec)
        drive.set_limits(s, spec)
        for c in planes:
            s.add_single_circular_plane(*c)
        empty = drive.canon(s.plot_boundary(material_table=False))
        s.analyse_slope()
        res = copy.deepcopy(drive.results(s))
        if not res:
            raise Skip("no surface with a factor")
        first = {}
        log = []
        xs = [r.uniform(0, g.tot_l) for _ in range(3)]
        for _ in range(r.randint(3, 8)):
            k = r.choice([
                "plot_boundary", "plot_critical", "plot_all_planes", "getters",
                "coords", "analyse", "bounded", "dynamic_results",
            ])
            w = dict(spec=spec, planes=planes, calls=log)
            obs.count("reads")
            if k == "getters":
                v = [s.get_min_FOS(), _list(s.get_min_FOS_circle()), _list(s.get_min_FOS_end_points())]
            elif k == "coords":
                v = [
                    _list(s.get_top_coordinates()), _list(s.get_bottom_coordinates()),
                    [s.get_external_y_intersection(x) for x in xs],
                    [s.get_external_x_intersection(x / 3) for x in xs],
                ]
            elif k == "analyse":
                s.analyse_slope()
                v = None
                obs.count("repeated")
            elif k == "bounded":
                s.analyse_slope(max_fos=r.choice(res)["FOS"])
                s.analyse_slope()
                v = None
                obs.count("repeated", 2)
            elif k == "dynamic_results":
                v = dict(s.get_dynamic_results())
            else:
                kw = dict(material_table=r.random() < 0.3, legend=r.random() < 0.3)
                if k == "plot_all_planes":
                    kw["max_fos"] = r.choice([0.5, 1, 2, 5, None]) if len(res) < 100 else r.choice([
                        0.5, res[min(len(res) - 1, 20)]["FOS"],
                    ])
                v = drive.figure(getattr(s, k)(**kw))
                k = (k, tuple(sorted(kw.items(), key=str)))
            log.append(k)
            if v is not None:
                if k in first:
                    if first[k] != v:
                        raise Violation(
                            f"{k} returned something else the second time: "
                            f"{drive.diff(first[k], v, tol=0)}", **w
                        )
                else:
                    first[k] = v
            now = drive.results(s)
            if now != res:
                raise Violation(f"results changed by {k}", **w)
        obs.seen(spec["h"], tuple(log))
        obs.sample = log if index < 3 else None
        w = dict(spec=spec, planes=planes, calls=log)
        if [public(o) for o in objs + us + ps] != before_objs:
            raise Violation(
                f"entered objects changed: {before_objs} -> "
                f"{[public(o) for o in objs + us + ps]}", **w
            )
        again = drive.canon(s.plot_boundary(material_table=False))
        d = drive.diff(empty, again, tol=0)
        if d:
            raise Violation(f"model changed by reading: {d}", **w)
        s.analyse_slope()
        drive.same_results(drive.results(s), res, "analysed again", rel=0, **w)
        if drive.results(s) != res:
            raise Violation("order of results differs when analysed again", **w)
        t = Frozen(spec, planes, crit=False)
        obs.count("repeated", 2)
        if drive.results(t) != res:
            drive.same_results(drive.results(t), res, "identically built", rel=0, **w)
            raise Violation("order of results differs when built again", **w)
        if index % 16 == 0 and not planes:
            import json
            import os
            import subprocess
            import sys

            from ..core import VERIF

            p = subprocess.run(
                [sys.executable, "-c", CHILD, VERIF], input=json.dumps(spec),
                capture_output=True, text=True, timeout=100,
                env=dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 10**6))),
            )
            if p.returncode:
                raise RuntimeError(p.stderr[-500:])
            obs.count("processes")
            got = json.loads(p.stdout.strip().splitlines()[-1])
            want = [[x["c_x"], x["c_y"], x["radius"], x["FOS"]] for x in res]
            if got != want:
                raise Violation("another process gives other results", **w)
