"""C18 - C20: the web application."""
import json
import math
import re
import sys
import threading

from . import register
from .plots import color_ok
from .. import drive, gen, ref, web
from ..core import Violation, Skip
from ..drive import Slope, Material
from pyslope.pyslope import COLOUR_FOS_DICT

BASE = {
    "slope-height": "1", "slope-angle": "45", "slope-length": "1",
    "watertable-water_depth": "1", "limits-left_x": "0",
    "limits-right_x": "8", "limits-left_x_right": "4",
    "limits-right_x_left": "6", "options-analysis_choice": "normal",
    "options-slope_choice": "length", "options-critical_FOS": "1.5",
    "options-max_display_FOS": "2.0", "options-iterations": "500",
    "options-slices": "25",
}


def text(r, v):
    """a number as a visitor might type it"""
    if v is None:
        v = 0
    s = repr(v)
    k = r.random()
    if k < 0.1 and float(v) == int(v):
        s = str(int(v))
    elif k < 0.15:
        s = f" {s} "
    elif k < 0.2:
        s = f"{v:.12e}" if float(f"{v:.12e}") == v else s
    elif k < 0.25 and v == int(v):
        s = f"{int(v)}."
    elif k < 0.3:
        s = "0" + s if not s.startswith("-") else s
    return s


def rows(prefix, n):
    return {
        f"{prefix}-TOTAL_FORMS": str(n), f"{prefix}-INITIAL_FORMS": "0",
        f"{prefix}-MIN_NUM_FORMS": "0", f"{prefix}-MAX_NUM_FORMS": "1000",
    }


DEF_MAT = dict(uw=20, phi=35, c=2, d=5, name="", color="")
DEF_UDL = dict(q=0, off=0, len=0, color="red", dyn=False)
DEF_LL = dict(P=0, off=0, color="blue", dyn=False)


def submission(r, heavy=False):
    """(form, entered): what is typed and what it stands for"""
    spec = gen.spec(r, limits=False)
    h = spec["h"]
    e = dict(h=h, angle=spec["angle"] or gen.num(r, 12, 90, gen.NICE_A))
    e["length"] = spec["length"] if spec["length"] is not None else gen.num(
        r, 0.3 * h, 4 * h, [1, 2, 3, 5])
    e["by"] = "angle" if spec["length"] is None else "length"
    e["mats"] = [dict(m, color=r.choice(["", "", "green", "#1a2b3c", "pink", "nocolor"])) for m in spec["materials"]]
    if r.random() < 0.15:
        e["mats"][r.randrange(len(e["mats"]))] = dict(DEF_MAT)
    if r.random() < 0.5:
        r.shuffle(e["mats"])
    for m in e["mats"]:
        if r.random() < 0.1:
            m["c"], m["d"] = -m["c"], -m["d"]
    e["udls"] = [dict(u, color=r.choice(["red", "green", "", "zzz"])) for u in spec["udls"]]
    e["lls"] = [dict(p, color=r.choice(["blue", "green", "", "zzz"])) for p in spec["lls"]]
    dynamic = r.random() < 0.3
    for x in e["udls"] + e["lls"]:
        x["dyn"] = r.random() < (0.7 if dynamic else 0.2)
    if not e["udls"] or r.random() < 0.2:
        e["udls"].append(dict(DEF_UDL))
    if not e["lls"] or r.random() < 0.2:
        e["lls"].append(dict(DEF_LL))
    if r.random() < 0.05:
        e["udls"] = []
    if r.random() < 0.05:
        e["lls"] = []
    e["water"] = gen.num(r, 0, 2 * h, [0, h, h / 2, 1, 2])
    if r.random() < 0.1:
        e["water"] = 100.0
    e["use_water"] = r.random() < 0.5
    # the ground as entered, to place limits
    g0 = Slope(height=h, length=e["length"]) if e["by"] == "length" else Slope(
        height=h, angle=e["angle"])
    seen = set()
    for m in list(e["mats"]):
        if abs(m["d"]) in seen:
            if r.random() < 0.8:
                e["mats"] = [x for x in e["mats"] if x is not m]
            continue
        seen.add(abs(m["d"]))
        g0.set_materials(drive.mk_material(m))
    g0.set_udls(*[drive.mk_udl(u) for u in e["udls"]])
    g0.set_lls(*[drive.mk_ll(p) for p in e["lls"]])
    ext = dict(spec, angle=e["angle"] if e["by"] == "angle" else None,
               length=e["length"] if e["by"] == "length" else None,
               ext_L=g0._external_length, ext_H=g0.get_top_coordinates()[1])
    e["limits"] = gen.gen_limits(r, ext)
    if r.random() < 0.2:
        # out of order or out of the model, perhaps
        i = r.randrange(4)
        v = r.choice([0, 0.5, 5, 1000, *e["limits"]])
        e["limits"][i] = float(round(v + r.choice([0, 0, 0.25]), 3))
    e["use_limits"] = r.random() < 0.4
    e["internal"] = r.random() < 0.5
    e["dynamic"] = dynamic
    e["target"] = r.choice([round(r.uniform(0.1, 5), 1), round(r.uniform(0.5, 3), 3), 1.5])
    e["iterations"] = r.choice([500, 500, 750, 1000, 777]) if not heavy else r.choice([2500, 5000])
    e["slices"] = r.choice([10, 11, 15, 25, 50])
    e["display"] = round(r.uniform(0.1, 5), 1)
    return form_of(r, e), e


def form_of(r, e):
    f = {
        "slope-height": text(r, e["h"]), "slope-angle": text(r, e["angle"]),
        "slope-length": text(r, e["length"]),
        "watertable-water_depth": text(r, e["water"]),
        "limits-left_x": text(r, e["limits"][0]),
        "limits-left_x_right": text(r, e["limits"][1]),
        "limits-right_x_left": text(r, e["limits"][2]),
        "limits-right_x": text(r, e["limits"][3]),
        "options-analysis_choice": "dynamic" if e["dynamic"] else "normal",
        "options-slope_choice": e["by"],
        "options-critical_FOS": str(e["target"]),
        "options-max_display_FOS": str(e["display"]),
        "options-iterations": str(e["iterations"]),
        "options-slices": str(e["slices"]),
    }
    if e["use_water"]:
        f["watertable-consider_water"] = "on"
    if e["use_limits"]:
        f["limits-consider_limits"] = "on"
    if e["internal"]:
        f["limits-consider_internal_limits"] = "on"
    f.update(rows("material", len(e["mats"])))
    f.update(rows("udl", len(e["udls"])))
    f.update(rows("lineload", len(e["lls"])))
    hidden = r.random() < 0.7
    for i, m in enumerate(e["mats"]):
        p = f"material-{i}-"
        f.update({
            p + "unit_weight": text(r, m["uw"]),
            p + "friction_angle": text(r, m["phi"]),
            p + "cohesion": text(r, m["c"]),
            p + "depth_to_bottom": text(r, m["d"]),
            p + "name": m["name"], p + "color": m["color"],
        })
        if m == DEF_MAT:
            f.update({p + "unit_weight": "20", p + "friction_angle": "35",
                      p + "cohesion": "2", p + "depth_to_bottom": "5"})
        if hidden:
            f[p + "id"] = ""
    for i, u in enumerate(e["udls"]):
        p = f"udl-{i}-"
        f.update({
            p + "magnitude": text(r, u["q"]), p + "offset": text(r, u["off"]),
            p + "length": text(r, u["len"]), p + "color": u["color"],
        })
        if u["dyn"]:
            f[p + "dynamic_offset"] = "on"
        if hidden:
            f[p + "id"] = ""
    for i, q in enumerate(e["lls"]):
        p = f"lineload-{i}-"
        f.update({
            p + "magnitude": text(r, q["P"]), p + "offset": text(r, q["off"]),
            p + "color": q["color"],
        })
        if q["dyn"]:
            f[p + "dynamic_offset"] = "on"
        if hidden:
            f[p + "id"] = ""
    return f


def digit(r, v):
    """v with one of its digits changed"""
    s = repr(v)
    at = [i for i, c in enumerate(s) if c in "123456789"]
    if not at or "e" in s:
        return v
    i = r.choice(at)
    t = s[:i] + r.choice([c for c in "123456789" if c != s[i]]) + s[i + 1:]
    return type(v)(t)


def vary(r, form, e):
    """a submission that differs in one value, if possible of equal length"""
    e = dict(e, mats=[dict(m) for m in e["mats"]], udls=[dict(u) for u in e["udls"]],
             lls=[dict(p) for p in e["lls"]], limits=list(e["limits"]))
    k = r.random()
    form = dict(form)
    if k < 0.5:
        i = r.randrange(len(e["mats"]))
        key, name = r.choice([
            ("phi", "friction_angle"), ("c", "cohesion"), ("c", "cohesion"),
            ("uw", "unit_weight"), ("d", "depth_to_bottom")])
        x, name = e["mats"][i], f"material-{i}-{name}"
        top = dict(phi=89, c=1e9, uw=50, d=1e9)[key]
    elif k < 0.65 and e["udls"]:
        i = r.randrange(len(e["udls"]))
        key, name = r.choice([("q", "magnitude"), ("off", "offset"), ("len", "length")])
        x, name, top = e["udls"][i], f"udl-{i}-{name}", 1e9
    elif k < 0.8 and e["lls"]:
        i = r.randrange(len(e["lls"]))
        key, name = r.choice([("P", "magnitude"), ("off", "offset")])
        x, name, top = e["lls"][i], f"lineload-{i}-{name}", 1e9
    elif k < 0.9:
        x, key, name, top = e, "water", "watertable-water_depth", 1e9
    else:
        key = e["by"]
        x, name, top = e, f"slope-{e['by']}", 90
    if x[key] is None:
        return form, e
    v = digit(r, x[key])
    if not 0 < v <= top or (key == "angle" and v < 3):
        return form, e
    x[key] = v
    form[name] = repr(v)
    return form, e


def library(e):
    """the same analysis with the library; None if it can not be done"""
    try:
        if e["by"] == "length":
            s = Slope(height=float(e["h"]), length=float(e["length"]))
        else:
            s = Slope(height=float(e["h"]), angle=float(e["angle"]))
        s.set_materials(*[drive.mk_material(m) for m in e["mats"]])
        s.set_udls(*[drive.mk_udl(u) for u in e["udls"]])
        s.set_lls(*[drive.mk_ll(p) for p in e["lls"]])
        if e["use_water"]:
            s.set_water_table(float(e["water"]))
        s.update_analysis_options(
            slices=e["slices"], iterations=e["iterations"])
        if e["use_limits"]:
            a, b, c, d = e["limits"]
            if e["internal"]:
                s.set_analysis_limits(
                    left_x=a, left_x_right=b, right_x_left=c, right_x=d)
            else:
                s.set_analysis_limits(left_x=a, right_x=d)
        if e["dynamic"]:
            try:
                s.analyse_dynamic(float(e["target"]))
            except Exception:
                s.analyse_slope(max_fos=5)
        else:
            s.analyse_slope(max_fos=5)
            if not drive.results(s):
                s.analyse_slope()
    except ValueError:
        return None
    if not drive.results(s):
        return None
    return s


def expected(s):
    """(surfaces, plot) of an analysed slope"""
    fig = s.plot_critical(material_table=True, legend=True)
    return list(drive.results(s)), drive.figure(fig)


def plain(fig):
    """a copy with numbers in labels written in one way"""
    return json.loads(re.sub(r"(\d)\.0(?![\d.])", r"\1", json.dumps(fig)))


def same_page(p, exp, what, **w):
    res, plot = exp
    got = p.search
    drive.same_results(got, res, f"{what}: surfaces", **w)
    if any(a["FOS"] > b["FOS"] for a, b in zip(got, got[1:])):
        raise Violation(f"{what}: surfaces not in order of factor", **w)
    a = p.plot
    for f in (a, plot):
        for k in ("autosize", "width", "height"):
            f["layout"].pop(k, None)
    tie = len(res) > 1 and res[1]["FOS"] - res[0]["FOS"] < 1e-9
    if not tie:
        drive.same_figure(plain(a), plain(plot), f"{what}: plot", **w)
    for s in got:
        curve(s["x"], s["y"], s, what, **w)


def curve(x, y, s, what, **w):
    """drawn points follow the surface from end to end"""
    if len(x) != len(y) or len(x) < 2:
        raise Violation(f"{what}: {len(x)} x and {len(y)} y points", **w)
    ends = [x[0], y[0], x[-1], y[-1]]
    want = [*s["l_c"], *s["r_c"]]
    if any(abs(a - b) > 1e-6 for a, b in zip(ends, want)):
        raise Violation(f"{what}: ends {ends}, surface ends {want}", **w)
    R = s["radius"]
    tol = 2e-3 + 1e-6 * R
    for a, b in zip(x, y):
        d = math.hypot(a - s["c_x"], b - s["c_y"])
        if abs(d - R) > tol:
            raise Violation(
                f"{what}: point {(a, b)} at {d} from the centre of a surface "
                f"of radius {R}", **w)
        # x is rounded to mm: near vertical a point too many may be drawn
        if b > s["l_c"][1] + tol + 0.04 * R:
            raise Violation(f"{what}: point {(a, b)} above the ground", **w)
    for a, b in zip(x, x[1:]):
        if b < a - 1e-3:
            raise Violation(f"{what}: drawn backwards {a} to {b}", **w)
    # every stretch of the arc is drawn: consecutive points at most 2.1
    # degrees of the circle apart (ends fall in between)
    for (a, b), (c, d) in zip(zip(x, y), zip(x[1:], y[1:])):
        if math.hypot(a - c, b - d) > R * math.radians(4.3) + 2e-3:
            raise Violation(f"{what}: gap from {(a, b)} to {(c, d)}", **w)


class Web:
    limit = 240

    @staticmethod
    def setup():
        web.prepare()

    @staticmethod
    def teardown():
        web.cleanup()


@register
class C18(Web):
    id = "C18"
    cases = dict(quick=240, thorough=6000)
    rule = (
        "One case is a form submission (1-8 material rows, loads, water, "
        "limits, options, typed in various ways) sent to the real web "
        "application; the surfaces and the plot in its response are compared "
        "with the library used directly. Non-trivial: an analysed submission; "
        "distinct by its contents."
    )
    minimum = dict(
        pages=150, surfaces=20000, dynamic=30, water=60, limits=40, many_rows=80,
        by_length=40, by_angle=80,
    )

    @staticmethod
    def case(r, obs, tier, index):
        form, e = submission(r, heavy=tier == "thorough" and r.random() < 0.05)
        w = dict(form=form)
        s = library(e)
        c = web.client()
        resp = c.post("/", form)
        obs.count("requests")
        if s is None:
            if resp.status_code != 302 or resp["Location"] != "/reset":
                raise Violation(
                    f"status {resp.status_code} for a model that can not be "
                    "analysed", **w)
            obs.count("rejected")
            return
        if resp.status_code == 302:
            raise Violation("valid form sent back to the default page", **w)
        p = web.page(resp, "response", **w)
        obs.count("pages")
        obs.seen(repr(sorted(form.items())))
        obs.sample = dict(form=form, fos=p.search[0]["FOS"] if p.search else None)
        exp = expected(s)
        same_page(p, exp, "response", **w)
        obs.count("surfaces", len(exp[0]))
        for k, v in dict(
            dynamic=e["dynamic"], water=e["use_water"],
            limits=e["use_limits"], many_rows=len(e["mats"]) > 1,
            by_length=e["by"] == "length", by_angle=e["by"] == "angle",
        ).items():
            if v:
                obs.count(k)
        if r.random() < 0.2:
            # inputs that are switched off have no effect
            f = dict(form)
            off = []
            if not e["use_water"]:
                f["watertable-water_depth"] = "0.123"
                off.append("water")
            if not e["use_limits"]:
                f["limits-left_x"], f["limits-right_x"] = "9999", "-3"
                f["limits-consider_internal_limits"] = "on"
                off.append("limits")
            elif not e["internal"]:
                f["limits-left_x_right"] = "-5"
                f["limits-right_x_left"] = "12345"
                off.append("internal limits")
            f["slope-angle" if e["by"] == "length" else "slope-length"] = "77"
            f["options-max_display_FOS"] = "3.3"
            if not e["dynamic"]:
                f["options-critical_FOS"] = "4.4"
            q = web.page(web.client().post("/", f), f"{off} varied", **w)
            same_page(q, expected(s), f"{off} varied while off", **w)
            obs.count("off")


def default_slope():
    s = Slope(angle=45)
    s.set_materials(Material())
    s.update_analysis_options(iterations=500, slices=10)
    s.analyse_slope(max_fos=5)
    return s


def default_expected():
    if not hasattr(default_expected, "v"):
        s = default_slope()
        default_expected.v = (
            list(drive.results(s)), json.dumps(drive.figure(s.plot_critical())))
    return default_expected.v[0], json.loads(default_expected.v[1])


def same_form(p, form, what, **w):
    """the page shows the values of a submitted form"""
    for k, v in form.items():
        if k.endswith("-id"):
            continue
        got = p.fields.get(k)
        if got is True:
            got = "on"
        if got == v:
            continue
        if k == "options-slope_choice" or got is None:
            raise Violation(f"{what}: {k} shown as {got!r}, was {v!r}", **w)
        try:
            if float(got) == float(v):
                continue
        except (TypeError, ValueError):
            pass
        raise Violation(f"{what}: {k} shown as {got!r}, was {v!r}", **w)
    for k, v in p.fields.items():
        if v is True and k not in form:
            raise Violation(f"{what}: {k} shown ticked, was not", **w)
        if k not in form and not k.endswith("-id") and "-__prefix__-" not in k:
            if k.split("-")[0] in ("material", "udl", "lineload") and k.split("-")[1].isdigit():
                n = int(form.get(k.split("-")[0] + "-TOTAL_FORMS", 0))
                if int(k.split("-")[1]) >= n:
                    raise Violation(f"{what}: extra row {k}", **w)


DEFAULT_FORM = {
    "slope-height": "1", "slope-angle": "45", "slope-length": "1",
    "material-0-unit_weight": "20", "material-0-friction_angle": "35",
    "material-0-cohesion": "2", "material-0-depth_to_bottom": "5",
    "material-TOTAL_FORMS": "1", "udl-TOTAL_FORMS": "1",
    "lineload-TOTAL_FORMS": "1", "udl-0-magnitude": "0",
    "lineload-0-magnitude": "0", "udl-0-offset": "0",
    "watertable-water_depth": "1", "options-slices": "25",
    "options-iterations": "500",
}


class Visitor:
    """one browser: what it should be seeing"""

    def __init__(self, name):
        self.name = name
        self.c = web.client()
        self.state = None  # (form, entered, expected)
        self.fresh = True  # no page seen since start or reset
        self.log = []

    def check_default(self, resp, obs, what, w):
        p = web.page(resp, what, **w)
        same_page(p, default_expected(), f"{what}: default model", **w)
        same_form(p, DEFAULT_FORM, f"{what}: default form", **w)
        obs.count("default")

    def post(self, r, obs, w):
        form, e = submission(r)
        # now and then more surfaces than anyone would count
        n = r.choice([2000, 4000, 5000]) if r.random() < 0.08 else 500
        e.update(iterations=n, slices=10)
        form.update({"options-iterations": str(n), "options-slices": "10"})
        self.submit(r, obs, w, form, e)

    def change(self, r, obs, w):
        """the last submission with one value a little different"""
        if self.state is None:
            return self.post(r, obs, w)
        form, e = vary(r, *self.state[:2])
        self.submit(r, obs, w, form, e)
        obs.count("changed")

    def compare(self, r, obs, w):
        """reports before and after changes"""
        if self.state is None:
            self.post(r, obs, w)
        for _ in range(r.choice([1, 2, 3])):
            self.pdf(r, obs, w)
            self.change(r, obs, w)
        self.pdf(r, obs, w)

    def submit(self, r, obs, w, form, e):
        s = library(e)
        self.log.append(("post", form))
        resp = self.c.post("/", form, follow=True)
        if s is None:
            self.state, self.fresh = None, False
            self.check_default(resp, obs, "post of a model that can not be analysed", w)
            return
        exp = expected(s)
        self.state = (form, e, (exp[0], json.dumps(exp[1])))
        p = web.page(resp, "post", **w)
        same_page(p, exp, "post", **w)
        same_form(p, form, "post", **w)
        obs.count("posts")
        obs.seen(repr(sorted(form.items())))

    def invalid(self, r, obs, w):
        form, e = submission(r)
        k = r.choice([
            "slope-height", "slope-angle", "material-0-unit_weight",
            "material-0-cohesion", "options-slices", "options-iterations",
            "watertable-water_depth", "limits-left_x",
            "options-analysis_choice", "options-critical_FOS",
        ])
        if r.random() < 0.3:
            form.pop(k)
        else:
            form[k] = r.choice(["", "abc", "nan", "--1", "1,5", "inf"])
        self.log.append(("invalid", k, form.get(k)))
        resp = self.c.post("/", form, follow=True)
        self.state, self.fresh = None, False
        self.check_default(resp, obs, f"invalid {k}", w)
        obs.count("invalid")

    def get(self, r, obs, w):
        self.log.append(("get",))
        resp = self.c.get("/")
        self.fresh = False
        if self.state is None:
            self.check_default(resp, obs, "page", w)
            return
        form, e, exp = self.state
        p = web.page(resp, "reload", **w)
        same_page(p, (exp[0], json.loads(exp[1])), "reload", **w)
        same_form(p, form, "reload", **w)
        obs.count("reloads")

    def reset(self, r, obs, w):
        follow = r.random() < 0.5
        self.log.append(("reset", follow))
        resp = self.c.get("/reset", follow=follow)
        self.state, self.fresh = None, True
        obs.count("resets")
        if follow:
            self.fresh = False
            self.check_default(resp, obs, "reset", w)
        elif resp.status_code != 302:
            raise Violation(f"reset: status {resp.status_code}", **w)

    def pdf(self, r, obs, w):
        exp = default_expected() if self.state is None else (
            self.state[2][0], json.loads(self.state[2][1]))
        k = r.random()
        f = [x["FOS"] for x in exp[0]]
        if len(f) > 600 and r.random() < 0.6:
            m = r.choice([100, 5, 3.5])
            obs.count("pdf_many")
        elif k < 0.5:
            m = round(r.uniform(0.1, 5), 1)
        elif k < 0.8:
            m = r.choice(f)
            m = m * r.choice([1, 1.0001])
        else:
            m = r.choice([0, 100, 1.5])
        self.log.append(("pdf", m))
        resp = self.c.get(f"/pdf/{m!r}")
        if self.state is None and self.fresh:
            if resp.status_code != 302:
                raise Violation(
                    f"report without an analysis: status {resp.status_code}", **w)
            obs.count("pdf_nothing")
            return
        if resp.status_code != 200 or "pdf" not in resp["Content-Type"]:
            raise Violation(f"report: status {resp.status_code}", **w)
        fig = json.loads(resp.content[5:])
        n = len(exp[1]["data"])
        shown = fig["data"][n:]
        base = dict(fig, data=fig["data"][:n])
        for x in (base, exp[1]):
            for k in ("autosize", "width", "height"):
                x["layout"].pop(k, None)
        tie = len(f) > 1 and f[1] - f[0] < 1e-9
        if not tie:
            drive.same_figure(plain(base), plain(exp[1]), "model in the report", **w)
        want = [x for x in exp[0] if x["FOS"] < m]
        if abs(len(shown) - len(want)) > sum(abs(x - m) < 1e-9 * m for x in f):
            raise Violation(
                f"report for {m} shows {len(shown)} surfaces, {len(want)} are "
                "below", **w)
        obs.count("pdfs")
        if len(shown) != len(want):
            return
        scale = {float(k): v for k, v in COLOUR_FOS_DICT.items()}
        for t, x in zip(shown, reversed(want)):
            if abs(t["meta"][0] - x["FOS"]) > 6e-4:
                raise Violation(
                    f"report labels {t['meta']}, factor is {x['FOS']}", **w)
            if not (len(f) > 1 and min(
                abs(x["FOS"] - v) for v in f if v is not x["FOS"]
            ) < 1e-9):
                curve(t["x"], t["y"], x, "report", **w)
            if not color_ok(t["line"]["color"], x["FOS"], scale):
                raise Violation(
                    f"report draws factor {x['FOS']} in {t['line']['color']}",
                    **w)
            obs.count("pdf_surfaces")


@register
class C19(Web):
    id = "C19"
    cases = dict(quick=80, thorough=2500)
    rule = (
        "One case is a history of page loads, valid and invalid submissions, "
        "reports and resets by 1-4 visitors of the real web application, "
        "interleaved in one thread or each in a thread of its own; every "
        "response is compared with what that visitor should see. Non-trivial: "
        "an analysed submission; distinct by its contents."
    )
    minimum = dict(
        posts=120, reloads=40, resets=50, pdfs=60, invalid=50, default=150,
        threaded=10, changed=40,
    )

    @staticmethod
    def case(r, obs, tier, index):
        vs = [Visitor(i) for i in range(r.choice([1, 2, 3, 4]))]
        ops = [
            "post", "get", "get", "pdf", "pdf", "reset", "invalid", "post",
            "change", "compare",
        ]
        threaded = r.random() < 0.3
        w = dict(logs=[v.log for v in vs], threaded=threaded)
        default_expected()
        if not threaded:
            for _ in range(r.choice([6, 10, 14])):
                v = r.choice(vs)
                getattr(v, r.choice(ops))(r, obs, w)
                obs.count("requests")
            return
        import random

        errors = []

        def run(v, seed):
            q = random.Random(seed)
            try:
                for _ in range(4):
                    getattr(v, q.choice(ops))(q, obs, w)
                    obs.count("requests")
            except BaseException as e:  # handed to the main thread
                errors.append(e)
            finally:
                web.close()

        ts = [
            threading.Thread(target=run, args=(v, r.random())) for v in vs
        ]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        obs.count("threaded")


HOSTILE = [
    "", " ", "abc", "nan", "inf", "-inf", "1e400", "-1", "0", "1e-9", "1e-3",
    "0.001", "1e5", "1e6", "100000", "999999.5", "-0", "+5", "1_000", "٣",
    "é", "\x00", "<script>", "None", "True", "[]", "1,000", "0x10", "1e", ".",
    "5%", "90", "89.999", "90.0001", "180", "1e3", "50", "2", "3.7", "1" * 60,
    "red", "#12", "rgb(1,2,3)", "on", "normal", "length", "dynamic", "angle",
]
URLS = [
    "abc", "nan", "inf", "-inf", "-1", "0", "1e400", "5", "2.5", "1e-5", "%00",
    "1,5", "٣", "--", "5/", "", "1_0", "None", "é", "a" * 300, "%2e%2e",
]


@register
class C20(Web):
    id = "C20"
    cases = dict(quick=280, thorough=8000)
    rule = (
        "One case is a history of up to 12 requests to the real web "
        "application by a script: forms with fields removed, repeated or set "
        "to hostile strings and extreme numbers, tampered row counts, any "
        "report argument, any method, with and without session. Every answer "
        "is observed. Non-trivial: an answered request; distinct by its "
        "contents."
    )
    minimum = dict(
        requests=1500, pages=150, redirects=250, analysed=100, extreme=150,
    )

    @staticmethod
    def case(r, obs, tier, index):
        c = web.client()
        log = []
        w = dict(log=log)
        for _ in range(r.choice([3, 6, 10])):
            k = r.random()
            if k < 0.12:
                req = ("get", "/")
            elif k < 0.3:
                req = ("get", "/pdf/" + (r.choice(URLS) if r.random() < 0.7 else repr(r.uniform(0, 6))))
            elif k < 0.36:
                req = ("get", "/reset")
            elif k < 0.42:
                req = (r.choice(["put", "delete", "head", "options", "patch"]), r.choice(["/", "/reset", "/pdf/2"]))
            elif k < 0.46:
                req = ("get", r.choice(["/nothing", "/pdf", "/?a=1", "/reset/", "/pdf/2?x=%ff"]))
            elif k < 0.7:
                req = ("post", "/", extreme(r))
                obs.count("extreme")
            else:
                req = ("post", "/", tampered(r))
            log.append(req)
            if r.random() < 0.03:
                c.cookies["sessionid"] = r.choice(["", "x", "a" * 32, "é"])
            follow = r.random() < 0.5
            resp = getattr(c, req[0])(*req[1:], follow=follow)
            obs.count("requests")
            obs.seen(repr(req))
            if resp.status_code >= 500:
                raise Violation(
                    f"server error for {req[0]} {req[1]}: "
                    f"{cause(resp)}", **w)
            if resp.status_code == 200:
                obs.count("pages")
                if req[0] == "post" and not (follow and resp.redirect_chain):
                    obs.count("analysed")
                    p = web.page(resp, "post", **w)
                    if not p.search:
                        raise Violation("page without any surface", **w)
                    if "NaN" in p.data["search"] or "Infinity" in p.data["search"]:
                        raise Violation("surfaces the browser can not read", **w)
            elif resp.status_code in (301, 302):
                obs.count("redirects")
            else:
                obs.count(f"status_{resp.status_code}")
                if req[0] == "post":
                    raise Violation(f"status {resp.status_code} for a form", **w)
            if follow and resp.redirect_chain and resp.status_code != 200 and req[0] in ("get", "post") and not req[1].startswith("/nothing"):
                if resp.status_code != 404:
                    raise Violation(f"redirected to status {resp.status_code}", **w)


def cause(resp):
    e = getattr(resp, "exc_info", None)
    if not e:
        return resp.status_code
    import traceback

    tb = traceback.extract_tb(e[2])[-1]
    return f"{e[0].__name__}: {str(e[1])[:200]} at {tb.filename}:{tb.lineno}"


def tampered(r):
    form, e = submission(r)
    form.update({"options-iterations": "500", "options-slices": "10"})
    keys = sorted(form)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        k = r.choice(keys)
        a = r.random()
        if a < 0.25:
            form.pop(k, None)
        elif a < 0.9:
            form[k] = r.choice(HOSTILE)
        else:
            form[k] = ["1", "2"]
    if r.random() < 0.25:
        p = r.choice(["material", "udl", "lineload"])
        form[p + r.choice(["-TOTAL_FORMS", "-INITIAL_FORMS", "-MAX_NUM_FORMS"])] = r.choice(
            ["0", "1", "3", "30", "-1", "x", "", "1e3", "1001"])
    if r.random() < 0.1:
        p = r.choice(["material", "udl", "lineload"])
        form[p + "-0-id"] = r.choice(["1", "x", "-1", "999"])
    if r.random() < 0.03:
        form = {}
    return form


def extreme(r):
    """valid numbers of engineering magnitude, unusual together"""
    form, e = submission(r)
    form.update({"options-iterations": "500", "options-slices": "10"})
    big = ["1e-3", "0.01", "0.1", "1", "10", "100", "1000", "1e4", "1e5", "1e6"]

    def n():
        return r.choice(big) if r.random() < 0.7 else repr(10 ** r.uniform(-3, 6))

    for k in list(form):
        if r.random() < 0.3 and k.rsplit("-", 1)[-1] in (
            "height", "length", "angle", "friction_angle", "cohesion",
            "depth_to_bottom", "magnitude", "offset", "water_depth", "left_x",
            "right_x", "left_x_right", "right_x_left", "unit_weight",
        ):
            form[k] = n() if r.random() < 0.85 else r.choice(["0", "-" + n()])
            if k.endswith("unit_weight"):
                form[k] = r.choice(["1", "50", "20", "0", "51"])
            if k == "slope-angle":
                form[k] = r.choice(["90", "0.1", "1", "89.9", "5", "0", "45"])
    if r.random() < 0.3:
        form["options-critical_FOS"] = r.choice(["0", "5", "0.1", "0.0", "5.0"])
    return form
