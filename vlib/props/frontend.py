"""C23: the page in the browser."""
import json
import math
import os
import re

from . import register
from .website import Web, submission
from .. import browser, web
from ..core import Violation, Skip
from pyslope.utilities import COLOUR_FOS_DICT

KINDS = dict(Materials="material", Udls="udl", LineLoads="lineload")

# what a visitor sees: rows by position on the page, other inputs by name
LOOK = r"""
const value = e => e.type === 'checkbox' ? e.checked : e.value;
const out = {rows: {}, fields: {}, shown: {}, slider: {}, errors: win.__errors.slice()};
for (const kind of ['Materials', 'Udls', 'LineLoads']) {
  const t = doc.getElementById('formset-' + kind);
  out.rows[kind] = [...t.querySelectorAll('tr')].map(tr => {
    const row = {};
    for (const e of tr.querySelectorAll('input, select, textarea'))
      if (e.type !== 'hidden') row[e.name.split('-').pop()] = value(e);
    return row;
  }).filter(row => Object.keys(row).length);
}
for (const e of doc.querySelectorAll('input, select, textarea')) {
  if (/^(slope|watertable|limits|options)-/.test(e.name) && e.type !== 'hidden') {
    out.fields[e.name] = value(e);
    out.shown[e.name] = e.offsetParent !== null;
    if (e.type === 'range') out.slider[e.name] = e.parentElement.innerText.trim();
  }
}
const b = doc.getElementById('analysis_button'), p = doc.getElementById('pdf_button');
out.analyse = !b.disabled;
out.report = p.getAttribute('href');
out.narrow = win.getComputedStyle(doc.getElementById('mobile_screen_menus')).display !== 'none';
out.width = win.innerWidth;
return out;
"""

PLOT = r"""
const g = doc.getElementById('plotly_js');
if (!g.data) return null;
return {data: g.data.map(d => ({x: [...(d.x || [])], y: [...(d.y || [])], hover: d.hovertemplate,
                                meta: d.meta === undefined ? null : d.meta,
                                fill: d.fillcolor === undefined ? null : d.fillcolor})),
        line: g._fullData.map(d => d.line ? d.line.color : null),
        visible: g._fullData.map(d => d.visible !== false),
        annotations: (g.layout.annotations || []).length, shapes: (g.layout.shapes || []).length};
"""

TABLE = r"""
return {rows: [...doc.getElementById('mobile_soil_table').querySelectorAll('tr')].map(tr =>
          [...tr.querySelectorAll('td')].map(td => [td.innerText.trim(), td.style.backgroundColor])),
        legend: [...doc.getElementById('FOS_legend').querySelectorAll('td')].map(td => td.style.backgroundColor)};
"""

SET = r"""
let e;
if (arg.kind) {
  const t = doc.getElementById('formset-' + arg.kind);
  const rows = [...t.querySelectorAll('tr')].filter(tr => tr.querySelector('input:not([type=hidden])'));
  e = [...rows[arg.row].querySelectorAll('input, select')].find(
    e => e.type !== 'hidden' && e.name.split('-').pop() === arg.name);
} else e = doc.getElementsByName(arg.name)[0];
e.focus();
if (e.type === 'checkbox') { if (e.checked !== arg.value) e.click(); return e.checked; }
e.value = arg.value;
if (e.tagName !== 'SELECT') e.dispatchEvent(new win.Event('input', {bubbles: true}));
e.dispatchEvent(new win.Event('change', {bubbles: true}));
return e.value;
"""

ADD = "doc.getElementById('add-' + arg + '-form').click(); return win.__submitted;"

DELETE = r"""
const t = doc.getElementById('formset-' + arg.kind);
const rows = [...t.querySelectorAll('tr')].filter(tr => tr.querySelector('input:not([type=hidden])'));
rows[arg.row].querySelector('button').click();
return win.__submitted;
"""

RESIZE = r"""
return new Promise(res => {
  const w = win.innerWidth;
  let done = false;
  const end = () => { if (!done) { done = true; setTimeout(() => res(win.innerWidth), 0); } };
  win.addEventListener('resize', end, {once: true});
  frame.style.width = arg + 'px';
  if (w === arg) end();
  setTimeout(() => { if (!done) { win.dispatchEvent(new win.Event('resize')); end(); } }, 3000);
});
"""

SUBMIT = r"""
win.__submitted = null;
doc.getElementById('analysis_button').click();
return win.__submitted;
"""

NO_WEBGL = """<script>HTMLCanvasElement.prototype.getContext = (o => function (t, ...a) {
return /webgl/.test(t) ? null : o.call(this, t, ...a); })(HTMLCanvasElement.prototype.getContext)</script>"""

_browser = dict(pid=None, b=None)


def the_browser():
    if _browser["pid"] != os.getpid():
        _browser.update(pid=os.getpid(), b=None)
    if _browser["b"] is None:
        _browser["b"] = browser.Browser(web._state["dir"])
    return _browser["b"]


def drop_browser():
    if _browser["pid"] == os.getpid() and _browser["b"] is not None:
        _browser["b"].close()
        _browser["b"] = None


def rgb(c):
    """#rrggbb of a colour as browsers write it"""
    c = (c or "").strip().lower()
    m = re.fullmatch(r"rgb\(\s*(\d+),\s*(\d+),\s*(\d+)\s*\)", c)
    if m:
        return "#%02x%02x%02x" % tuple(int(v) for v in m.groups())
    m = re.fullmatch(r"#([0-9a-f])([0-9a-f])([0-9a-f])", c)
    if m:
        return "#" + "".join(v * 2 for v in m.groups())
    return c


SCALE = {round(float(k), 1): rgb(v) for k, v in COLOUR_FOS_DICT.items()}


def colors_for(fos):
    k = fos * 10
    near = {math.floor(k + 0.5 - 1e-6), math.floor(k + 0.5 + 1e-6)}
    return {SCALE[min(round(n / 10, 1), max(SCALE))] for n in near}


class Visit:
    """one page in the browser, and what it should look like by now"""

    def __init__(self, text, width, webgl):
        self.page = web.Page(text)
        self.b = the_browser()
        html = browser.page_html(text)
        if not webgl:
            html = html.replace("<head>", "<head>" + NO_WEBGL, 1)
        self.b.open(html, width)
        self.width = width
        f = self.page.fields
        self.rows = {}
        for kind, prefix in KINDS.items():
            n = int(f[f"{prefix}-TOTAL_FORMS"])
            self.rows[kind] = [
                {k.split("-")[-1]: v for k, v in f.items()
                 if k.startswith(f"{prefix}-{i}-") and not k.endswith("-id")}
                for i in range(n)
            ]
        self.fields = {
            k: v for k, v in f.items()
            if re.match("(slope|watertable|limits|options)-", k)
        }
        self.log = [("open", width)]
        # sliders write numbers in their own way
        s = self.do(LOOK)
        for k in s["slider"]:
            if float(s["fields"][k]) != float(self.fields[k]):
                self.bad(f"slider {k} at {s['fields'][k]}, page has {self.fields[k]}")
            self.fields[k] = s["fields"][k]
        self.start = json.dumps([self.rows, self.fields])
        base = self.page.plot
        self.base = base["data"]
        self.search = self.page.search

    @property
    def changed(self):
        s = json.loads(self.start)
        f = dict(self.fields)
        f["options-max_display_FOS"] = s[1]["options-max_display_FOS"]
        return json.dumps([self.rows, f]) != json.dumps(s)

    def bad(self, what):
        raise Violation(what, log=self.log, rows=self.rows, fields=self.fields)

    def do(self, js, arg=None):
        return self.b.do(js, arg)

    # -- actions
    def set(self, name, value, kind=None, row=None):
        self.log.append(("set", kind, row, name, value))
        got = self.do(SET, dict(kind=kind, row=row, name=name, value=value))
        if got != value and not isinstance(value, bool):
            raise Skip(f"{name} does not take {value}: {got}")
        if kind:
            self.rows[kind][row][name] = value
        else:
            self.fields[name] = value

    def add(self, kind):
        self.log.append(("add", kind))
        if self.do(ADD, kind):
            self.bad(f"adding a row to {kind} sent the form")
        rows = self.do(LOOK)["rows"][kind]
        if len(rows) != len(self.rows[kind]) + 1:
            self.bad(f"{len(rows)} rows of {kind} after adding one to {len(self.rows[kind])}")
        if sorted(rows[-1]) != sorted(self.rows[kind][0]):
            self.bad(f"new row of {kind} has inputs {sorted(rows[-1])}")
        # a new row starts out as the first one did
        self.rows[kind].append(rows[-1])

    def delete(self, kind, row):
        self.log.append(("delete", kind, row))
        if self.do(DELETE, dict(kind=kind, row=row)):
            self.bad(f"deleting a row of {kind} sent the form")
        if len(self.rows[kind]) > 1:
            self.rows[kind].pop(row)

    def resize(self, width):
        self.log.append(("resize", width))
        if self.do(RESIZE, width) != width:
            raise Skip("window not resized")
        self.width = width

    # -- what is seen
    def look(self):
        s = self.do(LOOK)
        if s["errors"]:
            self.bad(f"script error {s['errors'][0][:300]}")
        for kind in KINDS:
            if s["rows"][kind] != self.rows[kind]:
                self.bad(f"{kind} shown {s['rows'][kind]}, expected {self.rows[kind]}")
        if s["fields"] != self.fields:
            d = {k: (v, self.fields.get(k)) for k, v in s["fields"].items() if v != self.fields.get(k)}
            self.bad(f"inputs shown (page, expected): {d}")
        f = self.fields
        limits = f["limits-consider_limits"]
        inner = limits and f["limits-consider_internal_limits"]
        want = {
            "slope-height": True,
            "slope-length": f["options-slope_choice"] == "length",
            "slope-angle": f["options-slope_choice"] != "length",
            "watertable-consider_water": True,
            "watertable-water_depth": f["watertable-consider_water"],
            "limits-consider_limits": True,
            "limits-left_x": limits, "limits-right_x": limits,
            "limits-consider_internal_limits": limits,
            "limits-left_x_right": inner, "limits-right_x_left": inner,
        }
        for k, v in want.items():
            if s["shown"][k] != bool(v):
                self.bad(f"{k} is {'shown' if s['shown'][k] else 'hidden'}")
        for k, v in s["slider"].items():
            if v != f[k]:
                self.bad(f"slider {k} at {f[k]} labelled {v!r}")
        if self.changed and not s["analyse"]:
            self.bad("inputs changed, Analyse is disabled")
        if self.changed:
            if s["report"] not in (None, "", "#"):
                self.bad(f"report {s['report']} offered for inputs not analysed")
        elif json.dumps([self.rows, self.fields]) == self.start or all(
            e[0] in ("open", "resize") or e[3:4] == ("options-max_display_FOS",)
            for e in self.log
        ):
            if any(e[0] in ("add", "delete") or (
                e[0] == "set" and e[3] != "options-max_display_FOS"
            ) for e in self.log):
                pass  # changed and changed back
            else:
                m = re.fullmatch(r"/?pdf/([0-9.]+)/?", s["report"] or "")
                if not m or float(m.group(1)) != float(f["options-max_display_FOS"]):
                    self.bad(
                        f"report link {s['report']} for a display limit of "
                        f"{f['options-max_display_FOS']}")
        if s["narrow"] != (self.width < 900):
            self.bad(f"lists for narrow screens {'' if s['narrow'] else 'not '}shown at {self.width}")
        return s

    def plot(self, obs):
        p = self.do(PLOT)
        if p is None:
            self.bad("nothing drawn")
        limit = float(self.fields["options-max_display_FOS"])
        want = [s for s in self.search if s["FOS"] < limit]
        n = len(self.base)
        data = p["data"]
        if not all(p["visible"]):
            self.bad("something drawn is hidden")
        for i, t in enumerate(self.base):
            if i >= len(data) or len(data[i]["x"]) != len(list_of(t.get("x"))) or any(
                a is not None and b is not None and not isinstance(a, str)
                and abs(a - b) > 1e-9
                for a, b in zip(data[i]["x"], list_of(t.get("x")))
            ):
                self.bad(f"trace {i} of the model is not drawn")
        extra = list(zip(data[n:], p["line"][n:]))
        if len(extra) != len(want):
            self.bad(f"{len(extra)} surfaces drawn below {limit}, {len(want)} analysed")
        key = {}
        for s in want:
            key.setdefault(points(s), []).append(s)
        last = math.inf
        for t, line in extra:
            c = key.get(points(t))
            if not c:
                self.bad(f"a surface drawn was not analysed: {t['x'][:2]}, {t['y'][:2]}")
            s = c.pop()
            label = number(t["hover"], t["meta"])
            if label is None or abs(label - s["FOS"]) > 5.0001e-4:
                self.bad(f"surface of factor {s['FOS']} labelled {t['hover']!r}")
            if rgb(line) not in colors_for(s["FOS"]):
                self.bad(f"surface of factor {s['FOS']} drawn in {line}, scale has {colors_for(s['FOS'])}")
            if s["FOS"] > last + 1e-12:
                self.bad(f"surface of factor {s['FOS']} drawn over one of {last}")
            last = s["FOS"]
        if self.width < 900:
            self.table(obs)
        else:
            lay = self.page.plot["layout"]
            for k in ("annotations", "shapes"):
                if p[k] != len(lay.get(k) or []):
                    self.bad(f"{p[k]} {k} drawn, the model has {len(lay.get(k) or [])}")
        obs.count("drawn", len(extra))
        obs.count("plots")
        obs.count("plots_narrow" if self.width < 900 else "plots_wide")

    def table(self, obs):
        """strata and scale on a narrow screen, as analysed"""
        t = self.do(TABLE)
        rows = json.loads(self.start)[0]["Materials"]
        if len(t["rows"]) != len(rows):
            self.bad(f"{len(t['rows'])} strata listed, {len(rows)} entered")
        # layers of the model by depth, as drawn
        fills = [d.get("fillcolor") for d in self.base if d.get("fillcolor")]
        order = sorted(range(len(rows)), key=lambda i: abs(float(rows[i]["depth_to_bottom"])))
        for i, (cells, row) in enumerate(zip(t["rows"], rows)):
            texts = [c[0] for c in cells]
            if texts[0] != row["name"].strip() or any(
                float(a) != float(row[k]) for a, k in zip(
                    texts[2:], ("unit_weight", "cohesion", "friction_angle"))
            ):
                self.bad(f"stratum {row} listed as {texts}")
            c = fills[order.index(i)]
            if c.startswith("#") and rgb(cells[1][1]) != rgb(c):
                self.bad(f"stratum {row} drawn in {c}, listed in {cells[1][1]}")
        legend = [rgb(c) for c in t["legend"]]
        if legend != [SCALE[k] for k in sorted(SCALE)]:
            self.bad(f"scale of {len(legend)} colours, the plots use {len(SCALE)}")
        obs.count("tables")

    def submit(self):
        self.log.append(("submit",))
        s = self.do(SUBMIT)
        if not s:
            self.bad("Analyse does not send the form")
        if s["method"].lower() != "post":
            self.bad(f"form sent by {s['method']}")
        names = [k for k, _ in s["data"]]
        data = dict(s["data"])
        for k in set(names):
            if names.count(k) > 1 and k != "csrfmiddlewaretoken":
                self.bad(f"{k} sent {names.count(k)} times")
        for kind, prefix in KINDS.items():
            rows = self.rows[kind]
            if data.get(f"{prefix}-TOTAL_FORMS") != str(len(rows)):
                self.bad(f"{data.get(f'{prefix}-TOTAL_FORMS')} rows of {kind} sent, {len(rows)} shown")
            for i, row in enumerate(rows):
                for k, v in row.items():
                    sent = data.get(f"{prefix}-{i}-{k}")
                    if isinstance(v, bool):
                        sent = sent is not None
                    if sent != v:
                        self.bad(f"row {i} of {kind} sent with {k} {sent!r}, shown {v!r}")
        for k, v in self.fields.items():
            sent = data.get(k)
            if isinstance(v, bool):
                sent = sent is not None
            if sent != v:
                self.bad(f"{k} sent as {sent!r}, shown {v!r}")
        return data


def points(s):
    return tuple(map(float, s["x"])), tuple(map(float, s["y"]))


def list_of(x):
    return x if isinstance(x, list) else []


def number(hover, meta):
    if isinstance(hover, (int, float)):
        return float(hover)
    t = str(hover)
    if isinstance(meta, list):
        for i, v in enumerate(meta):
            t = t.replace("%%{meta[%d]}" % i, str(v))
    m = re.findall(r"-?\d+(?:\.\d+)?(?:e-?\d+)?", t)
    return float(m[-1]) if m else None


def fresh_value(r, name, old):
    if isinstance(old, bool):
        return not old
    if name == "options-analysis_choice":
        return "dynamic" if old == "normal" else "normal"
    if name == "options-slope_choice":
        return "angle" if old == "length" else "length"
    if name in ("options-critical_FOS", "options-max_display_FOS"):
        opts = [f"{k / 10:g}" for k in range(1, 51)]
    elif name == "options-iterations":
        opts = [str(k) for k in range(500, 1501, 250)]
    elif name == "options-slices":
        opts = [str(k) for k in range(10, 51, 5)]
    elif name in ("name", "color"):
        opts = ["clay", "x", "", "silt 2", "red", "#123456"]
    else:
        opts = [f"{r.uniform(0.5, 40):.2f}", "7", "3.25", "12"]
    opts = [o for o in opts if o != old]
    return r.choice(opts)


@register
class C23(Web):
    id = "C23"
    limit = 300
    cases = dict(quick=96, thorough=2500)
    maxtasks = 100000
    rule = (
        "One case opens the default page or the response to a submission in a "
        "real browser (the one the report generator brings), wide or narrow, "
        "and performs 4-30 actions: rows added and deleted (beyond ten), "
        "values typed, boxes, lists and sliders changed, the window resized. "
        "What is shown, the plot (in the real plotting library), the report "
        "link and finally the submitted data are compared with a record of "
        "the actions; the submission is sent to the application and its "
        "answer opened in turn. Non-trivial: an observed page state; distinct "
        "by the actions before it."
    )
    minimum = dict(
        states=400, plots=200, plots_narrow=40, drawn=3000, tables=15,
        submitted=60, many_rows=15, resized=30, answers=20,
    )

    @staticmethod
    def case(r, obs, tier, index):
        for attempt in (0, 1):
            state = r.getstate()
            try:
                return C23.visit(r, obs, tier, index)
            except browser.Broken:
                drop_browser()
                if attempt:
                    raise
                r.setstate(state)

    @staticmethod
    def visit(r, obs, tier, index):
        # the server demands its token back, as it does from browsers
        c = web.client(enforce_csrf_checks=True)
        if r.random() < 0.4:
            resp = c.get("/")
        else:
            form, e = submission(r)
            while not e["udls"] or not e["lls"]:  # the page keeps one row
                form, e = submission(r)
            form["options-iterations"] = "500"
            form["options-slices"] = r.choice(["10", "25", "50"])
            form["options-critical_FOS"] = f"{r.randint(1, 50) / 10:g}"
            form["options-max_display_FOS"] = f"{r.randint(1, 50) / 10:g}"
            # as a number input would write it
            form = {
                k: repr(float(v)) if re.fullmatch(r"\s*[-+.\de]*\d[-+.\de]*\s*", v)
                and not k.startswith("options") and "FORMS" not in k
                and k.split("-")[-1] not in ("name", "color") else v.strip()
                for k, v in form.items()
            }
            token = web.Page(c.get("/").content.decode()).fields.get(
                "csrfmiddlewaretoken", "")
            resp = c.post("/", dict(form, csrfmiddlewaretoken=token))
            if resp.status_code != 200:
                resp = c.get("/")
        text = web.page(resp, "page") and resp.content.decode()
        for turn in range(r.choice([1, 1, 2])):
            width = r.choice([1400, 1100, 900, 899, 600, 380])
            v = Visit(text, width, webgl=r.random() < 0.08)
            v.look()
            v.plot(obs)
            obs.count("states")
            bulk = r.random() < 0.3
            if bulk:
                kind = r.choice(list(KINDS))
                for _ in range(r.randint(9, 13)):
                    v.add(kind)
                    if r.random() < 0.5:
                        k = r.choice(list(v.rows[kind][-1]))
                        v.set(k, fresh_value(r, k, v.rows[kind][-1][k]), kind, len(v.rows[kind]) - 1)
                obs.count("many_rows")
            for _ in range(r.randint(3, 14)):
                C23.action(r, v, obs, kind if bulk else None)
                if r.random() < 0.5:
                    v.look()
                    obs.count("states")
                    obs.seen(repr(v.log))
            v.look()
            v.plot(obs)
            obs.count("states")
            if not v.changed:
                break
            data = v.submit()
            obs.count("submitted")
            obs.seen(repr(v.log))
            obs.sample = v.log if index < 3 else None
            if turn == 0:
                resp = c.post("/", data)
                if resp.status_code not in (200, 302):
                    v.bad(f"status {resp.status_code} for the form of the page")
                if resp.status_code != 200:
                    obs.count("rejected")
                    break
                text = resp.content.decode()
                obs.count("answers")
                after = web.Page(text).fields
                for k, sent in data.items():
                    if k in after and isinstance(after[k], str) and k != "csrfmiddlewaretoken" and after[k] != sent.strip():
                        v.bad(f"{k} sent as {sent!r}, the answer shows {after[k]!r}")

    @staticmethod
    def action(r, v, obs, kind=None):
        k = r.random()
        kind = kind if kind and r.random() < 0.7 else r.choice(list(KINDS))
        rows = v.rows[kind]
        if k < 0.16:
            v.add(kind)
        elif k < 0.34:
            v.delete(kind, r.randrange(len(rows)))
        elif k < 0.55:
            i = r.randrange(len(rows))
            name = r.choice(list(rows[i]))
            v.set(name, fresh_value(r, name, rows[i][name]), kind, i)
        elif k < 0.72:
            name = r.choice([n for n in v.fields if n != "options-max_display_FOS"])
            v.set(name, fresh_value(r, name, v.fields[name]))
        elif k < 0.9:
            name = "options-max_display_FOS"
            v.set(name, fresh_value(r, name, v.fields[name]))
            v.plot(obs)
        else:
            v.resize(r.choice([1300, 1000, 950, 880, 700, 400]))
            v.plot(obs)
            obs.count("resized")
