"""C24: the web application across restarts, crashes and several processes."""
import json
import re
import signal
import threading
import time
import zlib

import numpy as np

from . import register
from .website import Web, Visitor, default_expected, library, expected, \
    same_page, same_form, submission, vary
from .. import web, server
from ..core import Violation


class Guest(Visitor):
    """a visitor of the real server"""

    def __init__(self, name, srv, real):
        super().__init__(name)
        self.c = server.Browser(srv)
        self.srv, self.real = srv, real
        self.busy = 1.0  # how long the last submission took

    def pdf(self, r, obs, w):
        if not self.real:
            return super().pdf(r, obs, w)
        exp = default_expected() if self.state is None else (
            self.state[2][0], json.loads(self.state[2][1]))
        f = [x["FOS"] for x in exp[0]]
        m = r.choice([round(r.uniform(0.5, 4), 1), r.choice(f) * 1.0001,
                      f[min(len(f) - 1, 30)] * 1.0001, 0])
        self.log.append(("pdf file", m))
        resp = self.c.get(f"/pdf/{m!r}")
        if self.state is None and self.fresh:
            if resp.status_code != 302:
                raise Violation(
                    f"report without an analysis: status {resp.status_code}", **w)
            return
        if resp.status_code != 200 or "pdf" not in resp["Content-Type"]:
            raise Violation(f"report: status {resp.status_code}", **w)
        report(resp.content, [x for x in exp[0] if x["FOS"] < m], obs, w)

    def submission(self, r):
        if self.state is not None and r.random() < 0.5:
            return vary(r, *self.state[:2])
        form, e = submission(r)
        e.update(iterations=500, slices=10)
        form.update({"options-iterations": "500", "options-slices": "10"})
        return form, e

    def now(self):
        return (self.state, self.fresh)

    def outcome(self, form, e):
        """the state a submission leads to"""
        s = library(e)
        if s is None:
            return (None, False)
        exp = expected(s)
        return ((form, e, (exp[0], json.dumps(exp[1]))), False)

    def settle(self, obs, w, what, states):
        """a page load shows one of the states, whole"""
        resp = self.c.get("/", follow=True)
        errors = []
        for k, (state, _) in enumerate(states):
            self.state, self.fresh = state, False
            try:
                if state is None:
                    self.check_default(resp, obs, what, w)
                else:
                    form, e, exp = state
                    p = web.page(resp, what, **w)
                    same_page(p, (exp[0], json.loads(exp[1])), what, **w)
                    same_form(p, form, what, **w)
                return k
            except Violation as v:
                errors.append(v.what)
        raise Violation(
            f"{what}: the page shows none of the {len(states)} complete "
            "results it may show: " + " / ".join(errors), **w)

    def crash(self, r, obs, w, workers):
        """the server ends while it handles a submission"""
        form, e = self.submission(r)
        if self.c.token is None:
            self.get(r, obs, w)
        old, new = self.now(), self.outcome(form, e)
        k = r.random()
        if k < 0.55:
            plan = r.choice(["1 before", "1 after", "2 before", "2 after",
                             "3 before", "3 after", "answer"])
        else:
            plan = None
        what = f"submission, server ending {plan or 'at any time'}"
        self.log.append((what, form))
        answer = None
        if plan:
            self.srv.crash(plan)
            try:
                answer = self.c.post("/", form)
            except server.Lost:
                obs.count("lost")
            hit = self.srv.crashed()
            self.srv.crash(None)
            obs.count("crash_" + plan.replace(" ", "_") if hit else "not_reached")
            if answer is None and not hit:
                raise Violation(f"{what}: no answer, server did not end", **w)
        else:
            delay = r.uniform(0, 1.2) * self.busy
            t = threading.Timer(delay, self.srv.kill)
            t.start()
            try:
                answer = self.c.post("/", form)
            except (server.Lost, OSError):
                obs.count("lost")
            t.join()
            self.srv.start(workers)
            obs.count("crash_time")
        if answer is not None:
            if answer.status_code not in (200, 302):
                raise Violation(f"{what}: status {answer.status_code}", **w)
            if answer.status_code == 200:
                # it was told so: it has to be there
                states = [new]
            elif new[0] is None:
                # sent to the default page, did not get there yet
                states = [old, new]
            else:
                raise Violation(f"{what}: valid form sent away", **w)
        else:
            states = [old, new]
        got = self.settle(obs, w, f"after {what}", states)
        obs.count("settled_" + ("new" if states[got] is new else "old"))
        obs.seen(repr(sorted(form.items())), plan)

    def restart(self, r, obs, w, workers):
        k = r.choice(["kill", "kill", "stop", "reload"])
        self.log.append(("restart", k))
        if k == "reload":
            self.srv.reload()
        else:
            self.srv.kill(signal.SIGKILL if k == "kill" else signal.SIGTERM)
            self.srv.start(workers)
        obs.count("restart_" + k)

    def tabs(self, r, obs, w):
        """two submissions at once from one browser"""
        if self.c.token is None:
            self.get(r, obs, w)
        subs = [self.submission(r) for _ in range(2)]
        subs = [(f, e, self.outcome(f, e)) for f, e in subs]
        subs = [x for x in subs if x[2][0] is not None]
        if len(subs) < 2:
            return
        self.log.append(("two tabs", [x[0] for x in subs]))
        got = [None, None]

        def run(i):
            b = server.Browser(self.srv)
            b.cookies, b.token = dict(self.c.cookies), self.c.token
            try:
                got[i] = (b, b.post("/", subs[i][0]))
            except BaseException as e:
                got[i] = e

        ts = [threading.Thread(target=run, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for g, (form, e, out) in zip(got, subs):
            if isinstance(g, Exception):
                raise Violation(f"no answer to one of two tabs: {g!r}", **w)
            b, a = g
            p = web.page(a, "one of two tabs", **w)
            exp = out[0][2]
            same_page(p, (exp[0], json.loads(exp[1])), "one of two tabs", **w)
        if "sessionid" not in self.c.cookies:
            self.c.cookies = got[1][0].cookies
            self.settle(obs, w, "after first submissions", [subs[1][2]])
        else:
            self.settle(obs, w, "after submissions from two tabs",
                        [x[2] for x in subs])
        obs.count("tabs")

    def post(self, r, obs, w):
        t = time.time()
        super().post(r, obs, w)
        self.busy = max(0.1, min(5.0, time.time() - t))


NUM = re.compile(r"-?\d*\.?\d+$")


def strokes(pdf):
    """(color, points) of the lines drawn in a PDF file, in drawing order"""
    out = []
    for m in re.finditer(rb"stream\r?\n(.*?)endstream", pdf, re.S):
        try:
            text = zlib.decompress(m.group(1)).decode("latin1")
        except zlib.error:
            continue
        if not re.search(r"\d l\n", text):
            continue
        ctm, color, stack, path, args = (1, 0, 0, 1, 0, 0), None, [], [], []
        for t in text.split():
            if NUM.match(t):
                args.append(float(t))
                continue
            if t == "q":
                stack.append((ctm, color))
            elif t == "Q":
                ctm, color = stack.pop()
            elif t == "cm":
                a, b, c, d, e, f = args[-6:]
                A, B, C, D, E, F = ctm
                ctm = (a * A + b * C, a * B + b * D, c * A + d * C,
                       c * B + d * D, e * A + f * C + E, e * B + f * D + F)
            elif t == "RG":
                color = tuple(args[-3:])
            elif t in ("m", "l"):
                x, y = args[-2:]
                A, B, C, D, E, F = ctm
                q = (x * A + y * C + E, x * B + y * D + F)
                path = [q] if t == "m" else path + [q]
            elif t == "S":
                out.append((color, path))
                path = []
            elif t in ("f", "f*", "n", "B", "B*", "b", "s", "c", "v", "y"):
                path = [] if t not in ("c", "v", "y") else path
            args = []
    return out


def report(pdf, want, obs, w):
    """the file shows the surfaces, in order, to scale"""
    obs.count("files")
    if not pdf.startswith(b"%PDF") or b"%%EOF" not in pdf[-32:]:
        raise Violation("the report is not a PDF file", **w)
    if len(re.findall(rb"/Type\s*/Page\b", pdf)) != 1:
        raise Violation("the report is not one page", **w)
    box = re.search(rb"/MediaBox \[0 0 ([\d.]+) ([\d.]+)\]", pdf)
    if not box or abs(float(box[1]) - 1200) > 2 or abs(float(box[2]) - 675) > 2:
        raise Violation(f"size of the report: {box and box.groups()}", **w)
    lines = [s for s in strokes(pdf) if len(s[1]) > 1]
    n = len(want)
    obs.count("file_lines", len(lines))
    if len(lines) < n:
        raise Violation(
            f"{len(lines)} lines in the report, {n} surfaces expected", **w)
    if n < 3:
        return
    ends = [(*x["l_c"], *x["r_c"]) for x in reversed(want)]
    X = np.array([v for e in ends for v in (e[0], e[2])])
    Y = np.array([v for e in ends for v in (e[1], e[3])])
    best = None
    for j in range(len(lines) - n, -1, -1):
        part = [s[1] for s in lines[j:j + n]]
        px = np.array([v for p in part for v in (p[0][0], p[-1][0])])
        py = np.array([v for p in part for v in (p[0][1], p[-1][1])])
        err = 0
        for a, b in ((X, px), (Y, py)):
            M = np.stack([a, np.ones_like(a)], 1)
            sol, *_ = np.linalg.lstsq(M, b, rcond=None)
            err = max(err, np.abs(M @ sol - b).max())
            if sol[0] < 0:
                err = 1e9
        if best is None or err < best[0]:
            best = (err, j)
        if err < 1:
            obs.count("file_surfaces", n)
            return
    raise Violation(
        f"the report file does not show the {n} surfaces in order and to "
        f"scale (nearest: {best[0]:.1f} points off)", **w)


@register
class C24(Web):
    id = "C24"
    cases = dict(quick=56, thorough=1200)
    limit = 300
    rule = (
        "One case is a history of page loads, submissions, resets and reports "
        "by 1-3 visitors of a real server (gunicorn, 1-3 processes, its own "
        "database) that is killed, stopped, restarted or reloaded in between, "
        "or that ends before or after any of its database writes, before its "
        "answer, or at a random moment while it handles a submission; in a "
        "fifth of the cases reports are made by the real converter and the "
        "lines in the file are decoded. Non-trivial: a submission the server "
        "ended in; distinct by form and moment."
    )
    minimum = dict(
        crash_time=20, crash_1_before=2, crash_1_after=2, crash_answer=2,
        settled_old=15, settled_new=5, restart_kill=15, restart_stop=8,
        restart_reload=8, posts=60, tabs=10, files=8, file_surfaces=300,
    )

    @staticmethod
    def teardown():
        if web._state["dir"]:
            server.end_all(web._state["dir"])
        web.cleanup()

    @staticmethod
    def case(r, obs, tier, index):
        real = r.random() < 0.2
        workers = r.choice([1, 2, 2, 3])
        default_expected()
        srv = server.Server(workers, real)
        try:
            vs = [Guest(i, srv, real) for i in range(r.choice([1, 2, 3]))]
            w = dict(logs=[v.log for v in vs], workers=workers)
            ops = ["crash"] * 4 + ["restart"] * 3 + [
                "post", "post", "change", "get", "reset", "pdf", "pdf",
                "tabs", "invalid", "compare", "compare"]
            r.choice(vs).post(r, obs, w)
            for _ in range(r.choice([6, 9, 12])):
                v, op = r.choice(vs), r.choice(ops)
                obs.count("requests")
                if op in ("crash", "restart"):
                    getattr(v, op)(r, obs, w, workers)
                else:
                    getattr(v, op)(r, obs, w)
            for v in vs:
                if v.state is not None or not v.fresh:
                    v.get(r, obs, w)
        except server.Lost as e:
            raise Violation(f"connection lost: {e}; {srv.log()[-800:]}", **w)
        finally:
            srv.close()
