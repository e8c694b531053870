"""The web application as it is deployed: server processes of its own that can
be killed and restarted, reached over HTTP like a browser does."""
import glob
import http.client
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
from http.cookies import SimpleCookie
from urllib.parse import urlencode, urljoin

from . import web
from .core import REPO, Violation

# Runs in every server process. A file "crash" says at which write to the
# database the process ends: "<n> before", "<n> after" (nth write from when the
# file was made), or "answer" (everything done, answer not yet sent).
CONF = r"""
import os
import signal

DIR = os.path.dirname(os.path.abspath(__file__))
CRASH = os.path.join(DIR, "crash")
count = dict(made=None, n=0)


def plan():
    try:
        made = os.stat(CRASH).st_mtime_ns
        n, _, when = open(CRASH).read().partition(" ")
    except OSError:
        return None, None
    if made != count["made"]:
        count.update(made=made, n=0)
    return n, when


def end():
    try:
        os.rename(CRASH, CRASH + "ed")  # one process ends, not each
    except OSError:
        return
    os.kill(os.getpid(), signal.SIGKILL)


def write(execute, sql, params, many, context):
    n, when = plan()
    if n is None or n == "answer" or sql.lstrip()[:6].upper() not in (
        "INSERT", "UPDATE", "DELETE", "REPLAC"):
        return execute(sql, params, many, context)
    count["n"] += 1
    hit = count["n"] == int(n)
    if hit and when == "before":
        end()
    out = execute(sql, params, many, context)
    if hit and when == "after":
        end()
    return out


def post_worker_init(worker):
    from django.db.backends.signals import connection_created

    def created(sender, connection, **k):
        if write not in connection.execute_wrappers:
            connection.execute_wrappers.append(write)

    connection_created.connect(created, weak=False)
    worker._keep = created
    if not os.path.exists(os.path.join(DIR, "real-pdf")):
        from plotly import graph_objects as go

        def to_image(self, *a, **k):
            return b"%PDF-" + self.to_json().encode()

        go.Figure.to_image = to_image


def post_request(worker, req, environ, resp):
    pass


def pre_request(worker, req):
    pass
"""

# the answer is ready, nothing is sent
APP = r"""
import os
from engineering.wsgi import application as inner

CRASH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "crash")


def application(environ, start_response):
    out = inner(environ, start_response)
    try:
        if open(CRASH).read().startswith("answer"):
            import conf
            conf.end()
    except OSError:
        pass
    return out
"""


class Server:
    def __init__(self, workers=1, real_pdf=False):
        base = web._state["dir"]
        self.dir = tempfile.mkdtemp(prefix="verif-server-", dir=base)
        shutil.copy(os.path.join(base, "base.sqlite3"),
                    os.path.join(self.dir, "db.sqlite3"))
        for n, t in (("conf.py", CONF), ("app.py", APP)):
            with open(os.path.join(self.dir, n), "w") as f:
                f.write(t)
        if real_pdf:
            open(os.path.join(self.dir, "real-pdf"), "w").close()
        self.sock = os.path.join(self.dir, "s")
        self.p = None
        self.start(workers)

    def start(self, workers=1):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        self.crash(None)
        env = dict(
            os.environ, HOME=self.dir, TMPDIR=self.dir,
            PYTHONPATH=f"{self.dir}:{REPO}",
            **web._env(os.path.join(self.dir, "db.sqlite3")))
        env.pop("DJANGO_DEBUG", None)
        pid = os.open(os.path.join(self.dir, "pid"),
                      os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
        self.p = subprocess.Popen(
            [sys.executable, "-m", "gunicorn", "--bind", f"unix:{self.sock}",
             "--workers", str(workers), "--timeout", "200",
             "--worker-tmp-dir", self.dir, "--no-control-socket",
             "--config", os.path.join(self.dir, "conf.py"), "app:application"],
            stdout=subprocess.DEVNULL,
            stderr=open(os.path.join(self.dir, "log"), "ab"),
            stdin=subprocess.DEVNULL, cwd=self.dir, env=env,
            start_new_session=True,
            preexec_fn=lambda: os.write(pid, str(os.getpid()).encode()),
        )
        os.close(pid)
        end = time.time() + 60
        while not os.path.exists(self.sock):
            if self.p.poll() is not None or time.time() > end:
                raise Violation(
                    "the server does not start: " + self.log()[-1500:])
            time.sleep(0.02)

    def log(self):
        return open(os.path.join(self.dir, "log"), errors="replace").read()

    def crash(self, what):
        """plan the end of the process that serves the next request"""
        p = os.path.join(self.dir, "crash")
        if os.path.exists(p + "ed"):
            os.unlink(p + "ed")
        if what is None:
            if os.path.exists(p):
                try:
                    os.unlink(p)
                except OSError:
                    pass
            return
        with open(p + "-", "w") as f:
            f.write(what)
        os.rename(p + "-", p)

    def crashed(self):
        return os.path.exists(os.path.join(self.dir, "crashed"))

    def kill(self, sig=signal.SIGKILL):
        """all processes at once, or the main one asked to stop"""
        if sig == signal.SIGKILL:
            try:
                os.killpg(self.p.pid, sig)
            except OSError:
                pass
        else:
            self.p.send_signal(sig)
        self.p.wait()
        if sig != signal.SIGKILL:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass

    def reload(self):
        self.p.send_signal(signal.SIGHUP)

    def close(self):
        if self.p:
            self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


def end_all(where):
    for d in glob.glob(os.path.join(where, "verif-server-*", "pid")):
        try:
            os.killpg(int(open(d).read()), signal.SIGKILL)
        except (OSError, ValueError):
            pass


class Lost(Exception):
    """the connection ended without an answer"""


class Answer:
    def __init__(self, status, headers, content):
        self.status_code, self.headers, self.content = status, headers, content
        self.redirect_chain = []

    def __getitem__(self, k):
        return self.headers.get(k)


class Unix(http.client.HTTPConnection):
    def __init__(self, path):
        super().__init__("127.0.0.1", timeout=180)
        self.path = path

    def connect(self):
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.settimeout(180)
        self.sock.connect(self.path)


class Browser:
    """cookies, redirects and the tokens of forms"""

    def __init__(self, server):
        self.server = server
        self.cookies = {}
        self.token = None

    def request(self, method, path, body=None, headers=()):
        c = Unix(self.server.sock)
        h = {"Host": "127.0.0.1"}
        if self.cookies:
            h["Cookie"] = "; ".join(f"{k}={v}" for k, v in self.cookies.items())
        h.update(headers)
        try:
            c.request(method, path, body, h)
            resp = c.getresponse()
            content = resp.read()
        except (http.client.HTTPException, ConnectionError) as e:
            raise Lost(repr(e))
        finally:
            c.close()
        for v in resp.headers.get_all("Set-Cookie") or []:
            for k, m in SimpleCookie(v).items():
                if m["max-age"] == "0":
                    self.cookies.pop(k, None)
                else:
                    self.cookies[k] = m.value
        m = re.search(
            rb'name=.csrfmiddlewaretoken.\s+value=.([A-Za-z0-9]+)', content)
        if m and resp.status == 200:
            self.token = m.group(1).decode()
        return Answer(resp.status, resp.headers, content)

    def _follow(self, a, path, follow):
        chain = []
        while follow and a.status_code in (301, 302, 303):
            path = urljoin(path, a["Location"])
            chain.append(path)
            if len(chain) > 5:
                raise Violation(f"redirected without end: {chain}")
            a = self.request("GET", path)
        a.redirect_chain = chain
        return a

    def get(self, path, follow=False):
        return self._follow(self.request("GET", path), path, follow)

    def post(self, path, form, follow=False):
        if self.token is None:
            self.get("/")  # a form is filled in on a page
        body = urlencode(dict(form, csrfmiddlewaretoken=self.token or ""))
        a = self.request("POST", path, body, {
            "Content-Type": "application/x-www-form-urlencoded",
            "Origin": "http://127.0.0.1", "Referer": "http://127.0.0.1/"})
        return self._follow(a, path, follow)
