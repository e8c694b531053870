"""The real web application, run in process with a scratch database."""
import html.parser
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from .core import REPO, Violation

_state = dict(dir=None, pid=None)
local = threading.local()


def prepare():
    """once, before workers start: a migrated database to copy"""
    d = tempfile.mkdtemp(prefix="verif-web-")
    _state["dir"] = d
    env = dict(os.environ)
    env.update(_env(os.path.join(d, "base.sqlite3")))
    subprocess.run(
        [sys.executable, "-c",
         "import sys; sys.path.insert(0, %r); import django; django.setup();"
         "from django.core.management import call_command;"
         "call_command('migrate', verbosity=0)" % REPO],
        check=True, env=env, cwd=d, stdout=subprocess.DEVNULL,
    )


def cleanup():
    if _state["dir"]:
        from . import browser

        browser.end_all(_state["dir"])
        for _ in range(20):  # browsers end soon after the workers do
            shutil.rmtree(_state["dir"], ignore_errors=True)
            if not os.path.exists(_state["dir"]):
                break
            time.sleep(0.1)
        _state["dir"] = None


def _env(db):
    return dict(
        SECRET_KEY="verif", DATABASE_URL=f"sqlite:///{db}?timeout=60",
        DJANGO_SETTINGS_MODULE="engineering.settings",
    )


def start():
    """once per worker process"""
    if _state["pid"] == os.getpid():
        return
    _state["pid"] = os.getpid()
    db = os.path.join(_state["dir"], f"{os.getpid()}.sqlite3")
    shutil.copy(os.path.join(_state["dir"], "base.sqlite3"), db)
    os.environ.update(_env(db))
    import logging

    logging.disable(logging.CRITICAL)
    import django

    django.setup()
    from django.conf import settings

    # timeout is passed to sqlite; threads of one case share the file
    settings.DATABASES["default"].setdefault("OPTIONS", {})["timeout"] = 60
    from plotly import graph_objects as go

    # the converter to pdf is an external program: the figure it would be given
    # is what is observed
    def to_image(self, *a, **k):
        return b"%PDF-" + self.to_json().encode()

    go.Figure.to_image = to_image


def client(**k):
    start()
    from django.test import Client

    return Client(HTTP_HOST="127.0.0.1", raise_request_exception=False, **k)


def close():
    from django.db import connections

    connections.close_all()


class Page(html.parser.HTMLParser):
    """values of a form and embedded data, as a browser would see them"""

    def __init__(self, text):
        super().__init__()
        self.fields = {}
        self.data = {}
        self.types = {}
        self._select = self._script = None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = {}
        for k, v in attrs:
            a.setdefault(k, v)  # of repeated attributes the first counts
        if tag == "input" and a.get("name"):
            n, t = a["name"], a.get("type", "text")
            self.types[n] = t
            if t == "checkbox":
                self.fields[n] = "checked" in a
            else:
                self.fields[n] = a.get("value", "")
        elif tag == "select":
            self._select = a.get("name")
            self.fields.setdefault(self._select, None)
        elif tag == "option" and self._select:
            if "selected" in a or self.fields[self._select] is None:
                self.fields[self._select] = a.get("value")
        elif tag == "script" and a.get("type") == "application/json":
            self._script = a.get("id")
            self.data[self._script] = ""

    def handle_endtag(self, tag):
        if tag == "select":
            self._select = None
        elif tag == "script":
            self._script = None

    def handle_data(self, d):
        if self._script:
            self.data[self._script] += d

    @property
    def search(self):
        return json.loads(self.data["search"])

    @property
    def plot(self):
        p = json.loads(self.data["plot_json"])
        return json.loads(p) if isinstance(p, str) else p


def page(resp, what, **w):
    if resp.status_code != 200:
        raise Violation(f"{what}: status {resp.status_code}", **w)
    p = Page(resp.content.decode())
    for n in ("search", "plot_json"):
        if n not in p.data:
            raise Violation(f"{what}: page without {n}", **w)
    return p
