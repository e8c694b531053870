"""The real pages in a real browser.

kaleido, which the application needs for its reports, brings a headless
Chromium that loads one script and then evaluates a function per line of
input. Here that script is HARNESS below: it shows a page of the application
in a frame and runs the steps of a test in it. The page's own scripts are the
ones in the repository (inlined, as there is no server); scripts from elsewhere
are left out, except plotly.js, which is the one plotly for Python carries.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile

from .core import REPO

HARNESS = r"""
(function () {
  // calls are evaluated in the newest frame: the one before may not go yet
  let frame = null, previous = null;
  function open(spec, res) {
    if (previous) previous.remove();
    previous = frame;
    if (previous) previous.style = 'display:none';
    frame = document.createElement('iframe');
    frame.style = 'border:0;width:' + spec.width + 'px;height:' + spec.height + 'px';
    document.body.appendChild(frame);
    frame.onload = () => setTimeout(() => res({code: 0, result: 'open'}), 0);
    frame.srcdoc = spec.html;
  }
  function step(spec, res) {
    const win = frame.contentWindow, doc = win.document;
    const f = new Function('win', 'doc', 'frame', 'arg', spec.js);
    Promise.resolve(f(win, doc, frame, spec.arg)).then(
      v => res({code: 0, result: JSON.stringify(v === undefined ? null : v)}),
      e => res({code: 1, message: String(e && e.stack || e), result: null}));
  }
  const run = spec => new Promise(res => {
    try { (spec.data.html !== undefined ? open : step)(spec.data, res); }
    catch (e) { res({code: 1, message: String(e && e.stack || e), result: null}); }
  });
  Object.defineProperty(window, 'kaleido_scopes', {
    get() { return {plotly: run}; }, set(v) {}, configurable: true});
})();
"""

# before the page's own scripts
PRELUDE = r"""
window.kaleido_scopes = parent.kaleido_scopes;
window.__errors = [];
window.addEventListener('error', e => window.__errors.push(
  String(e.error && e.error.stack || e.message)));
window.addEventListener('unhandledrejection', e => window.__errors.push(
  String(e.reason && e.reason.stack || e.reason)));
window.__submitted = null;
window.__left = null;
window.addEventListener('submit', e => {
  e.preventDefault();
  const b = e.submitter, d = [...new FormData(e.target).entries()];
  if (b && b.name) d.push([b.name, b.value]);
  window.__submitted = {data: d, action: e.target.getAttribute('action'),
                        method: e.target.method};
});
document.addEventListener('click', e => {
  const a = e.target.closest && e.target.closest('a');
  if (a) { window.__left = a.getAttribute('href'); e.preventDefault(); }
});
"""


class Broken(Exception):
    """the browser itself does not answer"""


class Browser:
    def __init__(self, where=None):
        import kaleido

        exe = os.path.join(os.path.dirname(kaleido.__file__), "executable")
        self.dir = tempfile.mkdtemp(prefix="verif-browser-", dir=where)
        path = os.path.join(self.dir, "harness.js")
        with open(path, "w") as f:
            f.write(HARNESS)
        pid = os.open(os.path.join(self.dir, "pid"), os.O_CREAT | os.O_WRONLY)
        env = dict(os.environ, HOME=self.dir, TMPDIR=self.dir)
        self.p = subprocess.Popen(
            [os.path.join(exe, "kaleido"), "plotly", f"--plotlyjs={path}",
             "--disable-gpu", "--no-sandbox", "--disable-breakpad",
             "--disable-dev-shm-usage"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, start_new_session=True,
            # known even if this process ends right now
            preexec_fn=lambda: os.write(pid, str(os.getpid()).encode()),
        )
        os.close(pid)
        if b'"code": 0' not in self.p.stdout.readline():
            raise Broken("the browser did not start")

    def _call(self, data):
        line = json.dumps(dict(
            data=data, format="json", width=100, height=100, scale=1)) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
            ans = self.p.stdout.readline()
        except OSError as e:
            raise Broken(str(e))
        if not ans:
            raise Broken("no answer")
        ans = json.loads(ans)
        if ans["code"]:
            raise Broken(ans["message"])
        return ans["result"]

    def open(self, html, width=1400, height=900):
        self._call(dict(html=html, width=width, height=height))

    def do(self, js, arg=None):
        return json.loads(self._call(dict(js=js, arg=arg)))

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def end_all(where):
    """browsers of workers that are gone"""
    for d in glob.glob(os.path.join(where, "verif-browser-*", "pid")):
        try:
            os.killpg(int(open(d).read()), signal.SIGKILL)
        except (OSError, ValueError):
            pass


def plotly_tag():
    import plotly

    p = os.path.join(os.path.dirname(plotly.__file__), "package_data", "plotly.min.js")
    return f'<script src="file://{p}"></script>'


def static(url):
    """contents of one of the application's own files"""
    path = os.path.join(REPO, "static", url.split("/static/", 1)[1].split("?")[0])
    return open(path, encoding="utf-8").read()


def page_html(text):
    """the page with its scripts inside it"""
    def script(m):
        src = m.group(1) or m.group(2)
        if "plotly" in src.rsplit("/", 1)[-1]:
            return plotly_tag()
        if "/static/" in src:
            return f"<script>{static(src)}</script>"
        return ""

    text = re.sub(
        r"""<script\b[^>]*\bsrc\s*=\s*(?:"([^"]*)"|'([^']*)')[^>]*>\s*</script>""",
        script, text)

    def link(m):
        h = re.search(r"""href\s*=\s*["']([^"']*)["']""", m.group(0))
        if h and "/static/" in h.group(1):
            return f"<style>{static(h.group(1))}</style>"
        return ""

    text = re.sub(r"<link\b[^>]*>", link, text)
    head = text.find("<head>") + len("<head>")
    return text[:head] + f"<script>{PRELUDE}</script>" + text[head:]
