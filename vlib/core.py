"""Shared machinery: running cases over worker processes, verdicts, evidence."""
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Violation(Exception):
    """The observed execution refutes the property."""

    def __init__(self, what, **witness):
        super().__init__(what)
        self.what = what
        self.witness = witness


class Skip(Exception):
    """The generated case cannot be decided (counted, never a verdict)."""


class CaseTimeout(Exception):
    pass


class Obs:
    """What the monitor saw in one case."""

    def __init__(self):
        self.n = {}
        self.keys = set()
        self.sample = None

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, *key):
        """a distinct non-trivial situation, by its contents"""
        h = hashlib.blake2b(
            repr(key).encode(), digest_size=8
        ).hexdigest()
        self.keys.add(h)


def rnd(prop, seed, index):
    return random.Random(f"{prop}/{seed}/{index}")


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def _alarm(*_):
    raise CaseTimeout()


def run_case(args):
    """Run one case in a worker, return a plain result."""
    prop, seed, index, tier, limit = args
    from . import props

    fn = props.REGISTRY[prop].case
    if getattr(props.REGISTRY[prop], "pristine", False):
        from . import pristine

        pristine.start()
    obs = Obs()
    out = dict(index=index, status="held", obs=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(rnd(prop, seed, index), obs, tier, index)
    except Violation as e:
        out.update(
            status="violation",
            what=e.what,
            witness=jsonable(e.witness),
            trace=traceback.format_exc()[-4000:],
        )
    except Skip as e:
        out.update(status="skip", what=str(e))
    except CaseTimeout:
        out.update(status="timeout", what=f"no answer within {limit}s")
    except MemoryError:
        out.update(status="error", what="memory")
    except Exception as e:  # unexpected
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = bool(tb) and any(
            f.filename.startswith(REPO + "/") for f in tb
        )
        # An error raised while the library handles valid input means it does
        # not do what the property says; an error elsewhere is the harness's.
        out.update(
            status="violation" if in_repo else "error",
            what=f"unexpected {type(e).__name__}: {e}",
            witness={},
            trace=traceback.format_exc()[-4000:],
        )
    finally:
        signal.alarm(0)
    out["n"] = obs.n
    out["keys"] = list(obs.keys)
    out["sample"] = jsonable(obs.sample) if obs.sample is not None else None
    return out


def load_known(prop):
    """known findings of this property, identified by mechanism"""
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("kind") == "known":
                res.append(d)
    return res


def main(prop, tier, seed, cases=None, only=None):
    import multiprocessing as mp
    from . import props

    P = props.REGISTRY[prop]
    t0 = time.time()
    n_cases = cases or P.cases[tier]
    budget = 420 if tier == "quick" else 3 * 3600
    indices = [only] if only is not None else list(range(n_cases))
    limit = getattr(P, "limit", 120)
    total = {}
    keys = set()
    samples = []
    status = dict(held=0, violation=0, skip=0, timeout=0, error=0)
    skip_reasons = {}
    bad = []
    stopped = False
    if getattr(P, "setup", None):
        P.setup()
    nproc = min(8, os.cpu_count() or 1, len(indices))
    ctx = mp.get_context("fork")
    jobs = [(prop, seed, i, tier, limit) for i in indices]
    if nproc <= 1:
        pool, it = None, map(run_case, jobs)
    else:
        pool = ctx.Pool(nproc, maxtasksperchild=getattr(P, "maxtasks", 200))
        it = pool.imap_unordered(run_case, jobs, chunksize=1)
    try:
        for r in it:
            status[r["status"]] += 1
            for k, v in r["n"].items():
                total[k] = total.get(k, 0) + v
            keys.update(r["keys"])
            if r["sample"] is not None and len(samples) < 3:
                samples.append(r["sample"])
            if r["status"] in ("violation", "error", "timeout"):
                bad.append(r)
                if sum(b["status"] == "violation" for b in bad) >= 5:
                    stopped = True
                    break
                if len(bad) > 50:
                    stopped = True
                    break
            elif r["status"] == "skip":
                skip_reasons[r["what"]] = skip_reasons.get(r["what"], 0) + 1
            if time.time() - t0 > budget:
                stopped = True
                break
    finally:
        if pool:
            pool.terminate()
            pool.join()
        if getattr(P, "teardown", None):
            P.teardown()

    viol = [b for b in bad if b["status"] == "violation"]
    known = load_known(prop)
    reported = []
    for v in viol:
        k = next((k for k in known if k["match"] in v["what"]), None)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            reported.append(v)
    for k in known:
        if not any(k["match"] in v["what"] for v in viol):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evaluations = status["held"] + status["violation"]
    if only is None:
        ev = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level="exploration",
            coverage=dict(
                evaluations=evaluations,
                distinct_nontrivial=len(keys),
                rule=P.rule,
                samples=samples,
                observed=total,
                outcomes=status,
                skipped=skip_reasons,
                stopped_early=stopped,
            ),
            assumptions=getattr(P, "assumptions", []),
            wall_s=round(time.time() - t0, 2),
            violations=len(reported),
        )
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    code = 0
    if reported:
        code = 1
        for i, v in enumerate(reported[:5]):
            path = os.path.join(evdir, f"replay-{prop}-{v['index']}.json")
            with open(path, "w") as f:
                json.dump(
                    dict(
                        property=prop,
                        seed=seed,
                        tier=tier,
                        index=v["index"],
                        what=v["what"],
                        witness=v["witness"],
                        trace=v["trace"],
                        replay=f"python check.py replay {path}",
                    ),
                    f,
                    indent=1,
                )
            print(f"  {v['what'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
    others = [b for b in bad if b["status"] in ("error", "timeout")]
    if others and code == 0:
        for b in others[:3]:
            print(f"INCONCLUSIVE case {b['index']}: {b['what']}")
            print(b.get("trace", ""))
        code = 2
    if code == 0 and only is None:
        need = P.minimum
        for k, v in need.items():
            got = len(keys) if k == "distinct" else total.get(k, 0)
            if tier == "quick" and got < v:
                print(f"INCONCLUSIVE: monitor saw {got} '{k}', needs {v}")
                code = 2
    print(
        f"{prop} {tier} seed={seed}: {status} distinct={len(keys)} "
        f"observed={total} wall={time.time() - t0:.1f}s"
    )
    return code
