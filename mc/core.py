"""Exploration core.

A property module defines

    PROP, LEVEL, TECHNIQUE, RULE
    cases(tier)  -> deterministic iterator of JSON-able case descriptors (the
                    bounded space, enumerated completely, simplest first)
    run(case, ctx) -> executes the case on the real code from /repo and returns
                    None; findings are reported with ctx.fail(sig, msg)

The core stripes the space over worker processes, runs every case, guards each
one with a time limit, survives (and reports) dying workers, applies the
known-findings file, writes replay artefacts and the evidence file and turns the
result into the exit status.
"""

import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MESHIO_REPO", "/repo")
NWORKERS = int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))
KNOWN = os.path.join(VERIF, "known_findings.json")


class CaseTimeout(BaseException):
    pass


class WriteFailed(Exception):
    pass


def jdump(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"), default=str)


def digest(obj):
    if isinstance(obj, bytes):
        return hashlib.sha1(obj).hexdigest()[:16]
    return hashlib.sha1(jdump(obj).encode()).hexdigest()[:16]


# --------------------------------------------------------------------------
# environment
# --------------------------------------------------------------------------
def setup_import():
    """Make sure meshio comes from /repo's working tree, and silence rich."""
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import meshio

    got = os.path.realpath(meshio.__file__)
    if not got.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"meshio imported from {got}, not from {src}")
    patch_rich()
    return meshio


CONSOLE = []  # text of what meshio told the user (warnings, errors)


def patch_rich():
    # Console output is slow and noisy. This is a seam in a third-party library,
    # not in meshio: every message still gets recorded.
    import rich.console

    def _print(self, *args, **kwargs):
        if len(CONSOLE) < 200:
            CONSOLE.append(" ".join(str(a) for a in args))

    rich.console.Console.print = _print


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="mcscratch-", dir=base)


# --------------------------------------------------------------------------
# the per-case context
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, mod, tier, root):
        self.mod = mod
        self.tier = tier
        self.root = root
        self.fails = []
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = {}
        self.n = 0
        self._dirs = 0

    def fail(self, sig, msg=""):
        self.fails.append((str(sig), str(msg)[:1500]))

    def state(self, key):
        """Record a distinct model state (hashable or JSON-able)."""
        self.states.add(key if isinstance(key, str) else digest(key))

    def step(self, n=1):
        """Record executed transitions (operations on the real code)."""
        self.transitions += n

    def trace(self, n=1):
        """Record an execution of the real code compared with the model."""
        self.traces += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def newdir(self):
        self._dirs += 1
        d = os.path.join(self.root, f"c{self._dirs}")
        os.mkdir(d)
        return d


def run_one(mod, case, ctx, limit):
    ctx.fails = []
    ctx.n += 1
    CONSOLE.clear()
    cdir = ctx.newdir()
    os.chdir(cdir)
    ctx.dir = cdir

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, ctx)
    except CaseTimeout:
        ctx.fail("timeout", f"the case did not finish within {limit} s")
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        ctx.fail(f"exception:{type(e).__name__}", f"{e}\n{tb}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(ctx.root)
        shutil.rmtree(cdir, ignore_errors=True)
    return ctx.fails


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
def _worker(mod, tier, k, n, start, root, out_path, progress_path, limit, deadline):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    wroot = os.path.join(root, f"w{k}-{start}")
    os.mkdir(wroot)
    ctx = Ctx(mod, tier, wroot)
    viol = []
    nviol = 0
    samples = []
    capped = False
    prog = open(progress_path, "wb", buffering=0)
    idx = -1
    for idx, case in enumerate(mod.cases(tier)):
        if idx % n != k or idx < start:
            continue
        if time.time() > deadline:
            capped = True
            break
        prog.seek(0)
        prog.write(b"%12d" % idx)
        fails = run_one(mod, case, ctx, limit)
        if fails:
            nviol += 1
            if len(viol) < 4000:
                viol.append({"idx": idx, "case": case, "fails": fails})
            if os.environ.get("MC_FAILFAST"):  # (for experiments)
                break
        if len(samples) < 2 or (ctx.n % 997 == 0 and len(samples) < 6):
            samples.append(case)
    fin = getattr(mod, "finish_worker", None)
    if fin:
        fin(ctx)
    with open(out_path + ".tmp", "w") as f:
        json.dump(
            {
                "n": ctx.n,
                "total": idx + 1,
                "transitions": ctx.transitions,
                "traces": ctx.traces,
                "states": sorted(ctx.states),
                "outcomes": ctx.outcomes,
                "viol": viol,
                "nviol": nviol,
                "samples": samples,
                "capped": capped,
            },
            f,
            default=str,
        )
    os.rename(out_path + ".tmp", out_path)
    shutil.rmtree(wroot, ignore_errors=True)


def explore(mod, tier, deadline):
    limit = getattr(mod, "CASE_LIMIT", 60)
    root = scratch_root()
    results = []
    died = []
    try:
        live = {}

        def spawn(k, start):
            tag = f"{k}-{start}"
            outp = os.path.join(root, f"out-{tag}.json")
            progp = os.path.join(root, f"prog-{tag}")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(
                        mod, tier, k, NWORKERS, start, root, outp, progp, limit, deadline
                    )
                except BaseException:
                    code = 77
                    try:
                        with open(outp + ".err", "w") as f:
                            f.write(traceback.format_exc())
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            live[pid] = (k, start, outp, progp)

        for k in range(NWORKERS):
            spawn(k, 0)
        while live:
            pid, status = os.wait()
            if pid not in live:
                continue
            k, start, outp, progp = live.pop(pid)
            if status == 0 and os.path.exists(outp):
                with open(outp) as f:
                    results.append(json.load(f))
                continue
            if os.path.exists(outp + ".err"):
                with open(outp + ".err") as f:
                    raise RuntimeError("worker failed outside a case:\n" + f.read())
            # died inside a case (signal): that is an observation
            with open(progp, "rb") as f:
                txt = f.read().strip()
            idx = int(txt) if txt else start
            died.append((idx, status))
            if len(died) > 20:
                break
            spawn(k, idx + 1)
    finally:
        for pid in list(locals().get("live", {})):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(root, ignore_errors=True)
    if died:
        dd = dict(died)
        vs = []
        for idx, case in enumerate(mod.cases(tier)):
            if idx in dd:
                vs.append(
                    {
                        "idx": idx,
                        "case": case,
                        "fails": [("crash", f"the process died, status {dd[idx]}")],
                    }
                )
        results.append(
            {
                "n": len(vs), "total": 0, "transitions": 0, "traces": 0, "states": [],
                "outcomes": {"crash": len(vs)}, "viol": vs, "nviol": len(vs),
                "samples": [], "capped": False,
            }
        )
    return results


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def _submatch(pat, val):
    if isinstance(pat, dict):
        if set(pat) == {"$in"}:
            return val in pat["$in"]
        return isinstance(val, dict) and all(
            k in val and _submatch(v, val[k]) for k, v in pat.items()
        )
    return pat == val


def match_known(known, case, fail):
    for e in known:
        if e.get("sig") is not None and e["sig"] != fail[0]:
            continue
        if e.get("msg_contains") and e["msg_contains"] not in fail[1]:
            continue
        if not any(_submatch(p, case) for p in e["cases"]):
            continue
        return e
    return None


# --------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------
def load(prop):
    return importlib.import_module(f"mc.props.{prop.lower()}")


def main(prop, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    setup_import()
    mod = load(prop)
    budget = float(os.environ.get("MC_BUDGET", "780" if tier == "quick" else "6000"))
    results = explore(mod, tier, t0 + budget)

    states = set()
    n = trans = traces = 0
    outcomes = {}
    viol = []
    samples = []
    capped = False
    total = 0
    for r in results:
        states.update(r["states"])
        n += r["n"]
        trans += r["transitions"]
        traces += r["traces"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        viol += r["viol"]
        samples += r["samples"]
        capped = capped or r["capped"]
        total = max(total, r["total"])
    viol.sort(key=lambda v: v["idx"])
    samples.sort(key=lambda s: (len(jdump(s)), jdump(s)))

    known = load_known(mod.PROP)
    hits = {}
    fresh = []
    for v in viol:
        rest = []
        for fl in v["fails"]:
            e = match_known(known, v["case"], fl)
            if e is None:
                rest.append(fl)
            else:
                hits.setdefault(e["id"], [e, 0])[1] += 1
        if rest:
            fresh.append({**v, "fails": rest})

    for eid in sorted(hits):
        e, cnt = hits[eid]
        print(
            f"KNOWN-FINDING: property={mod.PROP} {eid}: {e['what']} "
            f"({cnt} explored case(s))"
        )

    cov = {
        "evaluations": n,
        "rule": mod.RULE,
        "samples": samples[:3] + samples[-3:],
        "outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
        "distinct_outcomes": len(outcomes),
        "exhaustive": (not capped) and n >= total,
        "space_size": total,
        "workers": NWORKERS,
    }
    if mod.LEVEL == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = trans
        cov["traces_validated_against_impl"] = traces
    else:
        cov["distinct_nontrivial"] = len(states)
        cov["operations"] = trans
    cov.update(getattr(mod, "COVERAGE_EXTRA", {}))
    cov["known_findings_observed"] = sorted(hits)
    ev = {
        "property": mod.PROP,
        "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    edir = os.environ.get("MC_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    evp = os.path.join(edir, f"{mod.PROP}.json")
    with open(evp + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    os.rename(evp + ".tmp", evp)

    # vacuity guard: an exploration that did nothing is an error of the check
    floor = getattr(mod, "MIN_CASES", 1)
    if n < floor and not fresh:
        print(f"ERROR: only {n} cases explored (expected at least {floor})")
        return 3

    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        shown = 0
        sigs = {}
        for v in fresh:
            for s, _ in v["fails"]:
                sigs[s] = sigs.get(s, 0) + 1
        for v in fresh:
            key = (v["fails"][0][0], mod.key(v["case"]) if hasattr(mod, "key") else v["case"].get("f", str(v["case"].get("c"))) if isinstance(v["case"], dict) else None)
            if key in seen:
                continue
            seen.add(key)
            if shown >= int(os.environ.get("MC_SHOW", "12")):
                break
            shown += 1
            rp = os.path.join(rdir, f"{mod.PROP}-{digest(v['case'])}.json")
            with open(rp, "w") as f:
                json.dump(
                    {"property": mod.PROP, "case": v["case"], "fails": v["fails"],
                     "how": f"cd {VERIF} && ./check {mod.PROP} --replay {rp}"},
                    f, indent=1, default=str,
                )
            print(f"VIOLATION property={mod.PROP} replay={rp}")
            print("   case: " + jdump(v["case"])[:600])
            for s, m in v["fails"][:3]:
                print(f"   [{s}] " + m[:700].replace("\n", "\n      "))
        print(f"{len(fresh)} violating case(s) of {n}; signatures: {sigs}")
        return 1
    print(
        f"OK property={mod.PROP} cases={n} states={len(states)} transitions={trans} "
        f"traces={traces} outcomes={len(outcomes)} exhaustive={cov['exhaustive']} "
        f"wall={ev['wall_s']}s"
    )
    return 0


def replay(prop, path):
    setup_import()
    mod = load(prop)
    with open(path) as f:
        case = json.load(f)["case"]
    outs = []
    for _ in range(2):
        root = scratch_root()
        try:
            ctx = Ctx(mod, "quick", root)
            outs.append(list(run_one(mod, case, ctx, getattr(mod, "CASE_LIMIT", 60))))
        finally:
            os.chdir(VERIF)
            shutil.rmtree(root, ignore_errors=True)
    if [s for s, _ in outs[0]] != [s for s, _ in outs[1]]:
        print("NONDETERMINISTIC replay")
    for s, m in outs[0]:
        print(f"[{s}] {m}")
    if outs[0]:
        print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    print("replay: property held")
    return 0


# --------------------------------------------------------------------------
# deviation-bounded product
# --------------------------------------------------------------------------
def deviations(axes, bound, full=()):
    """All assignments of the axes that differ from the default (first value) in
    at most `bound` axes; the axes named in `full` are always enumerated
    completely and cost nothing. Fewest deviations first."""
    import itertools

    names = [a for a in axes if a not in full]
    fulls = [a for a in axes if a in full]
    base = {a: axes[a][0] for a in axes}
    fullprod = list(itertools.product(*[axes[a] for a in fulls]))
    for d in range(bound + 1):
        for combo in itertools.combinations(names, d):
            for vals in itertools.product(*[axes[a][1:] for a in combo]):
                for fv in fullprod:
                    out = dict(base)
                    out.update(zip(fulls, fv))
                    out.update(zip(combo, vals))
                    yield out
