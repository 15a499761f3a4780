"""Shared machinery: running TLC, collecting behaviours, reporting verdicts."""
import concurrent.futures as cf
import dataclasses
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")


class MachineryError(Exception):
    """Something about the checking machinery itself (not a verdict)."""


class ImplementationCrash(Exception):
    """diffrax itself raised on a problem that the specification says is legal."""


# --------------------------------------------------------------------------- TLC


@dataclasses.dataclass
class TlcRun:
    module: str
    cfg: str
    states: int
    distinct: int
    depth: int
    behaviours: list
    wall: float
    violated: str | None = None
    output: str = ""
    mode: str = "bfs"


def tlc(
    module,
    cfg,
    *,
    simulate=None,
    seed=1,
    depth=100,
    workers=4,
    env=None,
    expect_ok=True,
    timeout=800,
    extra_files=(),
    prefix="BEHAVIOUR ",
):
    """Runs TLC on spec/<module>.tla with spec/<cfg> (or cfg text) and returns the
    parsed behaviours it printed."""
    work = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in extra_files:
            with open(os.path.join(work, name), "w") as fh:
                fh.write(text)
        cfgname = cfg
        if "\n" in cfg:
            cfgname = "Generated.cfg"
            with open(os.path.join(work, cfgname), "w") as fh:
                fh.write(cfg)
        cmd = ["tlc", "-deadlock", "-config", cfgname, "-metadir", os.path.join(work, "md")]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed),
                    "-workers", "1"]
        else:
            cmd += ["-workers", str(workers)]
        cmd += [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        e.setdefault("JAVA_TOOL_OPTIONS", "-Xmx3g -XX:+UseParallelGC")
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}/{cfgname}")
        wall = time.time() - t
        out = p.stdout
        seen, beh = set(), []
        rest = []
        for line in out.splitlines():
            s = line.strip()
            if s.startswith('"' + prefix):
                if s not in seen:
                    seen.add(s)
                    beh.append(json.loads(json.loads(s)[len(prefix):]))
            else:
                rest.append(line)
        rest = "\n".join(rest)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", rest)
        num = lambda x: int(x.replace(",", ""))
        gen, dist = (num(m[-1][0]), num(m[-1][1])) if m else (0, 0)
        if simulate:
            m = re.findall(r"number of states generated: ([\d,]+)", rest)
            gen = dist = num(m[-1]) if m else 0
        m = re.findall(r"depth of the complete state graph search is (\d+)", rest)
        dep = int(m[-1]) if m else 0
        violated = None
        m = re.search(r"(?:Invariant|Action property|property) (\S+) (?:is|was) violated|POSTCONDITION|Postcondition (\S+)", rest)
        if "Model checking completed. No error" not in rest and not simulate:
            violated = (m.group(1) or m.group(2) or "postcondition") if m else "error"
        if simulate and re.search(r"^Error:", rest, re.M):
            violated = m.group(1) if m else "error"
        if violated and expect_ok:
            raise MachineryError(
                f"specification check failed: {module}/{cfgname}: {violated}\n" + rest[-6000:]
            )
        return TlcRun(module, cfgname, gen, dist, dep, beh, wall, violated, rest,
                      "simulate" if simulate else "bfs")
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------------- JAX workers


def jax_env():
    os.environ.setdefault("HOME", "/root")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ.setdefault("EQX_ON_ERROR", "raise")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
    # one thread per worker: the pool provides the parallelism
    os.environ["XLA_FLAGS"] = os.environ.get("XLA_FLAGS", "") + (
        " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
        if "xla_cpu_multi_thread_eigen" not in os.environ.get("XLA_FLAGS", "")
        else ""
    )


def _worker_init(x64):
    jax_env()
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import jax

    jax.config.update("jax_enable_x64", bool(x64))


def _call(fn, args):
    try:
        return ("ok", fn(*args))
    except Exception:
        return ("exc", traceback.format_exc())


# what a traceback shows when the library, and not the harness, refused a legal problem: a
# frame of the library, or its own run-time error reaching us through XLA's callback
_FROM_LIBRARY = (REPO + "/diffrax/", "_EquinoxRuntimeError", "EquinoxRuntimeError")


def pmap(jobs, x64=True, procs=8):
    """Runs [(fn, args), ...] in fresh worker processes; returns results in order.

    An exception escaping a job is an implementation-side crash on a legal input; the job
    functions are expected to handle that themselves, so here it is a machinery error."""
    ctx = mp.get_context("spawn")
    n = min(procs, max(1, len(jobs)))
    ex = cf.ProcessPoolExecutor(n, mp_context=ctx, initializer=_worker_init, initargs=(x64,))
    try:
        futs = [ex.submit(_call, fn, args) for fn, args in jobs]
        out = []
        for (fn, args), f in zip(jobs, futs):
            tag, val = f.result()
            if tag == "exc":
                if any(m in val for m in _FROM_LIBRARY):
                    raise ImplementationCrash(val[-4000:])
                raise MachineryError(f"worker {fn.__name__} failed:\n{val}")
            out.append(val)
        return out
    finally:
        # the results are in: a worker that cannot leave cleanly must not hold the check up
        workers = list((ex._processes or {}).values())
        leave = threading.Thread(target=lambda: ex.shutdown(wait=True, cancel_futures=True), daemon=True)
        leave.start()
        leave.join(20)
        if leave.is_alive():
            for w in workers:
                w.kill()
            leave.join(5)


# ----------------------------------------------------------------------- verdict


class Report:
    """Accumulates what a check did and what it found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.violations = []
        self.known = []
        self.clauses = {}

    def model(self, run):
        self.states += run.distinct
        self.transitions += run.states
        self.notes.setdefault("tlc_runs", []).append(
            dict(module=run.module, cfg=run.cfg, mode=run.mode, states=run.distinct,
                 transitions=run.states, behaviours=len(run.behaviours),
                 wall_s=round(run.wall, 2)))

    def validated(self, n, what=None):
        self.traces += int(n)
        if what:
            c = self.notes.setdefault("validated", {})
            c[what] = c.get(what, 0) + int(n)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violate(self, clause, detail):
        self.violations.append(dict(clause=clause, detail=detail))

    def extend(self, vs):
        for clause, detail in vs:
            self.violate(clause, detail)


def finish(rep, level):
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    replay = None
    if rep.violations:
        rdir = os.path.join(evd, "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, f"{rep.prop}.json")
        with open(replay, "w") as fh:
            json.dump(rep.violations[:50], fh, indent=1, default=str)
    cov = dict(
        states=rep.states,
        transitions=rep.transitions,
        traces_validated_against_impl=rep.traces,
        samples=rep.samples,
        **rep.notes,
    )
    ev = dict(
        property=rep.prop,
        tier=rep.tier,
        seed=rep.seed,
        level=level,
        coverage=cov,
        wall_s=round(time.time() - rep.t0, 2),
        assumptions=rep.assumptions,
        violations=[
            dict(clause=v["clause"], detail=str(v["detail"])[:2000]) for v in rep.violations[:20]
        ],
    )
    with open(os.path.join(evd, f"{rep.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k in rep.known:
        print(f"KNOWN-FINDING: property={rep.prop} {k}")
    if rep.violations:
        v = rep.violations[0]
        print(f"clause: {v['clause']}")
        print(f"detail: {str(v['detail'])[:3000]}")
        print(f"({len(rep.violations)} mismatches in total)")
        print(f"VIOLATION property={rep.prop} replay={replay}")
        return 1
    print(
        f"OK property={rep.prop} tier={rep.tier} states={rep.states} "
        f"transitions={rep.transitions} traces={rep.traces} wall={ev['wall_s']}s"
    )
    return 0
