"""Replays behaviours of spec/Integrate.tla into the real diffeqsolve."""
import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS
  MaxSteps = {max_steps}
  T1s <- {t1s}
  Y0s <- {y0s}
  Dt0s = {dt0s}
  Dts = {dts}
  Keeps = {keeps}
  Gaps = {gaps}
  CFails = {cfails}
  BadWidths = {badw}
  Subs <- {subs}
  TsChoices <- MCTs
  EvCfgs <- {evs}
  RootFind = {root}
  DenseTimes <- MCDense
  Tag = "{tag}"
INVARIANTS Tiling Rollback SaveCorrect DenseCorrect Outcome EventCorrect Emit
{live}
"""

SUBS = [
    dict(t0=True, ts=True, steps=0, t1=True, fn="ty"),
    dict(t0=False, ts=False, steps=1, t1=False, fn="y"),
    dict(t0=False, ts=False, steps=2, t1=True, fn="ty"),
    dict(t0=True, ts=True, steps=3, t1=True, fn="y"),
    dict(t0=False, ts=False, steps=0, t1=True, fn="y"),
    dict(t0=False, ts=True, steps=0, t1=False, fn="y"),
    dict(t0=False, ts=True, steps=1, t1=True, fn="ty"),
]
SUBS_NOSTEPS = [s for s in SUBS if s["steps"] == 0]

EVENTS = {
    "NoEv": None,
    "EvA": [("bool", "y", "any"), ("float", "y", "any"), ("float", "t", "up")],
    "EvB": [("float", "y", "up"), ("float", "y", "down"), ("float", "t", "any")],
}

BASE = dict(
    max_steps=5, t1s="MCT1s", y0s="Y1", dt0s="{64, 300}", dts="{64, 160}", keeps="{TRUE, FALSE}",
    gaps="{0}", cfails="{FALSE}", badw="{0}", subs="MCSubs", evs="NoEv", root="FALSE",
    live="PROPERTY Terminates", tag="",
)


def models(family, tier):
    """(name, cfg overrides, simulate) triples."""
    big = tier == "thorough"
    out = []
    if family == "main":
        out.append(("main", dict(), None))
        out.append(("main", dict(max_steps=4, gaps="{0, 1, 33}", dts="{64, 160}", dt0s="{64}"), None))
        out.append(("main", dict(gaps="{0, 1, 33}", cfails="{TRUE, FALSE}", badw="{0, 48, 160, 64}",
                                 y0s="Y3", dts="{32, 64, 96, 160}", dt0s="{32, 64, 160, 300}",
                                 max_steps=5), 6000 if big else 1200))
        out.append(("main", dict(t1s="MCT0", y0s="Y3"), None))
        out.append(("nomax", dict(max_steps=0, subs="MCSubsNoSteps", keeps="{TRUE}", dts="{96, 160}", gaps="{0, 1}",
                                  y0s="Y2"), None))
        if big:
            out.append(("main7", dict(max_steps=7), None))
    elif family == "event":
        for g in "AB":
            for root in ("FALSE", "TRUE"):
                n = 2 if root == "TRUE" else 1
                nm = f"ev{g}{'r' if root == 'TRUE' else ''}"
                out.append((nm, dict(evs=f"Ev{g}{n}", root=root, keeps="{TRUE, FALSE}", max_steps=3,
                                     y0s="Y1", dt0s="{64}", gaps="{0}"), None))
                out.append((nm, dict(evs=f"Ev{g}{n}", root=root, gaps="{0, 1, 33}" if root == "FALSE" else "{0}",
                                     max_steps=5, cfails="{FALSE}", badw="{0, 64, 160}", y0s="Y4",
                                     dt0s="{32, 64, 160, 300}", dts="{32, 64, 96, 160}"),
                            4000 if big else 700))
                out.append((nm, dict(evs=f"Ev{g}{n}", root=root, t1s="MCT0", y0s="Y4"), None))
    return out


def program_static(name):
    """Static shape of the compiled program that replays model `name`."""
    if name.startswith("main"):
        return dict(max_steps=None, subs="all", events="NoEv", root=False, dense=True)
    if name == "nomax":
        return dict(max_steps=None, subs="nosteps", events="NoEv", root=False, dense=False)
    if name.startswith("ev"):
        return dict(max_steps=None, subs="all", events="Ev" + name[2], root=name.endswith("r"), dense=True)
    raise KeyError(name)


def run_models(rep, family, tier, seed):
    """Model-checks the family and returns {program key: [behaviour, ...]}."""
    import concurrent.futures as cf

    ms = models(family, tier)

    def go(i_m):
        i, (name, over, sim) = i_m
        c = dict(BASE)
        c.update(over)
        c["tag"] = f"{name}#{i}"
        if sim:
            c["live"] = ""
        return name, c, tlc("MCLoop", CFG.format(**c), simulate=sim, seed=seed * 1000 + i, depth=20, workers=2)

    with cf.ThreadPoolExecutor(4) as ex:
        runs = list(ex.map(go, enumerate(ms)))
    progs = {}
    for name, c, run in runs:
        rep.model(run)
        key = (name, c["max_steps"])
        progs.setdefault(key, []).extend(run.behaviours)
    return progs


# ----------------------------------------------------------------- implementation


def build(name, max_steps, nslots=12, throw=False):
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp
    import optimistix as optx

    from . import scripted as sc

    st = program_static(name)
    subs = SUBS if st["subs"] == "all" else SUBS_NOSTEPS
    kinds = EVENTS[st["events"]]
    msteps = None if max_steps == 0 else max_steps

    def tick(t, args):
        return args["sgn"] * (t - args["off"])

    def ty(t, y, args):
        return 1000 * tick(t, args) + y["a"]

    def make_event(thr2, args0):
        if kinds is None:
            return None
        fns, dirs = [], []
        for i, (kind, on, d) in enumerate(kinds):
            def fn(t, y, args, *, i=i, kind=kind, on=on, **kw):
                v = 2 * (y["a"] if on == "y" else tick(t, args)) - args["thr2"][i]
                return v >= 0 if kind == "bool" else v
            fns.append(fn)
            dirs.append({"any": None, "up": True, "down": False}[d])
        rf = optx.Newton(rtol=1e-10, atol=1e-10) if st["root"] else None
        # a dictionary-in-list structure, flattening in the same order
        return dfx.Event({"p": fns[0], "q": fns[1:]}, rf, {"p": dirs[0], "q": dirs[1:]})

    @eqx.filter_jit
    def solve(row):
        off, sgn = row["off"], row["sgn"]
        args = dict(off=off, sgn=sgn, base=sgn * off, badw=row["badw"], thr2=row["thr2"])
        ts = off + sgn * row["ts"]
        subsaveats = []
        for s in subs:
            kw = dict(t0=s["t0"], t1=s["t1"], steps=s["steps"])
            if s["ts"]:
                kw["ts"] = ts
            if s["fn"] == "ty":
                kw["fn"] = ty
            subsaveats.append(dfx.SubSaveAt(**kw))
        saveat = dfx.SaveAt(
            subs=subsaveats, dense=st["dense"], solver_state=True, controller_state=True,
            made_jump=True,
        )
        y0 = dict(a=row["y0"], log=jnp.zeros((nslots + 1, 6), row["y0"].dtype))
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, a: y),
            sc.Method(),
            off,
            off + sgn * row["t1"],
            sgn * row["dt0"],
            y0,
            args,
            saveat=saveat,
            stepsize_controller=sc.Controller(row["keep"], row["dt"], row["gap"], row["cfail"], rows=nslots),
            event=make_event(None, None),
            max_steps=msteps,
            throw=throw,
        )
        out = dict(
            ts=sol.ts,
            ys=[y["a"] if isinstance(y, dict) else y for y in sol.ys],
            # the log saved alongside the first plain request
            result=sc.result_vec(sol.result),
            stats={k: v for k, v in sol.stats.items() if v is not None},
            ss=sol.solver_state,
            mj=jnp.asarray(sol.made_jump),
            cs=sol.controller_state,
            t0=sol.t0,
            t1=sol.t1,
        )
        if kinds is not None:
            em = sol.event_mask
            out["em"] = jnp.stack([jnp.asarray(em["p"])] + [jnp.asarray(x) for x in em["q"]])
        if st["dense"]:
            q = off + sgn * row["dq"]
            import jax

            out["dl"] = jax.vmap(lambda t: sol.evaluate(t)["a"])(q)
            out["dr"] = jax.vmap(lambda t: sol.evaluate(t, left=False)["a"])(q)
            out["dk"] = jax.vmap(lambda t: sol.derivative(t)["a"])(q)
            out["dincr"] = jax.vmap(lambda t: sol.evaluate(q[0], t)["a"])(q)
            out["dt0"] = sol.interpolation.t0
            out["dt1"] = sol.interpolation.t1
        return out

    return solve, subs, kinds, st


DENSE_Q = [0, 1, 63, 64, 65, 100, 128, 160, 161, 200, 224, 255, 256, 257]


def to_row(b, off, sgn, dtype, nslots=12):
    s = b["script"]
    pad = lambda xs, d: np.array(list(xs) + [d] * (nslots - len(xs)))
    f = lambda x: np.asarray(x, dtype)
    # padding verdicts are "accept, huge step": never consulted in a correct replay
    return dict(
        off=f(off), sgn=f(sgn), t1=f(b["cfg"]["t1"]), dt0=f(b["cfg"]["dt0"]), y0=f(b["cfg"]["y0"]),
        badw=f(b["cfg"]["badw"]), ts=f(b["cfg"]["ts"]),
        thr2=f([e["thr2"] for e in b["cfg"]["evs"]] or [0]),
        keep=pad([x["keep"] for x in s], True).astype(bool),
        dt=pad([x["dt"] for x in s], 1000).astype(dtype),
        gap=pad([x["gap"] for x in s], 0).astype(dtype),
        cfail=pad([x["cfail"] for x in s], False).astype(bool),
        dq=f(DENSE_Q),
    )


def out_size(sub, nts, max_steps):
    n = int(sub["t0"]) + (nts if sub["ts"] else 0)
    if sub["steps"]:
        n += max_steps // sub["steps"]
    if sub["t1"] and (max_steps == 0 or sub["steps"] == 0 or max_steps % sub["steps"] != 0):
        n += 1
    return n


def compare(b, out, subs, kinds, st, off, sgn, dtype):
    """Yields (clause, detail) for every observable that differs from the behaviour.

    Clause names start with the property they belong to."""
    from . import scripted as sc

    bad = []
    exactish = 1e-6 if dtype == "float64" else 1e-3

    def q(x):
        return x[0] / x[1]

    def close(a, bb):
        return abs(a - bb) <= exactish * max(1.0, abs(bb))

    def note(clause, got, want):
        bad.append((clause, dict(got=np.asarray(got).tolist(), want=want)))

    user = lambda tick: off + sgn * tick
    # --- outcome
    res = sc.result_name(out["result"])
    if res != b["res"]:
        note("L05:result", res, b["res"])
    stt = {k: int(v) for k, v in out["stats"].items()}
    want = dict(num_steps=b["ns"], num_accepted_steps=b["na"], num_rejected_steps=b["nr"])
    if b["maxsteps"]:
        want["max_steps"] = b["maxsteps"]
    for k, v in want.items():
        if stt.get(k) != v:
            note("L05:stats." + k, stt.get(k), v)
    # --- attempts
    n, log = int(out["cs"][0]), np.asarray(out["cs"][1])
    if n != len(b["att"]):
        note("L05:attempts", n, len(b["att"]))
    for i, a in enumerate(b["att"][:n]):
        r = log[i]
        if (r[0], r[1]) != (a["t0"], a["t1"]) or (r[2], r[3]) != (a["t0"], a["t1"]):
            note(f"L01:interval of attempt {i}", r[:4], [a["t0"], a["t1"]])
            break
        if (r[4], r[5], r[6]) != (a["ss"], float(a["mj"]), a["y0"]):
            note(f"L02:inputs of attempt {i}", r[4:7], [a["ss"], a["mj"], a["y0"]])
            break
        if r[7] != a["y1"] or r[8] != float(a["keep"]):
            note(f"L02:outputs of attempt {i}", r[7:9], [a["y1"], a["keep"]])
            break
    if float(out["ss"]) != b["ss"]:
        note("L02:final method memory", out["ss"], b["ss"])
    if bool(out["mj"]) != b["mj"]:
        note("L02:final jump flag", bool(out["mj"]), b["mj"])
    if float(out["t0"]) != user(0) or float(out["t1"]) != user(b["cfg"]["t1"]):
        note("L01:reported interval", [out["t0"], out["t1"]], [user(0), user(b["cfg"]["t1"])])
    # --- saves
    for i, s in enumerate(subs):
        want = b["saves"][i]
        ts, ys = np.asarray(out["ts"][i]), np.asarray(out["ys"][i])
        size = out_size(s, len(b["cfg"]["ts"]), b["maxsteps"])
        if len(ts) != size or len(ys) != size:
            note(f"L03:request {i} size", [len(ts), len(ys)], size)
            continue
        if len(want) > size:
            note(f"L03:request {i} overflow", size, len(want))
            continue
        for j, e in enumerate(want):
            ok = (close if e["t"][1] != 1 or e["v"][1] != 1 else lambda x, y: x == y)
            if not ok(float(ts[j]), user(q(e["t"]))):
                note(f"L03:request {i} time {j}", ts, [user(q(x["t"])) for x in want])
                break
            if not ok(float(ys[j]), q(e["v"])):
                note(f"L03:request {i} value {j}", ys, [q(x["v"]) for x in want])
                break
        else:
            if not (np.all(ts[len(want):] == np.inf) and np.all(ys[len(want):] == np.inf)):
                note(f"L03:request {i} padding", [ts.tolist(), ys.tolist()], len(want))
    # --- dense
    if st["dense"]:
        for side, key in (("left", "dl"), ("right", "dr")):
            for t, w, g in zip(DENSE_Q, b[key], np.asarray(out[key])):
                if w["nan"]:
                    if not np.isnan(g):
                        note(f"L04:dense {side} outside", [t, g], "nan")
                        break
                elif g != w["v"]:
                    note(f"L04:dense {side} at {t}", g, w["v"])
                    break
        if b["cfg"]["t1"] > 0 and b["na"] > 0:
            for t, w, g in zip(DENSE_Q, b["dl"], np.asarray(out["dk"])):
                if not w["nan"] and g != sgn * w["k"]:
                    note(f"L04:dense derivative at {t}", g, sgn * w["k"])
                    break
            for t, w, g in zip(DENSE_Q, b["dl"], np.asarray(out["dincr"])):
                if not w["nan"] and g != w["v"] - b["cfg"]["y0"]:
                    note(f"L04:dense increment to {t}", g, w["v"] - b["cfg"]["y0"])
                    break
        if b["cfg"]["t1"] > 0 and (float(out["dt0"]), float(out["dt1"])) != (user(0), user(b["tp"])):
            note("L04:dense range", [out["dt0"], out["dt1"]], [user(0), user(b["tp"])])
    # --- events
    if kinds is not None:
        if not (b["res"] not in ("successful", "event_occurred", "max_steps_reached")):
            if [bool(x) for x in out["em"]] != b["evm"]:
                note("E01:event mask", out["em"], b["evm"])
    return bad


def replay(name, max_steps, behaviours, dtype, plan):
    """Worker: replays behaviours; `plan` lists (off, sgn) pairs to use in rotation."""
    import jax

    solve, subs, kinds, st = build(name, max_steps)
    bad, n = [], 0
    for i, b in enumerate(behaviours):
        off, sgn = plan[i % len(plan)]
        out = jax.device_get(solve(to_row(b, off, sgn, dtype)))
        n += 1
        for clause, d in compare(b, out, subs, kinds, st, off, sgn, dtype):
            bad.append((clause, dict(d, model=b["tag"], off=off, sgn=sgn, dtype=dtype,
                                     cfg=b["cfg"], script=b["script"])))
        if len(bad) > 40:
            break
    return n, bad


def replay_throw(name, max_steps, behaviours, dtype, plan):
    """Worker: with throw=True a solve raises exactly when it fails, and is otherwise as without."""
    import jax

    solve, subs, kinds, st = build(name, max_steps, throw=True)
    bad, n = [], 0
    for i, b in enumerate(behaviours):
        off, sgn = plan[i % len(plan)]
        where = dict(model=b["tag"], off=off, sgn=sgn, dtype=dtype, cfg=b["cfg"], script=b["script"], throw=True)
        fails = b["res"] not in ("successful", "event_occurred")
        n += 1
        try:
            out = jax.device_get(solve(to_row(b, off, sgn, dtype)))
        except Exception as e:
            if not fails:
                bad.append(("L05:raised though it did not fail", dict(where, got=f"{type(e).__name__}: {e}"[:300], want=b["res"])))
            continue
        if fails:
            bad.append(("L05:failed without raising", dict(where, want=b["res"])))
            continue
        bad += [(c, dict(d, **where)) for c, d in compare(b, out, subs, kinds, st, off, sgn, dtype)]
    return n, bad


def throwing(rep, progs, seed, cap):
    """A sample of behaviours, of every outcome, solved with throw=True."""
    import random

    rng, jobs = random.Random(seed), []
    for (name, m), bs in sorted(progs.items()):
        by = {}
        for b in bs:
            by.setdefault(b["res"], []).append(b)
        some = [b for r in sorted(by) for b in rng.sample(by[r], min(cap, len(by[r])))]
        jobs.append((replay_throw, (name, m, some, "float64", PLAN)))
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, "solves allowed to raise")
        rep.extend([v for v in bad if v[0].startswith("L05")])


def replay_batched(name, max_steps, behaviours, dtype, plan, batch=32):
    """Worker: as `replay`, but many behaviours at once under jax.vmap. Every batch
    element must behave as it does on its own, i.e. exactly as specified."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    solve, subs, kinds, st = build(name, max_steps)
    vsolve = eqx.filter_jit(jax.vmap(lambda r: solve(r)))
    bad, n = [], 0
    for j in range(0, len(behaviours), batch):
        bs = behaviours[j : j + batch]
        if len(bs) < batch:
            bs = bs + behaviours[: batch - len(bs)]
        if len(bs) < batch:
            break
        ops = [plan[i % len(plan)] for i in range(batch)]
        rows = [to_row(b, o, s, dtype) for b, (o, s) in zip(bs, ops)]
        stacked = jax.tree_util.tree_map(lambda *xs: np.stack(xs), *rows)
        outs = jax.device_get(vsolve(stacked))
        for i, (b, (off, sgn)) in enumerate(zip(bs, ops)):
            out = jax.tree_util.tree_map(lambda x: x[i], outs)
            n += 1
            for clause, d in compare(b, out, subs, kinds, st, off, sgn, dtype):
                bad.append((clause, dict(d, model=b["tag"], off=off, sgn=sgn, batch=batch, lane=i,
                                         cfg=b["cfg"], script=b["script"])))
        if len(bad) > 40:
            break
    return n, bad


def replay_resume(behaviours, max_steps, dtype, plan, nslots=12):
    """Worker: two-leg behaviours of spec/Resume.tla."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from . import scripted as sc

    def leg(t0, t1, dt0, y0, args, row, **state):
        return dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, a: y), sc.Method(), t0, t1, dt0, y0, args,
            saveat=dfx.SaveAt(t1=True, solver_state=True, controller_state=True, made_jump=True),
            stepsize_controller=sc.Controller(row["keep"], row["dt"], row["gap"], row["cfail"], rows=nslots),
            max_steps=max_steps, throw=False, **state,
        )

    @eqx.filter_jit
    def run(row):
        off, sgn = row["off"], row["sgn"]
        args = dict(off=off, sgn=sgn, base=sgn * off, badw=row["badw"])
        y0 = dict(a=row["y0"], log=jnp.zeros((nslots + 1, 6), row["y0"].dtype))
        s1 = leg(off, off + sgn * row["t1"], sgn * row["dt0"], y0, args, row)
        y1 = jax.tree_util.tree_map(lambda x: x[-1], s1.ys)
        s2 = leg(s1.ts[-1], off + sgn * row["t2"], sgn * row["dt0b"], y1, args, row,
                 solver_state=s1.solver_state, controller_state=s1.controller_state,
                 made_jump=s1.made_jump)
        y2 = jax.tree_util.tree_map(lambda x: x[-1], s2.ys)
        f = lambda s: dict(t=s.ts[-1], res=sc.result_vec(s.result), ss=s.solver_state,
                           mj=jnp.asarray(s.made_jump),
                           stats={k: v for k, v in s.stats.items() if k != "max_steps"})
        return dict(f1=f(s1), f2=f(s2), a1=y1["a"], a2=y2["a"], cs=s2.controller_state)

    bad, n = [], 0
    for i, b in enumerate(behaviours):
        off, sgn = plan[i % len(plan)]
        c = dict(b, cfg=dict(b["first"]["cfg"], ts=[0]))
        row = to_row(c, off, sgn, dtype, nslots)
        row["t2"] = np.asarray(b["cfg"]["t1"], dtype)
        row["dt0b"] = np.asarray(b["cfg"]["dt0"], dtype)
        o = jax.device_get(run(row))
        n += 1

        def note(cl, got, want):
            bad.append(("C01:" + cl, dict(got=str(got), want=str(want), off=off, sgn=sgn,
                                          first=b["first"], cfg=b["cfg"], script=b["script"])))

        for nm, s, a, w in (("leg 1", o["f1"], o["a1"], b["first"]), ("leg 2", o["f2"], o["a2"], b)):
            got = (float(s["t"]), sc.result_name(s["res"]), float(s["ss"]), bool(s["mj"]), float(a),
                   int(s["stats"]["num_steps"]), int(s["stats"]["num_accepted_steps"]))
            want = (off + sgn * w["tp"], w["res"], float(w["ss"]), w["mj"], float(w["y"]), w["ns"], w["na"])
            if got != want:
                note(nm, got, want)
        k, log = int(o["cs"][0]), o["cs"][1]
        want = [[a["t0"], a["t1"], a["t0"], a["t1"], a["ss"], float(a["mj"]), a["y0"], a["y1"], float(a["keep"])]
                for a in b["att"]]
        if k != len(want) or log[:k].tolist() != want:
            note("attempts", log[:k].tolist(), want)
        if len(bad) > 20:
            break
    return n, bad


def chunks(xs, size):
    k = max(1, (len(xs) + size - 1) // size)
    return [xs[i::k] for i in range(k)]


PLAN = [(0.0, 1.0), (512.0, -1.0), (-37.0, 1.0), (5.0, -1.0)]
REV = [(512.0, -1.0), (5.0, -1.0), (0.0, -1.0)]


def run_family(rep, families, tier, seed, select, plan=PLAN, dtypes=("float64",), fn=replay,
               cap=None, chunk=1500, only=None):
    import random

    progs = {}
    for f in families:
        progs.update(run_models(rep, f, tier, seed))
    if only:
        progs = {k: v for k, v in progs.items() if only(k[0])}
    rng = random.Random(seed)
    for dt in dtypes:
        jobs = []
        for (name, m), bs in sorted(progs.items()):
            if cap and len(bs) > cap:
                bs = rng.sample(bs, cap)
            for c in chunks(bs, chunk):
                jobs.append((fn, (name, m, c, dt, plan)))
        jobs.sort(key=lambda j: -len(j[1][2]))
        for (f, a), (n, bad) in zip(jobs, pmap(jobs, x64=(dt == "float64"))):
            rep.validated(n, f"{a[0]} max_steps={a[1]} {dt}")
            rep.sample(dict(program=a[0], behaviour=a[2][0]["cfg"], script=a[2][0]["script"],
                            outcome=a[2][0]["res"]))
            rep.extend([(c, d) for c, d in bad if select(a[0], c)])
    return progs
