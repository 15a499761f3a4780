"""Step size controllers against spec/Clip.tla, spec/PID.tla and spec/Grid.tla."""
import random

import numpy as np

from .common import pmap, tlc
from .loop import chunks

# ------------------------------------------------------------------------- Clip

CLIP = """SPECIFICATION Spec
CONSTANTS T1 = 4000
 Dt0s = {{700, 5000}}
 Dts = {{700, 1500, 5000}}
 MaxSteps = {m}
 StepChoices <- {s}
 JumpChoices <- {j}
 StoreChoices = {n}
 Absent <- MCAbsent
INVARIANTS StepsHit JumpsAvoided JumpsTaken NoFalseAlarm Revisited StackOrdered Tiles Emit
{live}
"""
LIVE = "PROPERTY Terminates"


def clip_models(which, tier, seed):
    big = tier == "thorough"
    K3 = [("Step1", "JumpNo", "{0}", 4, None), ("StepNo", "Jump1", "{0}", 4, None),
          ("Step2", "Jump2", "{0}", 4, None), ("Step2", "Jump2", "{0}", 9, 20000 if big else 2500),
          ("StepNo", "Jump1", "{0}", 9, 20000 if big else 2500)]
    K4 = [("StepNo", "JumpNo", "{1}", 5, None), ("StepNo", "JumpNo", "{3}", 5, None),
          ("StepNo", "JumpNo", "{3}", 9, 20000 if big else 3000),
          ("Step2", "Jump2", "{2}", 9, 20000 if big else 3000)]
    return K3 if which == "K03" else K4


def replay_clip(behaviours, m, dtype, nested, plan):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from . import scripted as sc

    c0 = behaviours[0]["cfg"]
    rows = 12

    @eqx.filter_jit
    def run(row):
        off, sgn = row["off"], row["sgn"]
        args = dict(base=sgn * off, badw=jnp.zeros((), dtype))
        user = lambda x: off + sgn * x
        inner = sc.Adaptive(row["keep"], row["dt"], rows=rows)
        kw = {}
        if c0["hasstep"]:
            kw["step_ts"] = user(row["step"])
        if c0["hasjump"]:
            kw["jump_ts"] = user(row["jump"])
        if c0["store"]:
            kw["store_rejected_steps"] = c0["store"]
        if nested == "step":
            inner = dfx.ClipStepSizeController(inner, step_ts=kw.pop("step_ts"))
        elif nested == "jump":
            inner = dfx.ClipStepSizeController(inner, jump_ts=kw.pop("jump_ts"))
        elif nested == "split":
            js = kw.pop("jump_ts")
            inner = dfx.ClipStepSizeController(inner, jump_ts=js[::2])
            kw["jump_ts"] = js[1::2]
        ctrl = dfx.ClipStepSizeController(inner, **kw)
        y0 = dict(a=jnp.ones((), dtype), log=jnp.zeros((rows + 1, 6), dtype))
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, a: y), sc.Method(), off, user(row["t1"]), sgn * row["dt0"], y0, args,
            stepsize_controller=ctrl, max_steps=m, throw=False,
            saveat=dfx.SaveAt(t1=True, made_jump=True, controller_state=True),
        )
        cs = sol.controller_state.inner_state
        if nested:
            cs = cs.inner_state
        return dict(cs=cs, res=sc.result_vec(sol.result), t=sol.ts[-1], mj=jnp.asarray(sol.made_jump))

    bad, n = [], 0
    f = lambda x: np.asarray(x, dtype)
    for i, b in enumerate(behaviours):
        off, sgn = plan[i % len(plan)]
        s = b["script"]
        pad = lambda xs, d: np.array(list(xs) + [d] * (rows - len(xs)))
        order = -1 if i % 2 else 1  # the given times need not be sorted
        row = dict(off=f(off), sgn=f(sgn), t1=f(b["t1"]), dt0=f(b["cfg"]["dt0"]),
                   keep=pad([x["keep"] for x in s], True).astype(bool),
                   dt=pad([x["dt"] for x in s], 5000).astype(dtype),
                   step=f(b["cfg"]["step"][::order]), jump=f(b["cfg"]["jump"][::order]))
        o = jax.device_get(run(row))
        n += 1
        k, log = int(o["cs"][0]), np.asarray(o["cs"][1])
        got = [[r[0], r[1], r[5] != 0, r[8] != 0] for r in log[:k].tolist()]
        want = [[a["t0"], a["t1"], a["mj"], a["keep"]] for a in b["att"]]
        r = sc.result_name(o["res"])
        t = (float(o["t"]) - off) * sgn
        if got != want or r != b["res"] or t != b["tp"] or bool(o["mj"]) != b["mj"]:
            bad.append(("steps made", dict(got=got, want=want, result=(r, b["res"]), t=(t, b["tp"]),
                                           mj=(bool(o["mj"]), b["mj"]), off=off, sgn=sgn, dtype=dtype,
                                           nested=nested, cfg=b["cfg"], script=s)))
        if len(bad) > 20:
            break
    return n, bad


def clip_backward(rep, tier, seed):
    """Solves backwards in time with declared times and discontinuities and with revisited steps (for D01)."""
    jobs = []
    base = float(2**52 + 2**20)
    for i, (s, j, n, m) in enumerate([("Step2", "Jump2", "{0}", 9), ("Step2", "Jump2", "{2}", 9)]):
        r = tlc("MCClip", CLIP.format(s=s, j=j, n=n, m=m, live=""), simulate=8000 if tier == "thorough" else 1200,
                seed=seed * 100 + 50 + i, depth=15, workers=3)
        rep.model(r)
        groups = {}
        for b in r.behaviours:
            groups.setdefault((b["cfg"]["hasstep"], b["cfg"]["hasjump"], b["cfg"]["store"]), []).append(b)
        for g in groups.values():
            g = random.Random(seed).sample(g, min(len(g), 20000 if tier == "thorough" else 900))
            jobs += [(replay_clip, (c, m, "float64", "", [(base, -1.0), (-base, -1.0)])) for c in chunks(g, 1500)]
    return jobs


def clip(rep, which, tier, seed):
    import concurrent.futures as cf

    ms = clip_models(which, tier, seed)

    def go(i_m):
        i, (s, j, n, m, sim) = i_m
        return m, tlc("MCClip", CLIP.format(s=s, j=j, n=n, m=m, live="" if sim else LIVE),
                      simulate=sim, seed=seed * 100 + i, depth=15, workers=3)

    with cf.ThreadPoolExecutor(3) as ex:
        runs = list(ex.map(go, enumerate(ms)))
    rng = random.Random(seed)
    for dtype in ("float64", "float32") if tier == "thorough" else ("float64",):
        base = float(2**52 + 2**20) if dtype == "float64" else float(2**23 + 2**15)
        plan = [(base, 1.0), (base, -1.0), (-base, 1.0), (-base, -1.0)]
        jobs = []
        for m, r in runs:
            if dtype == "float64":
                rep.model(r)
            bs = r.behaviours
            if tier == "quick" and len(bs) > 3000:
                bs = rng.sample(bs, 3000)
            groups = {}
            for b in bs:
                c = b["cfg"]
                groups.setdefault((c["hasstep"], c["hasjump"], c["store"]), []).append(b)
            for key, g in groups.items():
                for ch in chunks(g, 1500):
                    jobs.append((replay_clip, (ch, m, dtype, "", plan)))
                # the same, with the work divided between two nested controllers
                some = [b for b in g if len(b["cfg"]["jump"]) > 1] or g
                some = rng.sample(some, min(len(some), 600))
                for how in (("step", "jump") if key[0] and key[1] else ()) + (("split",) if key[1] else ()):
                    # (the nesting order shows when a forced time is next to a discontinuity)
                    part = [b for b in some if how == "step" or
                            not any(abs(x - j) < 3 for x in b["cfg"]["step"] for j in b["cfg"]["jump"])]
                    if part:
                        jobs.append((replay_clip, (part, m, dtype, how, plan)))
        jobs.sort(key=lambda j: -len(j[1][0]))
        for (fn, a), (n, bad) in zip(jobs, pmap(jobs, x64=dtype == "float64")):
            rep.validated(n, f"clipped solves {dtype}")
            rep.sample(dict(cfg=a[0][0]["cfg"], script=a[0][0]["script"]))
            rep.extend([(f"{which}:{c}", d) for c, d in bad])
    rep.assumptions.append("a step of length zero is never rejected; marked times are not adjacent floating point numbers")


# ------------------------------------------------------------------------- Grid


def record_grids(cases, dtype):
    """Worker: solves with the library's fixed-step controllers; returns the observed step ends, in ticks.

    The step ends are what the vector field's solver was actually given: they are logged by the scripted method."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from . import scripted as sc

    out = []
    jit = {}
    for c in cases:
        n = c["max"]
        unit = c["unit"]

        def solve(off, sgn, T, d, want, thr, kind=c["kind"], n=n):
            args = dict(base=jnp.zeros((), dtype), badw=jnp.zeros((), dtype))
            y0 = dict(a=jnp.ones((), dtype), log=jnp.zeros((n + 2, 6), dtype))
            kw = {}
            t1 = off + sgn * T
            ev = None
            if kind == "given":
                ctrl, dt0 = dfx.StepTo(jnp.concatenate([off[None], off + sgn * want])), None
            else:
                ctrl, dt0 = dfx.ConstantStepSize(), sgn * d
            if kind == "free":
                t1 = sgn * jnp.inf
                ev = dfx.Event(lambda t, y, a, **k: sgn * (t - off) >= thr)
            sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), sc.Method(), off, t1, dt0, y0, args,
                                  stepsize_controller=ctrl, max_steps=n, throw=False, event=ev)
            return sol.ys["log"][-1], sol.stats["num_steps"], sc.result_vec(sol.result)

        key = (c["kind"], n, len(c.get("want", [])))
        if key not in jit:
            jit[key] = eqx.filter_jit(solve)
        f = lambda x: np.asarray(x, dtype)
        off, sgn = c["off"], c["sgn"]
        log, ns, res = jax.device_get(jit[key](f(off), f(sgn), f(c["T"] * unit), f(c["d"] * unit),
                                               f([w * unit for w in c.get("want", [])] or [0]), f(c.get("thr", 0) * unit)))
        k = int(log[0, 0])
        # a solve backwards in time sees negated times
        ends = [(float(x) - sgn * off) / unit for x in log[1 : k + 1, 1]]
        starts = [(float(x) - sgn * off) / unit for x in log[1 : k + 1, 0]]
        gap = max([abs(a - b) for a, b in zip(starts, [0.0] + ends)] or [0])
        out.append(dict(c, ends=ends, ns=int(ns), res=sc.result_name(res), gap=gap))
    return out


def k01(rep, tier, seed):
    rng = random.Random(seed)
    micro = 4096  # recorded times are rounded to 1/4096 of a tick
    for dtype in ("float64", "float32"):
        cases = []
        big = tier == "thorough"
        for T, d in [(12, 1), (12, 3), (12, 5), (7, 2), (10, 3), (10, 4), (9, 9), (5, 20), (1000, 1), (997, 10), (64, 7)]:
            for off, sgn, unit in ((0.0, 1.0, 1.0), (3.0, 1.0, 0.1), (2.0, -1.0, 0.1), (-1.0, -1.0, 0.3), (0.0, 1.0, 1e-3)):
                cases.append(dict(kind="constant", T=T, d=d, off=off, sgn=sgn, unit=unit, max=1100 if T > 100 else 64))
        for _ in range(300 if big else 60):
            T = rng.randint(1, 60)
            off, unit = rng.choice([(0.0, 0.1), (0.0, 0.7), (0.0, 0.01), (1.0, 0.25), (-7.0, 0.5), (-3.0, 1.0)])
            cases.append(dict(kind="constant", T=T, d=rng.randint(max(1, T // 25), T + 3), off=off,
                              sgn=rng.choice([1.0, -1.0]), unit=unit, max=64))
        for d, thr in ((1, 10), (3, 20), (7, 30)):
            for sgn in (1.0, -1.0):
                cases.append(dict(kind="free", T=0, d=d, thr=thr - 0.5, off=0.0, sgn=sgn, unit=0.5, max=32))
        for _ in range(200 if big else 60):
            n = rng.choice([1, 2, 5, 9])
            want = sorted(rng.sample(range(1, 60), n))
            cases.append(dict(kind="given", T=want[-1], d=0, want=want, off=rng.choice([0.0, 1.0, -8.0]),
                              sgn=rng.choice([1.0, -1.0]), unit=rng.choice([1.0, 0.25]), max=32))
        groups = {}
        for c in cases:
            groups.setdefault((c["kind"], c["max"], len(c.get("want", []))), []).append(c)
        jobs = [(record_grids, (ch, dtype)) for g in groups.values() for ch in chunks(g, 80)]
        recs = [r for rs in pmap(jobs, x64=dtype == "float64") for r in rs]
        eps = 2.0**-52 if dtype == "float64" else 2.0**-23
        tla = []
        for r in recs:
            rep.validated(1, f"fixed-step solves {dtype}")
            ok_res = "event_occurred" if r["kind"] == "free" else "successful"
            if r["res"] != ok_res or r["ns"] != len(r["ends"]):
                rep.violate("K01:outcome", r)
            if r["gap"] > 0:
                rep.violate("K01:steps do not follow on from one another", r)
            # rounding: a few ulp of the largest time involved
            err = 8 * eps * (abs(r["off"]) / r["unit"] + max(r["T"], r.get("thr", 0), 1))
            ends = [x + 0 for x in r["ends"]]
            want = r.get("want", [])
            if r["kind"] == "given":
                bad = len(ends) != len(want) or any(abs(a - b) > err for a, b in zip(ends, want))
            elif r["kind"] == "constant" and r["T"] % r["d"] == 0:
                bad = any(abs(x - (j + 1) * r["d"]) > err for j, x in enumerate(ends))
            else:
                bad = bool(ends) and r["kind"] == "constant" and abs(ends[-1] - r["T"]) > err
            if bad:
                rep.violate("K01:step ends (to rounding)", r)
            ints = [round(x * micro) for x in ends]
            if r["kind"] == "constant" and ends and abs(ends[-1] - r["T"]) <= err:
                ints[-1] = r["T"] * micro
            if r["kind"] == "given" and not bad:
                ints = [w * micro for w in want]
            tla.append("[kind |-> \"%s\", T |-> %d, d |-> %d, ts |-> <<%s>>, want |-> <<%s>>]" % (
                r["kind"], r["T"] * micro, r["d"] * micro, ", ".join(map(str, ints)),
                ", ".join(str(w * micro) for w in want)))
        mod = "---- MODULE GridData ----\nEXTENDS Grid\nData == <<\n" + ",\n".join(tla) + "\n>>\n====\n"
        run = tlc("GridData", "SPECIFICATION Spec\nCONSTANTS Recorded <- Data\n Slack = 2\nINVARIANTS Accepted Complete\n",
                  extra_files=[("GridData.tla", mod)], workers=4, expect_ok=False)
        rep.model(run)
        if run.violated:
            if run.violated in ("Accepted", "Complete"):
                rep.violate("K01:recorded steps are not allowed by Grid.tla (" + run.violated + ")", run.output[-1500:])
            else:
                from .common import MachineryError

                raise MachineryError(run.output[-3000:])
        rep.sample(dict(recorded=recs[0]))


# -------------------------------------------------------------------------- PID

PIDCFG = """SPECIFICATION Spec
CONSTANTS Configs <- {c}
 Errs <- {e}
 Cuts = {cuts}
 MaxAtt = {m}
 Zero <- MCZero
 Inf <- MCInf
 None <- MCNone
INVARIANTS InRange TolKept NotFussy Shrinks Memory NoForce Emit
"""
INITCFG = """SPECIFICATION Spec
CONSTANTS D0s <- S0
 D1s <- S1
 D2s <- S2
 Orders = {1, 2, 5}
 Zero <- MCZero
INVARIANTS Careful Emit
"""
ZERO, INF, NONE = 1000, 1001, -100000


def realisations():
    """Ways of presenting a scaled error s: name -> (rtol, atol, norm, complex?, s -> (y0, y1, y_error))."""
    import jax.numpy as jnp
    import optimistix as optx

    a = 2.0**-10
    nan = jnp.nan
    return {
        "absolute": (0.0, a, None, lambda s: (1.0, 5.0, s * a)),
        "relative to the end": (a, a, None, lambda s: (1.0, -3.0, -s * 4 * a)),
        "relative to the start": (a, a, None, lambda s: (-7.0, 1.0, s * 8 * a)),
        "vector, each entry with its own scale": (
            a, a, None,
            lambda s: (jnp.array([3.0, -1.0]), jnp.array([0.0, 7.0]), s * jnp.array([4 * a, -8 * a]))),
        "tree": (
            a, a, None,
            lambda s: (dict(p=jnp.array([3.0, 0.0]), q=(jnp.array(1.0), jnp.array([[0.0]]))),
                       dict(p=jnp.array([-1.0, 3.0]), q=(jnp.array(-3.0), jnp.array([[-1.0]]))),
                       # mean of squares over all entries of all leaves: (0 + 0 + 0 + 4) / 4
                       dict(p=jnp.array([0.0, 0.0]), q=(jnp.array(0.0), jnp.where(s == 0, 0.0, s) * 4 * jnp.array([[a]]))))),
        "maximum": (
            a, a, optx.max_norm,
            lambda s: (jnp.array([3.0, 7.0]), jnp.array([0.0, 1.0]), jnp.array([-s * 4 * a, s * a]))),
        "complex": (
            a, a, None,
            lambda s: (jnp.array(3.0 + 4.0j) * 0.6, jnp.array(1.0j), (s * 4 * a) * jnp.array(1.0 + 0.0j))),
        "undefined candidate": (
            a, a, None,
            lambda s: (jnp.array([3.0, 3.0]), jnp.array([nan, 1e6]), s * 4 * a * jnp.ones(2))),
    }


def replay_pid(behaviours, name, t0s):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from . import scripted as sc

    rtol, atol, norm, present = realisations()[name]
    c = behaviours[0]["cfg"]
    p2 = lambda u: 2.0 ** (u / 120)
    opt = lambda u: None if u == NONE else p2(u)
    kw = dict(norm=norm) if norm is not None else {}
    own_order = behaviours[0]["own"]
    if own_order:
        kw["error_order"] = c["k"]
    ctrl = dfx.PIDController(
        rtol=rtol, atol=atol, pcoeff=c["p"] / 10, icoeff=c["i"] / 10, dcoeff=c["d"] / 10, dtmin=opt(c["dtmin"]),
        dtmax=opt(c["dtmax"]), force_dtmin=c["force"], factormin=p2(c["fmin"]), factormax=p2(c["fmax"]),
        safety=p2(c["safety"]), **kw)
    k = 7 if own_order else c["k"]

    @jax.jit
    @jax.vmap
    def run(s, h, t0):
        y0, y1, _ = present(s[0])
        t, st = ctrl.init(dfx.ODETerm(lambda t, y, a: y), t0, t0 + 1e6, y0, p2(c["dt0"]), None,
                          lambda terms, t, y, args: y, k)
        first = t - t0
        out = []
        for i in range(s.shape[0]):
            y0, y1, err = present(s[i])
            a, b = t0, t0 + h[i]
            keep, na, nb, mj, st, res = ctrl.adapt_step_size(a, b, y0, y1, None, err, k, st)
            out.append((keep, na - jnp.where(keep, b, a), nb - na, jnp.asarray(mj), sc.result_vec(res)))
        return first, out

    m = max(len(b["hist"]) for b in behaviours)
    val = lambda n: 0.0 if n == ZERO else np.inf if n == INF else 2.0**n
    S = np.array([[val(a["n"]) for a in b["hist"]] + [1.0] * (m - len(b["hist"])) for b in behaviours])
    H = np.array([[p2(a["h"]) for a in b["hist"]] + [1.0] * (m - len(b["hist"])) for b in behaviours])
    T = np.array([t0s[i % len(t0s)] for i in range(len(behaviours))])
    first, out = jax.device_get(run(S, H, T))
    bad, n = [], 0
    for i, b in enumerate(behaviours):
        n += 1
        info = lambda **kw: dict(realisation=name, t0=T[i], cfg=c, hist=b["hist"], **kw)
        # lengths are differences of times
        tol = lambda *us: 1e-9 + sum(2.0**-50 * (abs(T[i]) + p2(u)) / p2(u) for u in us)
        if abs(first[i] / p2(b["first"]) - 1) > tol(b["first"]):
            bad.append(("first step", info(got=first[i], want=p2(b["first"]))))
        for j, a in enumerate(b["hist"]):
            keep, off, dt, mj, res = (x[i] for x in out[j])
            r = sc.result_name(res)
            if bool(keep) != a["keep"]:
                bad.append(("accept or reject", info(attempt=j, got=bool(keep), want=a["keep"])))
            elif off != 0:
                bad.append(("where the next step starts", info(attempt=j, off=off)))
            elif r != ("dt_min_reached" if a["fail"] else "successful"):
                bad.append(("result", info(attempt=j, got=r, want=a["fail"])))
            elif mj:
                bad.append(("announced a discontinuity", info(attempt=j)))
            elif not abs(dt / p2(a["next"]) - 1) < tol(a["h"], a["next"]):
                bad.append(("next step size", info(attempt=j, got=dt, want=p2(a["next"]))))
            else:
                continue
            break
        if len(bad) > 20:
            break
    return n, bad


def replay_init(behaviours):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    bad, n = [], 0
    scale = 2.0**-7

    for rtol, how in ((0.0, "t"), (2.0**-8, "t"), (0.0, "y")):
        for k in sorted({b["in"]["k"] for b in behaviours}):
            bs = [b for b in behaviours if b["in"]["k"] == k]

            def go(d0, d1, d2, t0):
                # |y0| / (atol + rtol |y0|) = d0 with atol + rtol |y0| = scale
                y = d0 * scale
                atol = scale - rtol * jnp.abs(y)
                q = jnp.where(d1 == 0, 0.0, d2 / jnp.where(d1 == 0, 1.0, d1))
                f = lambda t, z, a: d1 * scale + (d2 * scale * (t - t0) if how == "t" else q * (z - y))
                ctrl = dfx.PIDController(rtol=rtol, atol=atol)
                t, _ = ctrl.init(dfx.ODETerm(f), t0, t0 + 10, y, None, None, lambda terms, t, y, a: terms.vf(t, y, a), k)
                return t - t0

            v = lambda x: 0.0 if x == ZERO else 2.0**x
            D = [np.array([v(b["in"][f"d{j}"]) for b in bs]) for j in range(3)]
            got = np.asarray(jax.jit(jax.vmap(go, in_axes=(0, 0, 0, None)))(*D, 0.0))
            for b, g in zip(bs, got):
                i = b["in"]
                if rtol and i["d0"] != ZERO and i["d0"] >= 8:
                    continue
                if how == "y" and (i["d1"] == ZERO or i["d1"] < -10):  # the probe must move y
                    continue
                n += 1
                want = (100.0 ** -b["c"] * 2.0 ** (b["u"] / 60)) ** (1 / b["root"])
                # f1 - f0 is computed with rounding
                if not abs(g / want - 1) < 1e-5:
                    bad.append(("automatic first step", dict(problem=i, got=g, want=want, rtol=rtol, depends_on=how)))
    return n, bad[:20]


def e2e_undefined():
    """A method whose step is undefined (NaN) when it is too long: such steps are rejected."""
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp
    from typing import ClassVar

    bad, n = [], 0
    for part in ("error", "both"):
        class Fragile(dfx.AbstractAdaptiveSolver):
            term_structure: ClassVar = dfx.AbstractTerm
            interpolation_cls: ClassVar = dfx.LocalLinearInterpolation

            def order(self, terms):
                return 1

            def init(self, terms, t0, t1, y0, args):
                return None

            def func(self, terms, t0, y0, args):
                return terms.vf(t0, y0, args)

            def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
                nan = jnp.where(t1 - t0 > 0.3, jnp.nan, 0.0)
                y1 = y0 + (t1 - t0) + (nan if part == "both" else 0)
                return y1, nan + 0 * y0, dict(y0=y0, y1=y1), None, dfx.RESULTS.successful

        for sgn in (1.0, -1.0):
            sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: y), Fragile(), 0.0, sgn * 4.0, sgn * 1.0, jnp.array([0.0, 1.0]),
                                  stepsize_controller=dfx.PIDController(rtol=1e-3, atol=1e-3),
                                  saveat=dfx.SaveAt(steps=True), max_steps=200, throw=False)
            n += 1
            ts = np.asarray(sol.ts)
            ts = np.concatenate([[0.0], ts[np.isfinite(ts)]])
            ys = np.asarray(sol.ys)[: len(ts) - 1]
            if (sol.result != dfx.RESULTS.successful) or np.abs(np.diff(ts)).max() > 0.3 or not np.isfinite(ys).all() \
                    or np.abs(ys[-1] - [4.0, 5.0]).max() > 1e-9:
                bad.append(("undefined step kept", dict(part=part, sgn=sgn, ts=ts.tolist(), ys=ys.tolist(), result=str(sol.result))))
    return n, bad


def k02(rep, tier, seed):
    big = tier == "thorough"
    rng = random.Random(seed)
    runs = [tlc("MCPID", PIDCFG.format(c="All", e="FewErrs", cuts="{0}", m=4), workers=4),
            tlc("MCPID", PIDCFG.format(c="Limits", e="FewErrs", cuts="{0, 77}", m=3), workers=4),
            tlc("MCPID", PIDCFG.format(c="All", e="ManyErrs", cuts="{0, 77, 500}", m=9), simulate=20000 if big else 2500,
                seed=seed, depth=12)]
    ini = tlc("MCInitStep", INITCFG, workers=2)
    rep.model(ini)
    groups = {}
    for r in runs:
        rep.model(r)
        for b in r.behaviours:
            groups.setdefault(str(b["cfg"]), []).append(b)
    jobs = []
    names = list(realisations())
    for i, g in enumerate(groups.values()):
        tied = g[0]["cfg"]["dtmin"] != NONE
        rng.shuffle(g)
        for j, nm in enumerate(names):
            some = g if big else g[j * 150 : j * 150 + 150]
            some = [dict(b, own=bool((i + j) % 2)) for b in some]
            if some:
                jobs.append((replay_pid, (some, nm, [0.0] if tied else [0.0, 16.0, -3.0])))
    jobs.append((replay_init, (ini.behaviours,)))
    jobs.append((e2e_undefined, ()))
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, f.__name__)
        if f is replay_pid:
            rep.sample(dict(cfg=a[0][0]["cfg"], hist=a[0][0]["hist"], realisation=a[1]))
        rep.extend([("K02:" + c, d) for c, d in bad])
    rep.assumptions.append("step size comparisons against dtmin that would be decided by rounding are not explored")
