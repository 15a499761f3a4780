"""spec/Mirror.tla: a backward solve against the mirrored forward solve, with the library's own parts."""
import random

import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS Families <- MCFamilies
 SolversOf <- MCSolversOf
 Controllers <- MCControllers
 Events <- MCEvents
 Adjoints <- MCAdjoints
 Values <- MCValues
 N = 3
INVARIANTS SameView Emit
"""


def assemble(prob, path, max_steps=400):
    """The solve of one problem of the specification, as a function of the side of the mirror, the
    parameters, the initial value and where on the time axis it happens."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    from .paths import LinearPath
    from .solvers import fixed_newton

    here = dict(T0=0.25, T=1.5, dt=1.0, level=0.0, scale=1.0)
    fam, name = prob["family"], prob["solver"]
    pw = np.repeat(np.array(path, float), 1)
    knots = np.linspace(-1.0, 3.0, len(path))
    add = name in ("SEA", "SRA1", "ShARK")
    half = name.startswith("Half")
    base = {"HalfEuler": "Euler", "HalfImplicit": "ImplicitEuler", "HalfSPaRK": "SPaRK"}.get(name, name)
    S = getattr(dfx, base)
    if isinstance(S, type) and issubclass(S, dfx.AbstractImplicitSolver) and not prob["controller"].startswith("pid"):
        solver = S(root_finder=fixed_newton())
    else:
        solver = S()
    if half:
        solver = dfx.HalfSolver(solver)

    def f0(t, y, p):
        return p["k"] * jnp.array([y[1] + 0.3 * jnp.sin(t), -y[0] * (1 + 0.1 * t) - 0.2 * y[1]]) + jnp.where(t > 0.8, 0.7, 0.0) * jnp.array([1.0, -0.5])

    def g0(t, y, p):
        if add:
            return p["k"] * jnp.array([[0.3 + 0.1 * t], [0.2 * jnp.cos(t)]])
        return p["k"] * jnp.array([[0.3 + 0.1 * t * y[1]], [0.2 * jnp.cos(y[0])]])

    def build(sgn, w):
        """terms of the (mirrored) problem"""
        g = lambda t, y, a: g0(a["sgn"] * t, y, a)

        def f(t, y, a):
            out = a["sgn"] * f0(a["sgn"] * t, y, a)
            if name == "ItoMilstein":
                # an Ito equation retraced backwards: the mirrored drift carries the correction
                gg = jax.jvp(lambda z: g(t, z, a)[:, 0], (y,), (g(t, y, a)[:, 0],))[1]
                out = out + jnp.where(a["sgn"] > 0, 0.0, 1.0) * gg
            return out

        kn = jnp.where(sgn > 0, knots, -knots[::-1])
        vals = w["scale"] * jnp.where(sgn > 0, pw, pw[::-1])
        if fam == "ode":
            return dfx.ODETerm(f)
        if fam == "split":
            stiff = lambda t, y, a: -a["sgn"] * 3.0 * y
            return dfx.MultiTerm(dfx.ODETerm(f), dfx.ODETerm(stiff))
        if fam == "partitioned":
            return (dfx.ODETerm(lambda t, y, a: a["sgn"] * a["k"] * (y + 0.1 * a["sgn"] * t)), dfx.ODETerm(lambda t, y, a: -a["sgn"] * y * jnp.cos(a["sgn"] * t)))
        if fam == "cde":
            ctl = dfx.LinearInterpolation(kn, vals[:, None] * 0.4)
            return dfx.MultiTerm(dfx.ODETerm(f), dfx.ControlTerm(g, ctl))
        return dfx.MultiTerm(dfx.ODETerm(f), dfx.ControlTerm(g, LinearPath(kn, vals[:, None] * 0.4, levy_area=dfx.SpaceTimeLevyArea)))

    def controller(sgn, w):
        c = prob["controller"]
        given = jnp.append(w["T0"] + (w["T"] - w["T0"]) * jnp.array([0.0, 0.04, 0.24, 0.36, 0.6, 0.68, 0.96]), w["T"])
        pid = dfx.PIDController(rtol=1e-3, atol=1e-4)
        marks = sgn * jnp.array([1.2, 0.8, 0.35, 9.0])
        ctrl, dt0 = {
            "constant": lambda: (dfx.ConstantStepSize(), 0.15),
            "given": lambda: (dfx.StepTo(sgn * given), None),
            "pid": lambda: (pid, None if fam not in ("sde", "cde") else 0.2),
            "pid-clip": lambda: (dfx.ClipStepSizeController(pid, step_ts=marks[:2] * 1.05, jump_ts=marks), 0.3),
            "pid-dtmin": lambda: (dfx.PIDController(rtol=1e-6, atol=1e-7, dtmin=0.06, dtmax=0.2, pcoeff=0.3, icoeff=0.4), 0.1),
            "pid-revisit": lambda: (dfx.ClipStepSizeController(pid, store_rejected_steps=40), 1.0),
        }[c]()
        return ctrl, None if dt0 is None else dt0 * w["dt"]

    def event(sgn, w):
        e = prob["event"]
        yy = (lambda y: y[0]) if fam == "partitioned" else (lambda y: y)
        if e == "none":
            return None
        if e == "state-any":
            return dfx.Event(lambda t, y, a, **k: yy(y)[0] - 0.55 + w["level"])
        if e == "state-up":
            return dfx.Event([lambda t, y, a, **k: 0.1 + 0.0 * t + yy(y)[1] * 0 + 5.0, lambda t, y, a, **k: 0.6 - w["level"] - yy(y)[0]],
                             optx.Newton(1e-10, 1e-10), direction=[None, True])
        if e == "time-root":
            return dfx.Event(lambda t, y, a, **k: sgn * t - 1.07 + w["level"] + 0.001 * yy(y)[1], optx.Newton(1e-10, 1e-10))
        return dfx.Event(lambda t, y, a, **k: (sgn * t > 0.95 - w["level"]) & (yy(y)[0] < 5))

    adj = prob["adjoint"]

    def run(sgn, p, y0, w=here):
        terms = build(sgn, w)
        ctrl, dt0 = controller(sgn, w)
        T0, T = w["T0"], w["T"]
        at = lambda *u: sgn * jnp.clip(T0 + (T - T0) * jnp.array(u), T0, T)
        y0_ = (y0, 0.5 * y0) if fam == "partitioned" else y0
        fn = lambda t, y, a: (sgn * t, y)
        simple = adj in ("backsolve",)
        ts = at(0.0, 0.12, 0.12, 0.416, 0.6)
        if simple:
            saveat = dfx.SaveAt(ts=at(0.12, 0.416, 0.6, 1.0))
        else:
            saveat = dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, t1=True, ts=ts, fn=fn), dfx.SubSaveAt(steps=2, t1=True, fn=fn),
                                      dfx.SubSaveAt(steps=True)], dense=adj in ("none", "direct"))
        kw = {}
        if adj == "direct":
            kw["adjoint"] = dfx.DirectAdjoint()
        elif adj == "backsolve":
            kw["adjoint"] = dfx.BacksolveAdjoint()
        return dfx.diffeqsolve(terms, solver, sgn * T0, sgn * T, None if dt0 is None else sgn * dt0, y0_, dict(k=p["k"], sgn=sgn), stepsize_controller=ctrl,
                               saveat=saveat, event=event(sgn, w), max_steps=max_steps, throw=False, **kw)

    return run, here


def flat_loss(ys):
    import jax
    import jax.numpy as jnp

    leaves = jax.tree_util.tree_leaves(ys)
    return sum(jnp.sum(jnp.where(jnp.isfinite(x), x, 0.0) * jnp.cos(jnp.arange(x.size)).reshape(x.shape)) for x in leaves)


def solve_both(prob, path, seed):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from . import scripted as sc

    run, here = assemble(prob, path)
    adj = prob["adjoint"]
    qs = np.array([here["T0"], 0.31, 0.6, 0.8, 0.81, 1.1, 1.3])

    def observe(sgn, p, y0):
        sol = run(sgn, p, y0)
        fix = lambda t: jnp.where(jnp.isfinite(t), sgn * t, t)
        out = dict(ts=jax.tree_util.tree_map(fix, sol.ts), ys=sol.ys, stats={k: v for k, v in sol.stats.items() if k != "max_steps"},
                   result=sc.result_vec(sol.result), ends=(sgn * sol.t0, sgn * sol.t1))
        if sol.interpolation is not None:
            q = sgn * qs
            out["dense"] = jax.vmap(sol.evaluate)(q)
            out["dense-right"] = jax.vmap(lambda t: sol.evaluate(t, left=False))(q)
            out["dense-inc"] = jax.vmap(lambda t: sol.evaluate(sgn * 0.3, t))(q)
            if adj == "none":
                out["dense-der"] = jax.tree_util.tree_map(lambda x: sgn * x, jax.vmap(sol.derivative)(q))
        if sol.event_mask is not None:
            out["event"] = sol.event_mask
        return out

    def loss(py, sgn):
        return flat_loss(run(sgn, *py).ys)

    p, y0 = dict(k=jnp.array(1.1)), jnp.array([1.0, 0.4])
    obs = eqx.filter_jit(observe)
    outs = [jax.device_get(obs(jnp.array(s), p, y0)) for s in (1.0, -1.0)]
    if adj != "none":
        gr = jax.jit(jax.grad(loss))
        for s, o in zip((1.0, -1.0), outs):
            o["grad"] = jax.device_get(gr((p, y0), jnp.array(s)))
    bad = []
    tol = 1e-6 if prob["event"] in ("state-up", "time-root") or adj == "backsolve" else 1e-8
    a, ta = jax.tree_util.tree_flatten_with_path(outs[0])
    b, tb = jax.tree_util.tree_flatten_with_path(outs[1])
    if ta != tb:
        bad.append(("structure of the result", dict(prob=prob)))
    for (ka, x), (_, y) in zip(a, b):
        x, y = np.asarray(x, float), np.asarray(y, float)
        # (a dense query right at the end of a step may be answered by either neighbour)
        if not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
            bad.append(("mirrored solve differs", dict(prob=prob, path=path, what=jax.tree_util.keystr(ka), forward=x.tolist(), mirrored=y.tolist())))
    n = int(outs[0]["stats"]["num_steps"])
    if not np.isfinite(np.asarray(jax.tree_util.tree_leaves(outs[0]["ys"])[-1])).any() or n < 2:
        raise RuntimeError(f"degenerate problem {prob} {n}")
    return n, bad[:3]


def cover(bs, rng, k):
    """A sample in which every pair of choices that occurs at all occurs (greedily)."""
    byp = {}
    for b in bs:
        byp.setdefault(str(b["prob"]), []).append(b)
    cands = [rng.choice(v) for v in byp.values()]
    rng.shuffle(cands)
    def pairs(b):
        p = list(b["prob"].items())
        return {(x, y) for i, x in enumerate(p) for y in p[:i]}
    todo = set().union(*[pairs(b) for b in cands])
    out = []
    while todo and len(out) < k:
        best = max(cands, key=lambda b: len(pairs(b) & todo))
        if not pairs(best) & todo:
            break
        todo -= pairs(best)
        out.append(best)
    return out, len(todo)


def mirror_jobs(rep, tier, seed):
    r = tlc("MCMirror", CFG, simulate=6000, seed=seed, depth=6)
    rep.model(r)
    rng = random.Random(seed)
    some, left = cover(r.behaviours, rng, 300 if tier == "thorough" else 36)
    rep.notes["pairs of parts not covered together"] = left
    return [(solve_both, (b["prob"], b["path"], seed)) for b in some]


def mirror(rep, tier, seed, extra):
    """Runs the mirror jobs together with `extra` jobs of another kind."""
    jobs = mirror_jobs(rep, tier, seed) + extra
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        if f is solve_both:
            rep.validated(1, "problems solved both ways")
            rep.sample(dict(prob=a[0], path=a[1]))
        else:
            rep.validated(n, "clipped solves backwards")
        rep.extend([(f"D01:{c}", d) for c, d in bad])
