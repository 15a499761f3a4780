"""spec/Grad.tla and spec/Backsolve.tla: derivatives of solves, against jax differentiating diffeqsolve."""
import random

import numpy as np

from .common import pmap, tlc

GRAD = """SPECIFICATION Spec
CONSTANTS Solvers <- MCSolvers
 Fields <- MCFields
 Scripts <- MCScripts
 Y0s <- MCY0s
 As <- MCAs
 T0 <- MCT0
 T1s <- MCT1s
 Dt0s <- MCDt0s
 Queries <- MCQueries
 Levels <- MCLevels
INVARIANTS Causal Shift Level Emit
"""
BACK = """SPECIFICATION Spec
CONSTANTS Solvers <- {solvers}
 Fields <- MCFields
 Scripts <- MCScripts
 Backs <- {backs}
 Y0s <- {y0s}
 Ps <- MCPs
 T0 <- MCT0
 T1 <- MCT1
 Dt0s <- MCDt0s
 Saves <- MCSaves
 Cotangents <- {cot}
INVARIANTS Quiet Backward Identity Emit
"""
ROWS = 12


def fl(q):
    return q[0] / q[1]


def parts():
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp
    import optimistix as optx
    from typing import Any

    class Script(dfx.AbstractStepSizeController):
        """accepts and rescales as it is told"""

        accept: Any
        factor: Any

        def wrap(self, direction):
            return self

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + dt0, (jnp.array(0), dt0)

        def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, state):
            i, dt = state
            keep, dt = self.accept[i], dt * self.factor[i]
            tprev = jnp.where(keep, t1, t0)
            return keep, tprev, tprev + dt, False, (i + 1, dt), dfx.RESULTS.successful

    class Fixed(dfx.AbstractStepSizeController):
        """the same, with a script that is not an input of the computation (for those who do not differentiate it)"""

        accept: Any = eqx.field(static=True)
        factor: Any = eqx.field(static=True)

        wrap = Script.wrap
        init = Script.init

        def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, state):
            s = Script(jnp.array(self.accept), jnp.array(self.factor))
            return s.adapt_step_size(t0, t1, y0, y1_candidate, args, y_error, error_order, state)

    solvers = dict(
        Euler=dfx.Euler(), Heun=dfx.Heun(), Midpoint=dfx.Midpoint(), LeapfrogMidpoint=dfx.LeapfrogMidpoint(), ReversibleHeun=dfx.ReversibleHeun(),
        ImplicitEuler=dfx.ImplicitEuler(root_finder=optx.Newton(rtol=1e-12, atol=1e-12)),
    )
    return Script, Fixed, solvers


def fields(kind):
    return (lambda t, y, a: a * y + t) if kind == "lin" else (lambda t, y, a: a * y * y)


def script(s, rows=ROWS):
    acc = [e["accept"] for e in s] * 2
    fac = [fl(e["factor"]) for e in s] * 2
    return np.array((acc + [True] * rows)[:rows]), np.array((fac + [1.0] * rows)[:rows])


ADJOINTS = ["recursive", "recursive1", "recursive2", "recursive3", "recursive-unbounded", "direct", "direct-forward", "forward"]


def adjoint_of(name):
    import diffrax as dfx

    if name.startswith("recursive"):
        tail = name[9:]
        if tail == "-unbounded":
            return dfx.RecursiveCheckpointAdjoint(checkpoints=4), None
        return dfx.RecursiveCheckpointAdjoint(checkpoints=int(tail) if tail else None), 7
    if name.startswith("direct"):
        return dfx.DirectAdjoint(), 7
    return dfx.ForwardMode(), 7


def check_grad(solver, field, event, adjoint, behaviours):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    Script, _, solvers = parts()
    adj, max_steps = adjoint_of(adjoint)
    ask = solver not in ("Heun", "Midpoint")
    f = fields(field)

    def outputs(x, acc, fac, level):
        y0, a, t0, t1, dt0, q = x
        subs = dict(final=dfx.SubSaveAt(t1=True))
        if max_steps is not None:
            subs["steps"] = dfx.SubSaveAt(steps=True)
        if ask:
            subs["query"] = dfx.SubSaveAt(ts=q[None])
        ev = None
        if event:
            ev = dfx.Event(lambda t, y, args, **kw: y - level, optx.Newton(rtol=1e-12, atol=1e-12))
        sol = dfx.diffeqsolve(dfx.ODETerm(f), solvers[solver], t0, t1, dt0, y0, a, saveat=dfx.SaveAt(subs=subs),
                              stepsize_controller=Script(acc, fac), adjoint=adj, max_steps=max_steps, event=ev)
        out = dict(ts=sol.ts, ys=sol.ys)
        # what was not written must not matter (it is infinite)
        return jax.tree_util.tree_map(lambda v: jnp.where(jnp.isfinite(v), v, 0.0), out), out

    jac = jax.jacfwd if adjoint in ("forward", "direct-forward") else jax.jacrev
    fn = jax.jit(lambda *z: jac(outputs, has_aux=True)(*z))
    n, bad = 0, []
    for b in behaviours:
        c = b["cfg"]
        x = jnp.array([fl(c["y0"]), fl(c["a"]), 0.0, fl(c["t1"]), fl(c["dt0"]), fl(c["q"])])
        acc, fac = script(c["script"])
        d, v = jax.device_get(fn(x, jnp.array(acc), jnp.array(fac), jnp.array(fl(c["level"]) if event else 0.0)))
        steps = [(s[0], s[1]) for s in b["steps"]]
        want = dict(final=steps[-1:])
        if "steps" in v["ts"]:
            want["steps"] = steps
        if ask:
            want["query"] = [(dict(v=c["q"], d=[[int(i == 5), 1] for i in range(6)]), z) for z in b["query"]]
        for kind, entries in want.items():
            for which, col in (("ts", 0), ("ys", 1)):
                if kind == "query" and which == "ts":
                    continue  # (the requested time itself)
                gv, gd = v[which][kind], d[which][kind]
                for i in range(gv.shape[0]):
                    n += 1
                    if i < len(entries):
                        wv, wd = fl(entries[i][col]["v"]), np.array([fl(q) for q in entries[i][col]["d"]])
                    else:
                        wv, wd = np.inf, np.zeros(6)
                    okv = gv[i] == wv if np.isinf(wv) else abs(gv[i] - wv) <= 1e-9 * (1 + abs(wv))
                    okd = np.all(np.abs(gd[i] - wd) <= 1e-8 * (1 + np.abs(wd)))
                    if not (okv and okd):
                        bad.append((("value" if not okv else "derivative") + f" of {kind} {which} is wrong", dict(
                            solver=solver, adjoint=adjoint, cfg=c, entry=i, got=[float(gv[i]), gd[i].tolist()], want=[float(wv), wd.tolist()],
                            inputs="y0, a, t0, t1, dt0, query")))
    return n, bad[:4]


def check_steady(solver, field, behaviours):
    """ImplicitAdjoint: the derivative of the implicit function at the final state"""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    Script, _, solvers = parts()
    f = fields(field)

    def final(y0, a, t1, dt0, acc, fac):
        sol = dfx.diffeqsolve(dfx.ODETerm(f), solvers[solver], 0.0, t1, dt0, y0, a, stepsize_controller=Script(acc, fac), adjoint=dfx.ImplicitAdjoint(), max_steps=7)
        return sol.ys[0]

    fns = [jax.jit(g(final, argnums=(0, 1))) for g in (jax.grad, jax.jacfwd)]
    val = jax.jit(final)
    n, bad = 0, []
    for b in behaviours:
        c = b["cfg"]
        acc, fac = script(c["script"])
        z = [jnp.array(fl(c[k])) for k in ("y0", "a", "t1", "dt0")] + [jnp.array(acc), jnp.array(fac)]
        wv, wd = fl(b["steps"][-1][1]["v"]), (0.0, fl(b["steady"]))
        gv = float(val(*z))
        for mode, fn in zip(("reverse", "forward"), fns):
            g = [float(q) for q in fn(*z)]
            n += 1
            if abs(gv - wv) > 1e-9 * (1 + abs(wv)) or any(not abs(p - q) <= 1e-8 * (1 + abs(q)) for p, q in zip(g, wd)):
                bad.append(("implicit derivative is wrong", dict(solver=solver, mode=mode, cfg=c, got=[gv, g], want=[wv, wd])))
    return n, bad[:4]


def check_back(solver, field, behaviours, mirrored):
    """BacksolveAdjoint"""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    Script, Fixed, solvers = parts()
    f0 = fields(field)
    f = (lambda t, y, a: -f0(-t, y, a)) if mirrored else f0
    sgn = -1.0 if mirrored else 1.0
    n, bad, fns = 0, [], {}

    def make(save, where, own, own_dt0):
        def loss(p, y0, dt0, ts, acc, fac, cot, back):
            # the way back may have a method, a controller and a first step of its own
            mine = {}
            if own:
                mine.update(solver=solvers[own], stepsize_controller=Script(*back[:2]))
            if own_dt0:
                mine["dt0"] = -back[2]
            # the parameter may be an argument or live inside the term
            if where == "args":
                term, args = dfx.ODETerm(f), p
            else:
                term, args = dfx.ODETerm(eqx.Partial(lambda q, t, y, a: f(t, y, q), p)), None
            sol = dfx.diffeqsolve(term, solvers[solver], 0.0, sgn * 2.0, sgn * dt0, y0, args,
                                  saveat=dfx.SaveAt(t0=save["t0"], t1=save["t1"], ts=ts if ts.shape[0] else None),
                                  stepsize_controller=Script(acc, fac), adjoint=dfx.BacksolveAdjoint(**mine), max_steps=16)
            return jnp.sum(sol.ys * cot[: sol.ys.shape[0]]), (sol.ts, sol.ys)

        return jax.jit(jax.grad(loss, argnums=(0, 1), has_aux=True))

    for b in behaviours:
        c = b["cfg"]
        save = c["save"]
        where = ("args", "term")[(mirrored + (solver in ("Euler", "ReversibleHeun")) + (field == "quad")) % 2]
        back = c["back"]
        own, own_dt0 = back["own"] and back["solver"], back["own"] and back["dt0"] != c["dt0"]
        if mirrored and own_dt0:
            continue
        key = (save["t0"], save["t1"], len(save["ts"]), where, own, own_dt0)
        if key not in fns:
            fns[key] = make(save, where, own, own_dt0)
        acc, fac = script(c["script"], 16)
        (gp, gy), (ts, ys) = jax.device_get(fns[key](
            jnp.array(fl(c["p"])), jnp.array(fl(c["y0"])), jnp.array(fl(c["dt0"])), sgn * jnp.array([fl(q) for q in save["ts"]]),
            jnp.array(acc), jnp.array(fac), jnp.array([fl(q) for q in c["cot"]]),
            (*map(jnp.array, script(back["script"] or c["script"], 16)), jnp.array(fl(back["dt0"])))))
        got = dict(ts=sgn * ts, ys=ys, y0=gy, p=gp)
        want = dict(ts=[fl(e[0]) for e in b["saved"]], ys=[fl(e[1]) for e in b["saved"]], y0=fl(b["a"]), p=fl(b["g"]))
        for k in got:
            n += 1
            g, w = np.asarray(got[k]), np.asarray(want[k])
            if g.shape != w.shape or not np.all(np.abs(g - w) <= 1e-8 * (1 + np.abs(w))):
                bad.append((f"{k}: backwards in time", dict(solver=solver, mirrored=mirrored, parameter=where, cfg=c, got=g.tolist(), want=w.tolist())))
    return n, bad[:4]


def dynamics(fam, name):
    """the system and, for given parameters, the same system for (y, tangent)"""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    from .paths import LinearPath
    from .solvers import fixed_newton

    half = name.startswith("Half")
    S = getattr(dfx, name[4:] if half else name)
    s = S(root_finder=fixed_newton(), root_find_max_steps=20) if issubclass(S, dfx.AbstractImplicitSolver) else S()
    if half:
        s = dfx.HalfSolver(s)
    additive = name in ("SEA", "SRA1", "ShARK")
    cols = 1 if name in ("ItoMilstein", "StratonovichMilstein") else 2

    def f(t, y, p):
        return jnp.stack([p[0] * jnp.sin(y[1]) - y[0], 0.3 * t - p[1] * y[0] * y[1]])

    def f2(t, y, p):
        return jnp.stack([-2.0 * p[1] * y[0], 0.1 * t * p[0] - y[1]])

    def g(t, y, p):
        z = jnp.zeros(2) if additive else y
        return jnp.stack([p[0] * jnp.cos(z) + 0.2 * t, 0.3 * p[1] + 0.1 * z * z], -1)[:, :cols]

    def both(h):
        def k(t, z, args):
            p, dp = args
            a, b = jax.jvp(lambda y, q: h(t, y, q), (z[:2], p), (z[2:], dp))
            return jnp.concatenate([a, b])
        return k

    rng = np.random.default_rng(5)
    knots = jnp.linspace(-1, 5, 29)
    values = jnp.array(np.cumsum(rng.normal(size=(29, cols)), 0) * 0.2)

    def make(lift):
        if fam == "ode":
            return dfx.ODETerm(lift(f))
        if fam == "split":
            return dfx.MultiTerm(dfx.ODETerm(lift(f)), dfx.ODETerm(lift(f2)))
        if fam == "cde":
            return dfx.MultiTerm(dfx.ODETerm(lift(f)), dfx.ControlTerm(lift(g), dfx.LinearInterpolation(knots, values)))
        if fam == "sde":
            return dfx.MultiTerm(dfx.ODETerm(lift(f)), dfx.ControlTerm(lift(g), LinearPath(knots, values, levy_area=dfx.SpaceTimeLevyArea)))
        # each half of the state moves with the other
        return dfx.ODETerm(lift(lambda t, q, p: p[0] * jnp.sin(q) + t)), dfx.ODETerm(lift(lambda t, q, p: -p[1] * q * q))

    return s, make(lambda h: h), make(both)


def check_pairs(fam, name, grids):
    """Differentiating a solve is solving for the pair of the state and its tangent, on the same steps."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu

    s, terms, paired = dynamics(fam, name)
    pair = fam == "pair"
    y0, p0 = jnp.array([0.8, -0.4]), jnp.array([0.9, 1.3])
    rng = np.random.default_rng(7)
    dy0, dp0 = jnp.array(rng.normal(size=2)), jnp.array(rng.normal(size=2))
    state = (lambda v: (v, v[::-1] + 0.1)) if pair else (lambda v: v)
    join = lambda a, b: jtu.tree_map(lambda x, y: jnp.concatenate([x, y], -1), a, b)
    n, bad = 0, []

    def solve(terms, y, p, ts, q, adjoint, controller=None):
        save = dfx.SaveAt(subs=dict(steps=dfx.SubSaveAt(steps=True), query=dfx.SubSaveAt(ts=q)))
        sol = dfx.diffeqsolve(terms, s, ts[0], ts[-1], None if controller is None else 0.3, y, p, saveat=save, adjoint=adjoint,
                              stepsize_controller=dfx.StepTo(ts=ts) if controller is None else controller, max_steps=32)
        keep = lambda v: jnp.where(jnp.isfinite(v), v, 0.0)
        return jtu.tree_map(keep, sol.ys), sol.ts["steps"]

    forward, reverse, direct = dfx.ForwardMode(), dfx.RecursiveCheckpointAdjoint(), dfx.DirectAdjoint()
    lin = jax.jit(lambda ts, q, adj=forward: jax.jvp(lambda y, p: solve(terms, state(y), p, ts, q, adj)[0], (y0, p0), (dy0, dp0)))
    lin2 = jax.jit(lambda ts, q: jax.jvp(lambda y, p: solve(terms, state(y), p, ts, q, direct)[0], (y0, p0), (dy0, dp0)))
    both = jax.jit(lambda ts, q: solve(paired, join(state(y0), jax.jvp(state, (y0,), (dy0,))[1]), (p0, dp0), ts, q, forward)[0])

    def pull(adj):
        def go(ts, q, cot):
            _, back = jax.vjp(lambda y, p: solve(terms, state(y), p, ts, q, adj)[0], y0, p0)
            gy, gp = back(cot)
            return jnp.vdot(gy, dy0) + jnp.vdot(gp, dp0)
        return jax.jit(go)

    pulls = dict(recursive=pull(reverse), direct=pull(direct))

    def compare(what, got, want, **kw):
        nonlocal n
        for (path, a), b in zip(jtu.tree_flatten_with_path(got)[0], jtu.tree_leaves(want)):
            n += 1
            a, b = np.asarray(a), np.asarray(b)
            if not np.all(np.abs(a - b) <= 1e-7 * (1 + np.abs(b))):
                bad.append((what, dict(case=(fam, name), where=jtu.keystr(path), got=a.tolist(), want=b.tolist(), **kw)))

    for ts, q in grids:
        ts, q = jnp.array(ts), jnp.array(q)
        z = jax.device_get(both(ts, q))
        v = jtu.tree_map(lambda x: x[..., :2], z)
        d = jtu.tree_map(lambda x: x[..., 2:], z)
        gv, gd = jax.device_get(lin(ts, q))
        compare("forward: the values change when differentiated", gv, v, ts=ts.tolist())
        compare("forward: the derivative is not that of the steps", gd, d, ts=ts.tolist())
        cot = jtu.tree_map(lambda x: jnp.array(rng.normal(size=x.shape)), v)
        want = sum(float(np.vdot(a, b)) for a, b in zip(jtu.tree_leaves(cot), jtu.tree_leaves(d)))
        for k, fn in pulls.items():
            compare(f"reverse ({k}): the derivative is not that of the steps", float(fn(ts, q, cot)), want, ts=ts.tolist())
    gv, gd = jax.device_get(lin2(ts, q))
    compare("forward through DirectAdjoint", gd, d, ts=ts.tolist())
    return n, bad[:4]


def check_adaptive(fam, name):
    """An adaptive solve is differentiated as the steps that it took."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    s, terms, _ = dynamics(fam, name)
    y0, p0 = jnp.array([0.8, -0.4]), jnp.array([0.9, 1.3])
    ctrl = dfx.PIDController(rtol=1e-2, atol=1e-3, pcoeff=0.2, icoeff=0.6)

    def final(y, p, dt0, adj, controller, ts=None):
        sol = dfx.diffeqsolve(terms, s, 0.0, 2.0, dt0, y, p, saveat=dfx.SaveAt(steps=True), adjoint=adj, stepsize_controller=controller, max_steps=64)
        return sol.ys[sol.stats["num_accepted_steps"] - 1], sol

    n, bad = 0, []
    _, sol = final(y0, p0, jnp.array(0.4), dfx.DirectAdjoint(), ctrl)
    m = int(sol.stats["num_accepted_steps"])
    ts = jnp.concatenate([jnp.zeros(1), sol.ts[:m]]).at[-1].set(2.0)
    want = jax.jit(jax.jacfwd(lambda y, p: final(y, p, None, dfx.ForwardMode(), dfx.StepTo(ts=ts))[0], argnums=(0, 1)))(y0, p0)
    for k, adj, jac in (("recursive", dfx.RecursiveCheckpointAdjoint(), jax.jacrev), ("forward", dfx.ForwardMode(), jax.jacfwd),
                        ("recursive, own first step", dfx.RecursiveCheckpointAdjoint(), jax.jacrev)):
        if "own" in k:
            got = jax.jit(jac(lambda y, p: final(y, p, None, adj, ctrl)[0], argnums=(0, 1)))(y0, p0)
            _, sol = final(y0, p0, None, dfx.DirectAdjoint(), ctrl)
            m = int(sol.stats["num_accepted_steps"])
            ts2 = jnp.concatenate([jnp.zeros(1), sol.ts[:m]]).at[-1].set(2.0)
            ref = jax.jit(jax.jacfwd(lambda y, p: final(y, p, None, dfx.ForwardMode(), dfx.StepTo(ts=ts2))[0], argnums=(0, 1)))(y0, p0)
        else:
            got, ref = jax.jit(jac(lambda y, p: final(y, p, jnp.array(0.4), adj, ctrl)[0], argnums=(0, 1)))(y0, p0), want
        for a, b in zip(got, ref):
            n += 1
            if not np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(b))):
                bad.append((f"{k}: an adaptive solve is not differentiated as its steps", dict(case=(fam, name), steps=m, got=np.asarray(a).tolist(), want=np.asarray(b).tolist())))
    return n, bad[:4]


def check_langevin(fam, name):
    """Langevin methods (their pairs are not Langevin systems): forward, reverse and small differences agree."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    from .paths import LinearPath

    s = getattr(dfx, name)(taylor_threshold=0.3)
    rng = np.random.default_rng(5)
    levy = dfx.SpaceTimeTimeLevyArea if name != "ALIGN" else dfx.SpaceTimeLevyArea
    path = LinearPath(jnp.linspace(-1, 5, 29), jnp.array(np.cumsum(rng.normal(size=(29, 2)), 0) * 0.2), levy_area=levy)

    def final(x, adj):
        gamma, u, v0, x0, p = x["gamma"], x["u"], x["v"], x["x"], x["p"]
        terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(gamma, u, lambda y, a: a * jnp.sin(y) + y),
                              dfx.UnderdampedLangevinDiffusionTerm(gamma, u, path))
        ts = jnp.array([0.0, 0.5, 0.7, 2.0])
        sol = dfx.diffeqsolve(terms, s, 0.0, 2.0, None, (x0, v0), p, stepsize_controller=dfx.StepTo(ts=ts), adjoint=adj, max_steps=16)
        return jnp.concatenate([sol.ys[0][0], sol.ys[1][0]])

    # (one friction within reach of the expansion on every step, the other beyond it on every step)
    n, bad = 0, []
    for g in (0.1, 1.3):
        x = dict(gamma=jnp.array([g, g]), u=jnp.array([1.0, 0.7]), v=jnp.array([0.2, -0.4]), x=jnp.array([0.6, 0.1]), p=jnp.array(0.8))
        dx = jax.tree_util.tree_map(lambda v: jnp.array(rng.normal(size=v.shape)), x)
        move = lambda e: jax.tree_util.tree_map(lambda a, b: a + e * b, x, dx)
        f = jax.jit(lambda x: final(x, dfx.RecursiveCheckpointAdjoint()))
        e = 1e-4
        want = (8 * (f(move(e)) - f(move(-e))) - (f(move(2 * e)) - f(move(-2 * e)))) / (12 * e)
        got = {}
        for k, adj in (("forward", dfx.ForwardMode()), ("direct forward", dfx.DirectAdjoint())):
            got[k] = jax.jit(lambda x, dx, adj=adj: jax.jvp(lambda x: final(x, adj), (x,), (dx,))[1])(x, dx)
        for k, adj in (("recursive", dfx.RecursiveCheckpointAdjoint()), ("direct", dfx.DirectAdjoint())):
            J = jax.jit(jax.jacrev(lambda x, adj=adj: final(x, adj)))(x)
            got[k] = sum(jnp.sum(J[q].reshape(4, -1) * dx[q].reshape(-1), 1) for q in x)
        for k, v in got.items():
            n += 1
            if not np.all(np.abs(v - want) <= 1e-7 * (1 + np.abs(want))):
                bad.append((f"{k}: Langevin solve differentiated wrongly", dict(case=(fam, name), gamma=g, got=np.asarray(v).tolist(), want=np.asarray(want).tolist())))
    return n, bad[:4]


ADAPTIVE = [("ode", "Tsit5"), ("ode", "Bosh3"), ("ode", "Kvaerno3"), ("ode", "Heun"), ("ode", "HalfEuler"), ("split", "KenCarp3"), ("cde", "Dopri5"), ("sde", "SPaRK")]


def a01(rep, tier, seed):
    r = tlc("MCGrad", GRAD, workers=8)
    rep.model(r)
    groups = {}
    for b in r.behaviours:
        c = b["cfg"]
        groups.setdefault((c["solver"], c["field"], c["level"] != [0, 0]), []).append(b)
    rng = random.Random(seed)
    jobs = []
    for (s, f, ev), bs in sorted(groups.items(), key=str):
        for adj in ADJOINTS:
            if tier == "quick" and adj in ("recursive2", "recursive3", "recursive-unbounded", "direct-forward") and s not in ("Euler", "ReversibleHeun"):
                continue
            sub = bs if tier == "thorough" else rng.sample(bs, min(60, len(bs)))
            jobs.append((check_grad, (s, f, ev, adj, sub)))
    # step times that the specification takes
    grids, seen = [], set()
    for b in sorted(r.behaviours, key=lambda b: -len(b["steps"])):
        ts = (0.0,) + tuple(fl(s[0]["v"]) / 4 for s in b["steps"])  # (small enough for all)
        if b["status"] == "done" and ts not in seen and len(ts) == 5:
            seen.add(ts)
            grids.append((list(ts), [0.3 * ts[1], 0.5 * (ts[1] + ts[2]), ts[-1] - 0.03]))
    grids = rng.sample(grids, min(2 if tier == "quick" else 8, len(grids)))
    from .memory import CASES

    slow = lambda c: not any(x in c[1] for x in ("Kv", "Ken", "Sil", "Half", "Dopri8"))
    jobs = [(check_pairs, (f, s, grids)) for f, s in sorted(CASES, key=slow)] + [(check_adaptive, c) for c in ADAPTIVE] + [(check_langevin, ("langevin", s)) for s in ("ALIGN", "ShOULD", "QUICSORT")] + jobs
    for (fn, a), (n, bad) in zip(jobs, pmap(jobs, x64=True)):
        if fn is not check_grad:
            rep.validated(n, f"{a[1]} ({a[0]}) {fn.__name__}")
            rep.extend([("A01:" + c, d) for c, d in bad])
            continue
        rep.validated(n, f"{a[0]} {a[1]}{' event' if a[2] else ''} through {a[3]}")
        rep.sample(dict(a[4][0]["cfg"], adjoint=a[3]))
        rep.extend([("A01:" + c, d) for c, d in bad])


def a02(rep, tier, seed):
    jobs = []
    for cot, own in (("MCCotangents", False), ("MCNone", False), ("MCCotangents", True)):
        few = dict(solvers="MCFewSolvers", backs="MCOwn", y0s="MCOneY0") if own else dict(solvers="MCSolvers", backs="MCSame", y0s="MCY0s")
        r = tlc("MCBacksolve", BACK.format(cot=cot, **few), workers=8)
        rep.model(r)
        groups = {}
        for b in r.behaviours:
            groups.setdefault((b["cfg"]["solver"], b["cfg"]["field"]), []).append(b)
        rng = random.Random(seed)
        for (s, f), bs in sorted(groups.items()):
            if cot == "MCNone":
                bs = rng.sample(bs, min(10, len(bs)))
            if own and tier == "quick":
                bs = rng.sample(bs, min(120, len(bs)))
            for m in (False, True):
                jobs.append((check_back, (s, f, bs, m)))
    r = tlc("MCGrad", GRAD, workers=8)
    rep.model(r)
    groups = {}
    for b in r.behaviours:
        c = b["cfg"]
        if c["level"] == [0, 0] and fl(b["steps"][-1][1]["v"]) != 0 and abs(fl(b["steady"])) < 40000:
            groups.setdefault((c["solver"], c["field"]), []).append(b)
    jobs += [(check_steady, (s, f, bs)) for (s, f), bs in sorted(groups.items())]
    for (fn, a), (n, bad) in zip(jobs, pmap(jobs, x64=True)):
        rep.validated(n, f"{a[0]} {a[1]} {fn.__name__}")
        rep.sample(a[2][0]["cfg"])
        rep.extend([("A02:" + c, d) for c, d in bad])
