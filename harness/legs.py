"""spec/Legs.tla: solves with the library's own parts, made in legs, and retaken step by step."""
import random

import numpy as np

from .common import pmap, tlc
from .mirror import cover

CFG = """SPECIFICATION Spec
CONSTANTS Families <- MCFamilies
 SolversOf <- MCSolversOf
 Controllers <- MCControllers
 Directions <- MCDirections
 N = {n}
INVARIANTS Transparent NoTrace Legs Emit
PROPERTY Done
"""

BUDGET = 300
T0, T1 = 2.0, 3.5  # far enough from zero for differences of neighbouring times to be exact


def recorder(inner):
    """The controller `inner`, keeping a log of every attempt it judged in its state."""
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp
    from typing import Any

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        t, s = self.inner.init(terms, t0, t1, y0, dt0, args, func, error_order)
        return t, (s, jnp.zeros((BUDGET + 1, 6)), jnp.array(0))

    def adapt(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        s, log, i = controller_state
        keep, n0, n1, jump, s, res = self.inner.adapt_step_size(t0, t1, y0, y1_candidate, args, y_error, error_order, s)
        row = jnp.stack([jnp.asarray(x, float) for x in (t0, t1, keep, n0, n1, jump)])
        return keep, n0, n1, jump, (s, log.at[i].set(row), i + 1), res

    if isinstance(inner, dfx.AbstractAdaptiveStepSizeController):

        class Recorder(dfx.AbstractAdaptiveStepSizeController):
            inner: Any
            rtol: Any
            atol: Any
            norm: Any = eqx.field(static=True)
            wrap = lambda self, d: Recorder(self.inner.wrap(d), self.rtol, self.atol, self.norm)

        Recorder.init, Recorder.adapt_step_size = init, adapt
        Recorder.__abstractmethods__ = frozenset()
        return Recorder(inner, inner.rtol, inner.atol, inner.norm)

    class Recorder(dfx.AbstractStepSizeController):
        inner: Any
        wrap = lambda self, d: Recorder(self.inner.wrap(d))

    Recorder.init, Recorder.adapt_step_size = init, adapt
    Recorder.__abstractmethods__ = frozenset()
    return Recorder(inner)


def build(prob, path):
    import diffrax as dfx
    import jax.numpy as jnp
    import optimistix as optx

    from .paths import LinearPath
    from .solvers import fixed_newton

    fam, name = prob["family"], prob["solver"]
    knots = jnp.linspace(1.0, 5.0, len(path))
    vals = jnp.array(path, float)[:, None] * 0.4
    add = name in ("SEA", "SRA1", "ShARK")
    half = name.startswith("Half")
    base = {"HalfEuler": "Euler", "HalfImplicit": "ImplicitEuler", "HalfSPaRK": "SPaRK"}.get(name, name)
    S = getattr(dfx, base)
    if isinstance(S, type) and issubclass(S, dfx.AbstractImplicitSolver) and prob["direction"] == 1:
        solver = S(root_finder=fixed_newton())
    elif isinstance(S, type) and issubclass(S, dfx.AbstractImplicitSolver) and not prob["controller"].startswith("pid"):
        solver = S(root_finder=optx.Newton(rtol=1e-5, atol=1e-6))
    else:
        solver = S()
    if half:
        solver = dfx.HalfSolver(solver)

    def f(t, y, k):
        return k * jnp.array([y[1] + 0.3 * jnp.sin(3 * t), -y[0] * (1 + 0.1 * t) - 0.2 * y[1]]) + jnp.where(t > 2.8, 0.7, 0.0) * jnp.array([1.0, -0.5])

    def g(t, y, k):
        if add:
            return k * jnp.array([[0.3 + 0.1 * t], [0.2 * jnp.cos(t)]])
        return k * jnp.array([[0.3 + 0.1 * t * y[1]], [0.2 * jnp.cos(y[0])]])

    y0 = jnp.array([1.0, 0.4])
    if fam == "ode":
        terms = dfx.ODETerm(f)
    elif fam == "split":
        terms = dfx.MultiTerm(dfx.ODETerm(f), dfx.ODETerm(lambda t, y, k: -3.0 * y))
    elif fam == "partitioned":
        terms = (dfx.ODETerm(lambda t, y, k: k * (y + 0.1 * t)), dfx.ODETerm(lambda t, y, k: -y * jnp.cos(t)))
        y0 = (y0, 0.5 * y0)
    elif fam == "cde":
        terms = dfx.MultiTerm(dfx.ODETerm(f), dfx.ControlTerm(g, dfx.LinearInterpolation(knots, vals)))
    elif fam == "sde":
        terms = dfx.MultiTerm(dfx.ODETerm(f), dfx.ControlTerm(g, LinearPath(knots, vals, levy_area=dfx.SpaceTimeLevyArea)))
    else:
        gamma, u = jnp.array([1.3, 0.6]), jnp.array([0.8, 1.1])
        force = lambda x, a: jnp.array([x[0] + 0.3 * jnp.sin(x[1]), 1.5 * x[1]])
        lp = LinearPath(knots, vals * jnp.array([1.0, -0.7]), levy_area=dfx.SpaceTimeTimeLevyArea)
        terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(gamma, u, force), dfx.UnderdampedLangevinDiffusionTerm(gamma, u, lp))
        y0 = (y0, 0.3 * y0)

    pid = dfx.PIDController(rtol=1e-3, atol=1e-4)
    marks = jnp.array([3.2, 2.8, 2.35, 9.0])
    smooth = fam not in ("sde", "cde", "langevin")
    ctrl, dt0 = {
        "constant": lambda: (dfx.ConstantStepSize(), 0.15),
        "pid": lambda: (pid, None if smooth else 0.2),
        "pid-clip": lambda: (dfx.ClipStepSizeController(pid, step_ts=marks[:2] * 1.05, jump_ts=marks), 0.3),
        "pid-dtmin": lambda: (dfx.PIDController(rtol=1e-6, atol=1e-7, dtmin=0.06, dtmax=0.2, pcoeff=0.3, icoeff=0.4), 0.1),
        "pid-revisit": lambda: (dfx.ClipStepSizeController(pid, store_rejected_steps=40), 1.0),
    }[prob["controller"]]()
    return terms, solver, recorder(ctrl), dt0, y0


def close(a, b, tol=1e-8):
    """Name of the first leaf that differs, or None."""
    import jax

    fa, ta = jax.tree_util.tree_flatten_with_path(a)
    fb, tb = jax.tree_util.tree_flatten_with_path(b)
    if ta != tb:
        return "structure"
    for (k, x), (_, y) in zip(fa, fb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or not np.allclose(x.astype(float), y.astype(float), rtol=tol, atol=tol, equal_nan=True):
            return f"{jax.tree_util.keystr(k)}: {x.tolist()} / {y.tolist()}"[:600]
    return None


def replay(b, path, parts):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    prob, cuts = b["prob"], sorted(b["cuts"])
    sgn = prob["direction"]
    terms, solver, ctrl, dt0, y0 = build(prob, path)
    k = jnp.array(1.1)
    ta, tb = (T0, T1) if sgn == 1 else (T1, T0)
    bad, facts = [], 0
    okay = lambda r: int(r._value) == int(dfx.RESULTS.successful._value)
    states = dict(solver_state=True, controller_state=True, made_jump=True)
    qs = np.sort(np.concatenate([np.linspace(T0, T1, 12), [2.8, 2.35, 2.05]]))

    def note(clause, **kw):
        bad.append((clause, dict(prob=prob, cuts=cuts, path=path, **{a: str(v)[:1500] for a, v in kw.items()})))

    @eqx.filter_jit
    def whole(t1, y0, k, dt0):
        subs = [dfx.SubSaveAt(steps=True), dfx.SubSaveAt(ts=sgn * jnp.minimum(jnp.sort(sgn * jnp.array(qs)), sgn * t1)), dfx.SubSaveAt(t1=True)]
        return dfx.diffeqsolve(terms, solver, ta, t1, dt0, y0, k, stepsize_controller=ctrl, max_steps=BUDGET, throw=False,
                               saveat=dfx.SaveAt(subs=subs, dense=True, **states))

    @eqx.filter_jit
    def leg(t0, t1, dt0, y0, k, given, n):
        return dfx.diffeqsolve(terms, solver, t0, t1, dt0, y0, k, stepsize_controller=ctrl, max_steps=n, throw=False,
                               saveat=dfx.SaveAt(t1=True, **states), **given)

    def log_of(sol):
        s, log, i = jax.device_get(sol.controller_state)
        return log[:int(i)]

    dt = None if dt0 is None else sgn * dt0
    w = whole(tb, y0, k, dt)
    L = log_of(w)
    if not okay(w.result) or not 3 <= len(L) < BUDGET:
        note(parts[0] + ":an ordinary problem is not solved", result=w.result, attempts=len(L))
        return 1, bad
    end = lambda tree: jax.tree_util.tree_map(lambda x: np.asarray(x)[0], tree)
    stat = lambda s: np.array([int(s.stats[x]) for x in ("num_steps", "num_accepted_steps", "num_rejected_steps")])
    carry = lambda s: dict(solver_state=s.solver_state, controller_state=s.controller_state, made_jump=s.made_jump)
    wend = end(w.ys[2])
    if len(L) != stat(w)[0] or L[:, 2].sum() != stat(w)[1]:
        note("L02:the controller judged other attempts than were counted", log=L.tolist(), stats=w.stats)

    if "C01" in parts:
        # budget cuts
        s, total, at = None, np.zeros(3, int), 0
        stops = [c for c in cuts if c < len(L)] + [None]
        for c in stops:
            n = BUDGET if c is None else c - at
            if s is None:
                s = leg(ta, tb, dt, y0, k, {}, n)
            else:
                last = log_of(s)[-1]
                if float(s.ts[0]) != sgn * last[3]:
                    note("C01:stopped somewhere else than the last kept attempt", ts=s.ts, last=last)
                s = leg(float(s.ts[0]), tb, sgn * (last[4] - last[3]), jax.tree_util.tree_map(lambda x: x[0], s.ys), k, carry(s), n)
            total = total + stat(s)
            facts += 1
            if c is not None:
                at = c
                if int(s.result._value) != int(dfx.RESULTS.max_steps_reached._value):
                    note("C01:stopped for another reason", got=s.result, cut=c)
                    break
            elif not okay(s.result):
                note("C01:last leg failed", got=s.result)
        else:
            M = log_of(s)
            m = min(len(M), len(L))
            # two compilations round differently, and a controller may amplify that from step to step: a
            # difference that has grown gradually out of rounding is not one made by the cut
            off = np.concatenate([[0.0], np.abs(M[:m] - L[:m]).max(1)])
            first = np.argmax(off > 1e-7) if (off > 1e-7).any() else m
            grown = off[:first].max() > 1e-11 and first > max(cuts) + 4
            if not grown:
                if first < m or len(M) != len(L):
                    note("C01:resumed solve makes other attempts", attempt=first, got=M[first - 1:first + 2].tolist(), want=L[first - 1:first + 2].tolist(), lengths=(len(M), len(L)))
                d = close((end(s.ys), s.made_jump, s.solver_state), (wend, w.made_jump, w.solver_state), 1e-6)
                if d:
                    note("C01:resumed solve ends differently", what=d)
            if (total != [len(M), M[:, 2].sum(), (1 - M[:, 2]).sum()]).any():
                note("C01:attempts of the legs do not add up", got=total, want=len(M))

    def retake(log, t1):
        """the kept attempts alone, one by one"""
        @eqx.filter_jit
        def first(t0, h, y0, k):
            return solver.init(terms, t0, h, y0, k)

        @eqx.filter_jit
        def one(t0, h, y, k, st, jump):
            y1, err, dense, st, res = solver.step(terms, t0, h, y, k, st, jump)
            return y1, dense, st

        st, y, jump, out = first(log[0][0], log[0][1], y0, k), y0, False, []
        for t0, h, keep, n0, n1, j in log:
            if keep:
                y, dense, st = one(t0, h, y, k, st, jnp.array(bool(jump)))
                jump = j
                out.append((n0, h, t0, y, dense))
        return out, st

    if "C01" in parts and sgn == 1:
        # a cut at a time: the legs together are still one sequence of steps
        c = 2.62
        s1 = whole(c, y0, k, dt)
        L1 = log_of(s1)
        s2 = leg(c, tb, L1[-1][4] - c, jax.tree_util.tree_map(lambda x: x[0], s1.ys[2]), k, carry(s1), BUDGET)
        steps, st = retake(log_of(s2), tb)
        facts += 1
        d = close((end(s2.ys), s2.solver_state), (steps[-1][3], st))
        if d:
            note("C01:legs ending at a time do not join up", what=d)
        kept = [r for r in log_of(s2) if r[2]]
        if any(a[3] != b[0] for a, b in zip(kept, kept[1:]) if a[5] == 0 and b[0] != c):
            note("C01:legs leave a gap", log=log_of(s2).tolist())

    if sgn == 1 and ("L02" in parts or "L04" in parts):
        steps, st = retake(L, tb)
        ts = np.asarray(w.ts[0])
        ts, ys = ts[np.isfinite(ts)], w.ys[0]
        facts += len(steps)
        d = close((ts, jax.tree_util.tree_map(lambda x: np.asarray(x)[:len(ts)], ys)),
                  (np.array([x[0] for x in steps[:-1]] + [tb]), jax.tree_util.tree_map(lambda *x: np.stack(x), *[x[3] for x in steps])))
        if d:
            note("L02:the kept attempts made alone go elsewhere", what=d, log=L.tolist())
        d = close(w.solver_state, st)
        if d:
            note("L02:the method's memory differs from that of the kept attempts alone", what=d, log=L.tolist())

    if sgn == 1 and "L04" in parts:
        @eqx.filter_jit
        def interp(t0, t1, dense, t):
            ip = solver.interpolation_cls(t0=t0, t1=t1, **dense)
            return ip.evaluate(t), jax.jvp(ip.evaluate, (t,), (jnp.ones_like(t),))[1]

        ev = eqx.filter_jit(lambda s, t, left: s.evaluate(t, left=left))
        dv = eqx.filter_jit(lambda s, t, left: s.derivative(t, left=left))
        starts, stops = np.array([x[2] for x in steps]), np.array([x[1] for x in steps])

        def expect(t, left):
            i = [j for j in range(len(steps)) if (starts[j] < t <= stops[j] if left else starts[j] <= t < stops[j])]
            if not i:
                i = [0] if t <= starts[0] else [len(steps) - 1] if t >= stops[-1] else None
            return None if i is None else interp(jnp.array(starts[i[0]]), jnp.array(stops[i[0]]), steps[i[0]][4], jnp.array(t))

        points = [(t, lf) for t in qs for lf in (True, False)]
        points += [(t, lf) for t in stops[:4] for lf in (True, False)] + [(t, lf) for t in 0.5 * (starts[:3] + stops[:3]) for lf in (True, False)]
        dense_t = {}
        for t, lf in points:
            e = expect(t, lf)
            if e is None:
                continue
            v = ev(w, jnp.array(t), lf)
            dense_t[t, lf] = v
            facts += 2
            d = close(v, e[0])
            if d:
                note("L04:dense output is not that of the step the time falls in", t=t, left=lf, what=d, log=L.tolist())
            d = close(dv(w, jnp.array(t), lf), e[1], 1e-7)
            if d:
                note("L04:derivative of the dense output", t=t, left=lf, what=d)
        for i, t in enumerate(qs):
            if (t, True) in dense_t:
                d = close(jax.tree_util.tree_map(lambda x: np.asarray(x)[i], w.ys[1]), dense_t[t, True])
                if d:
                    note("L04:output saved at a time differs from dense output there", t=t, what=d)
        if not prob["solver"].startswith("Half"):
            for x in steps[:6]:
                d = close(ev(w, jnp.array(x[1]), True), x[3])
                if d:
                    note("L04:dense output misses the end of a step", t=x[1], what=d)
        inc = eqx.filter_jit(lambda s, a, b: s.evaluate(a, b))(w, jnp.array(qs[3]), jnp.array(qs[9]))
        if (qs[3], True) in dense_t and (qs[9], True) in dense_t:
            d = close(inc, jax.tree_util.tree_map(lambda a, b: b - a, dense_t[qs[3], True], dense_t[qs[9], True]))
            if d:
                note("L04:increment of the dense output", what=d)
    return facts, bad[:4]


def legs(rep, prop, tier, seed):
    thorough = tier == "thorough"
    r = tlc("MCLegs", CFG.format(n=6 if thorough else 4), workers=8)
    rep.model(r)
    rng = random.Random(seed)
    bs = r.behaviours if prop == "C01" else [b for b in r.behaviours if b["prob"]["direction"] == 1]
    some, left = cover(bs, rng, 400 if thorough else 40)
    if thorough:
        seen = {str(b["prob"]) for b in some}
        rest = {str(b["prob"]): b for b in bs if str(b["prob"]) not in seen}
        some += list(rest.values())[:250 if prop == "C01" else None]
    rep.notes["pairs of parts not covered together"] = left
    paths = [[0, 1, 2, 1, 0], [0, 2, -1, 1, 3], [1, -1, 0, 2, -2]]
    jobs = [(replay, (b, rng.choice(paths), [prop])) for b in some]
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, "facts about solves with the library's parts")
        rep.sample(dict(prob=a[0]["prob"], cuts=a[0]["cuts"]))
        rep.extend([v for v in bad if v[0].startswith(prop)])
