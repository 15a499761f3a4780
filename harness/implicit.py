"""spec/Stages.tla: implicit methods whose stage equations are, or are not, solved."""
import numpy as np

from .common import pmap, tlc
from .solvers import fixed_newton

CFG = """SPECIFICATION Spec
CONSTANTS End = 8
 Dts <- MCDts
 MaxAttempts = {n}
INVARIANTS OnlySolved Truth NoAdaptiveFailure Tiled Emit
"""

ONE = ["ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "HalfKvaerno3", "HalfImplicitEuler"]
TWO = ["KenCarp3", "KenCarp4", "KenCarp5", "Sil3"]


def stage_nodes(base):
    """Where, as fractions of the step, the implicit stages are."""
    import diffrax as dfx

    tab = getattr(getattr(dfx, base), "tableau", None)
    if tab is None:
        return [1.0]
    imp = [x for x in getattr(tab, "tableaus", (tab,)) if x.implicit][0]
    return [float(c) for c, d in zip(imp.c, imp.a_diagonal[1:]) if d != 0]


def inner_node(name, half):
    """One of them, other than the end of the step."""
    inner = [c for c in stage_nodes(name) if 1e-6 < c < 1 - 1e-6]
    if inner:
        return inner[0]
    return 0.5 if half else None


def check_failures(name, finder, behaviours):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    from . import scripted as sc

    half = name.startswith("Half")
    base = name[4:] if half else name
    cls = getattr(dfx, base)
    node = inner_node(base, half)
    # the world the model chose must be one for this method: an attempt meets a bad time iff the model says so
    ns = stage_nodes(base)

    def met(a):
        f, t = a["from"], a["to"]
        spans = [(f, t)] + ([(f, (f + t) / 2), ((f + t) / 2, t)] if half else [])
        return [x + c * (y - x) for x, y in spans for c in ns]

    def bad_times(b):
        return [a["from"] + node * (a["to"] - a["from"]) for a in b["log"] if a["inner"]] + [a["to"] for a in b["log"] if a["last"]]

    behaviours = [b for b in behaviours
                  if all(any(abs(x - y) < 1e-6 for x in met(a) for y in bad_times(b)) == (a["inner"] or a["last"]) for a in b["log"])]
    s = cls() if finder == "default" else cls(root_finder={"chord": optx.Chord, "very": dfx.VeryChord, "newton": optx.Newton}[finder](rtol=1e-8, atol=1e-8), root_find_max_steps=40)
    if half:
        s = dfx.HalfSolver(s)
    rows = max(len(b["log"]) for b in behaviours) + 1
    rng = lambda k: 0.2 + 0.05 * np.asarray(k, float)

    class Follow(dfx.AbstractAdaptiveStepSizeController):
        """Steps as told. If adaptive, rejects exactly the steps whose error estimate is infinite."""

        dt: jax.Array
        adaptive: jax.Array
        rtol: float = 1e-8
        atol: float = 1e-8
        norm: object = eqx.field(static=True, default=optx.rms_norm)

        def wrap(self, direction):
            return self

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + self.dt[0], (jnp.array(0), jnp.full((rows, 3), -1.0))

        def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, state):
            i, log = state
            fine = jnp.all(jnp.array([jnp.all(jnp.isfinite(x)) for x in jax.tree_util.tree_leaves(y_error)]))
            keep = fine | ~self.adaptive
            log = log.at[i].set(jnp.stack([t0, t1, keep * 1.0]))
            tp = jnp.where(keep, t1, t0)
            return keep, tp, tp + self.dt[i + 1], False, (i + 1, log), dfx.RESULTS.successful

    def f(t, y, args):
        # (linear: a solvable stage is solvable by every root finder)
        out = {"a": -1.5 * y["a"] + 0.5 * jnp.sin(t), "b": y["a"].sum() - 2.0 * y["b"]}
        hit = jnp.any(jnp.abs(t - args["bad"]) < 1e-9)
        return jax.tree_util.tree_map(lambda x: jnp.where(hit, jnp.nan, x), out)

    g = lambda t, y, args: {"a": jnp.cos(y["a"]), "b": 0.3 * t * jnp.ones(())}
    terms = dfx.MultiTerm(dfx.ODETerm(g), dfx.ODETerm(f)) if name in TWO else dfx.ODETerm(f)
    y0 = {"a": jnp.array([0.9, -0.5]), "b": jnp.array(0.3)}

    n = len(behaviours)
    dts, bads, n_acc = np.full((n, rows), 0.09), np.full((n, 2 * rows), -9.0), np.full(n, 0)
    for i, b in enumerate(behaviours):
        for j, a in enumerate(b["log"]):
            h = rng(a["to"]) - rng(a["from"])
            dts[i, j] = h if a["to"] < 8 else 0.7
            if a["to"] < 8 and j and not b["log"][j - 1]["keep"] and 2 * a["to"] == a["from"] + 8:
                dts[i, j] = 0.6  # too far: the middle is taken instead
            if a["inner"]:
                bads[i, 2 * j] = rng(a["from"]) + node * h
            if a["last"]:
                bads[i, 2 * j + 1] = rng(a["to"])

    def solve(dt, bad, adaptive, steps):
        sol = dfx.diffeqsolve(terms, s, rng(0), rng(8), None, y0, args=dict(bad=bad), stepsize_controller=Follow(dt, adaptive),
                              saveat=dfx.SaveAt(steps=True, t1=True, controller_state=True), max_steps=rows - 1, throw=False)
        return dict(ts=sol.ts, ys=sol.ys, stats=[sol.stats[k] for k in ("num_steps", "num_accepted_steps", "num_rejected_steps")],
                    result=sc.result_vec(sol.result), log=sol.controller_state[1])

    run = jax.jit(lambda *xs: jax.lax.map(lambda x: solve(*x), xs))
    ad = np.array([b["adaptive"] for b in behaviours])
    got = jax.device_get(run(dts, bads, ad, n_acc))
    # the same solves, had the rejected attempts never been made
    dts2 = np.full_like(dts, 0.09)
    for i, b in enumerate(behaviours):
        acc = [a for a in b["log"] if a["keep"]]
        for j, a in enumerate(acc):
            dts2[i, j] = rng(a["to"]) - rng(a["from"])
    want = jax.device_get(run(dts2, np.full_like(bads, -9.0), ad, n_acc))
    bad, facts = [], 0
    for i, b in enumerate(behaviours):
        def note(clause, **kw):
            bad.append((clause, dict(method=name, root_finder=finder, behaviour=b, **{k: str(v) for k, v in kw.items()})))

        res = sc.result_name(got["result"][i])
        facts += 3
        ok = {"done": res == "successful", "budget": res == "max_steps_reached", "unsolved": res.startswith("nonlinear") or res.startswith("other")}[b["outcome"]]
        if not ok:
            note("outcome", got=res)
        k = len(b["log"])
        log = got["log"][i]
        w = np.array([[rng(a["from"]), rng(a["to"]), a["keep"]] for a in b["log"]])
        if not np.allclose(log[:k], w, atol=1e-9) or (log[k:] != -1).any():
            note("attempts", got=log.tolist())
            continue
        acc = sum(a["keep"] for a in b["log"])
        if [int(x[i]) for x in got["stats"]] != [k, acc, k - acc]:
            note("statistics", got=[int(x[i]) for x in got["stats"]])
        if b["outcome"] == "unsolved":
            acc -= 1
        for key in ("a", "b"):
            u, v = got["ys"][key][i][:acc], want["ys"][key][i][:acc]
            facts += u.size
            if not np.allclose(u, v, rtol=1e-11, atol=1e-11) or not np.isfinite(u).all():
                note("a rejected attempt left a trace", got=u, want=v)
    return facts, bad[:3]


def check_accuracy(name, finder, tol):
    """A step that reports success solves its stage equations to the tolerance that was asked for."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import optimistix as optx

    cls = getattr(dfx, name)
    F = {"default": None, "chord": optx.Chord, "very": dfx.VeryChord, "newton": optx.Newton}[finder]
    ref = cls(root_finder=fixed_newton(), root_find_max_steps=20)
    # stiff, nonlinear, with couplings
    def f(t, y, args):
        a, b = y["a"], y["b"]
        return {"a": jnp.stack([-args * (a[0] ** 3 - jnp.cos(t)), a[0] * b - a[1]]), "b": -0.5 * args * (b - a[1] ** 2) + jnp.sin(a[0])}

    g = lambda t, y, args: {"a": 0.1 * y["a"] ** 2, "b": jnp.cos(y["b"])}
    two = name in TWO
    terms = dfx.MultiTerm(dfx.ODETerm(g), dfx.ODETerm(f)) if two else dfx.ODETerm(f)

    class Once(dfx.AbstractAdaptiveStepSizeController):
        rtol: float
        atol: float
        norm: object = optx.max_norm

        def wrap(self, direction):
            return self

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t1, None

        def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, state):
            return True, t1, t1 + 1.0, False, None, dfx.RESULTS.successful

    def solve(s, h, lam, y0):
        sol = dfx.diffeqsolve(terms, s, 0.3, 0.3 + h, None, y0, args=lam, stepsize_controller=Once(tol, tol), throw=False, max_steps=4)
        return jax.tree_util.tree_map(lambda x: x[-1], sol.ys), sol.result == dfx.RESULTS.successful

    s = cls() if F is None else cls(root_finder=F(rtol=tol, atol=tol), root_find_max_steps=40)
    hs, lams = np.meshgrid([0.01, 0.1, 0.4, 1.0], [0.1, 1.0, 5.0, 50.0])
    hs, lams = hs.ravel(), lams.ravel()
    out = []
    y0 = {"a": jnp.array([0.9, 0.2]), "b": jnp.array(-0.4)}
    for ss in (s, ref):
        out.append(jax.device_get(jax.jit(lambda a, b: jax.lax.map(lambda x: solve(ss, *x, y0), (a, b)))(hs, lams)))
    (y, ok), (yr, _) = out
    bad = []
    err = np.maximum(np.abs(y["a"] - yr["a"]).max(1), np.abs(y["b"] - yr["b"]))
    # (how much a stage error of this size can matter further on; measured: below 2)
    lim = 20 * tol * (1 + np.maximum(np.abs(yr["a"]).max(1), np.abs(yr["b"])))
    m = ok & ~(err <= lim)
    if m.any():
        i = int(np.argmax(m))
        bad.append(("a step reported as solved is not", dict(method=name, root_finder=finder, tol=tol, h=hs[i], stiffness=lams[i], error=float(err[i]), allowed=float(lim[i]))))
    return len(hs), bad, float((err / (tol * (1 + np.abs(yr["a"]).max(1))))[ok].max(initial=-1)), int(ok.sum())


def check_stability(name):
    """Decay however stiff the problem is, in one step; nothing but a linear system to solve."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    two = name in TWO
    s = getattr(dfx, name)(root_finder=dfx.VeryChord(rtol=1e-6, atol=1e-6))
    zs = -np.logspace(-2, 7, 37)
    A = np.array([[1.0, 0.3], [0.0, 1.0]])

    def one(z):
        f = lambda t, y, args: z * y
        terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, args: 0 * y), dfx.ODETerm(f)) if two else dfx.ODETerm(f)
        y0 = jnp.array([1.0, -2.0])
        t0, t1 = jnp.asarray(0.0), jnp.asarray(1.0)
        st = s.init(terms, t0, t1, y0, None)
        y1, err, _, _, res = s.step(terms, t0, t1, y0, None, st, jnp.array(False))
        return y1, res == dfx.RESULTS.successful

    y1, ok = jax.device_get(jax.jit(lambda z: jax.lax.map(one, z))(zs))
    bad = []
    if not ok.all():
        bad.append(("a linear stage equation could not be solved", dict(method=name, z=zs[~ok].tolist())))
    R = y1 / np.array([1.0, -2.0])
    if not np.allclose(R[:, 0], R[:, 1], rtol=1e-4, atol=1e-5):
        bad.append(("not linear", dict(method=name)))
    r = np.abs(R[:, 0])
    if (r > 1 + 1e-6).any():
        bad.append(("grows on a decaying problem", dict(method=name, z=float(zs[np.argmax(r)]), factor=float(r.max()))))
    return len(zs), bad, float(r[-1])


def o03(rep, tier, seed):
    r = tlc("MCStages", CFG.format(n=5 if tier == "thorough" else 4))
    rep.model(r)
    bs = r.behaviours
    plain = [b for b in bs if not any(a["inner"] for a in b["log"])]
    jobs = []
    for name in ONE + TWO:
        b = plain if name == "ImplicitEuler" else bs
        for finder in ("default", "very", "newton", "chord") if tier == "thorough" else ("default",):
            jobs.append((check_failures, (name, finder, b)))
    for name in TWO + ["ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5"]:
        for finder, tol in [("default", 1e-5), ("very", 1e-8)] + ([("newton", 1e-4), ("newton", 1e-9), ("chord", 1e-6), ("default", 1e-9)] if tier == "thorough" else []):
            if name == "Sil3" and finder in ("very",):
                pass
            jobs.append((check_accuracy, (name, finder, tol)))
        jobs.append((check_stability, (name,)))
    for (fn, a), (n, bad, *extra) in zip(jobs, pmap(jobs, x64=True)):
        rep.validated(n, fn.__name__)
        if extra:
            rep.notes.setdefault(fn.__name__, []).append([*a, *extra])
        rep.extend([("O03:" + c, d) for c, d in bad])
    rep.sample(bs[len(bs) // 2])
