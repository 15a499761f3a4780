"""spec/Memory.tla: what methods carry from step to step, against the real methods."""
import numpy as np

from .common import pmap, tlc
from .solvers import fixed_newton

CFG = """SPECIFICATION Spec
CONSTANTS Kinds <- MCKinds
 Dts <- MCDts
 Ticks <- MCTicks
 MaxAttempts = {n}
INVARIANTS OwnSlope OneBack Forget Emit
"""

ODE = ["Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ImplicitEuler", "Kvaerno3", "Kvaerno4",
       "Kvaerno5", "LeapfrogMidpoint", "ReversibleHeun", "HalfEuler", "HalfTsit5", "HalfHeun", "HalfKvaerno3", "HalfReversibleHeun"]
SPLIT = ["Sil3", "KenCarp3", "KenCarp4", "KenCarp5", "Tsit5", "Dopri5", "ReversibleHeun"]
CDE = ["Euler", "Heun", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ReversibleHeun", "Kvaerno4", "LeapfrogMidpoint", "HalfHeun"]
SDE = ["EulerHeun", "ItoMilstein", "StratonovichMilstein", "SEA", "SRA1", "ShARK", "GeneralShARK", "SlowRK", "SPaRK", "HalfSPaRK", "HalfEulerHeun"]
CASES = [("ode", s) for s in ODE] + [("split", s) for s in SPLIT] + [("cde", s) for s in CDE] + [("sde", s) for s in SDE] + [("pair", "SemiImplicitEuler")]


def build(fam, name):
    import diffrax as dfx
    import jax.numpy as jnp

    from .paths import LinearPath

    half = name.startswith("Half")
    S = getattr(dfx, name[4:] if half else name)
    s = S(root_finder=fixed_newton(), root_find_max_steps=20) if issubclass(S, dfx.AbstractImplicitSolver) else S()
    if half:
        s = dfx.HalfSolver(s)

    additive = name in ("SEA", "SRA1", "ShARK")

    def regime(t, args):
        seen = jnp.sum(t > args["bounds"])
        return jnp.where(args["fixed"] >= 0, args["fixed"], seen) * 1.0

    def f(t, y, args):
        r = 1 + 0.7 * regime(t, args)
        a, b = y["a"], y["b"]
        return {"a": r * jnp.stack([a[1] * b, -a[0] + 0.3 * t]), "b": jnp.cos(a[0]) - 0.2 * r * b}

    def f2(t, y, args):
        return {"a": -2.0 * y["a"] * (1 + regime(t, args)), "b": 0.1 * t * jnp.ones(()) - y["b"]}

    def g(t, y, args):
        r = 1 + 0.5 * regime(t, args)
        a, b = (np.zeros(2), 0.0) if additive else (y["a"], y["b"])
        cols = 1 if name in ("ItoMilstein", "StratonovichMilstein") else 2
        return {"a": r * jnp.stack([jnp.sin(a) + 0.2 * t, 0.3 + 0.1 * a], -1)[:, :cols], "b": jnp.stack([0.4 + 0.2 * b, 0.1 * r + t])[:cols]}

    # (a term with a control has a single array as its state)
    tree = lambda y: {"a": y[:2], "b": y[2]}
    flat = lambda z: jnp.concatenate([z["a"], z["b"][None]])
    ff_ = lambda t, y, a: flat(f(t, tree(y), a))
    gg = lambda t, y, a: flat(g(t, tree(y), a))
    cols = 1 if name in ("ItoMilstein", "StratonovichMilstein") else 2
    rng = np.random.default_rng(3)
    knots = np.linspace(-1, 4, 23)
    values = np.cumsum(rng.normal(size=(23, cols)), 0) * 0.3
    if fam == "ode":
        terms = dfx.ODETerm(f)
    elif fam == "split":
        terms = dfx.MultiTerm(dfx.ODETerm(f), dfx.ODETerm(f2))
    elif fam == "cde":
        terms = dfx.MultiTerm(dfx.ODETerm(ff_), dfx.ControlTerm(gg, dfx.LinearInterpolation(jnp.array(knots), jnp.array(values))))
    elif fam == "sde":
        terms = dfx.MultiTerm(dfx.ODETerm(ff_), dfx.ControlTerm(gg, LinearPath(jnp.array(knots), jnp.array(values), levy_area=dfx.SpaceTimeLevyArea)))
    else:
        ff = lambda t, q, args: {"a": q["a"] * (1 + regime(t, args)), "b": jnp.sin(q["b"]) + t}
        terms = (dfx.ODETerm(ff), dfx.ODETerm(lambda t, q, args: {"a": -ff(t, q, args)["a"], "b": q["a"][0]}))
    y0 = {"a": jnp.array([0.8, -0.4]), "b": jnp.array(0.6)}
    if fam in ("cde", "sde"):
        y0 = flat(y0)
    if fam == "pair":
        y0 = (y0, {"a": jnp.array([0.1, 0.7]), "b": jnp.array(-0.3)})
    return s, terms, y0


def nodes(cls):
    tab = getattr(cls, "tableau", None)
    return [0.0] + [float(c) for t in getattr(tab, "tableaus", (tab,)) for c in np.atleast_1d(getattr(t, "c", 0.0)).ravel()] if tab is not None else [0.0]


def check_case(fam, name, behaviours):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    import diffrax as dfx

    s, terms, y0 = build(fam, name)
    n, k = len(behaviours), len(behaviours[0]["log"])
    tick = lambda x: np.asarray(0.3 + 0.17 * np.asarray(x, float))
    bounds = np.full((n, 4), np.inf)
    for i, b in enumerate(behaviours):
        bounds[i, : len(b["boundaries"])] = tick(b["boundaries"])
    col = lambda key: np.array([[a[key] for a in b["log"]] for b in behaviours])
    # a stage beyond the end of the step sees the next regime early (Kvaerno4, Kvaerno5)
    late = max(nodes(getattr(dfx, name[4:] if name.startswith("Half") else name))) > 1 + 1e-9
    if late:
        bounds[:] = np.inf
    frm, to, reg, jumped, acc, jump = (col(c) for c in ("from", "to", "regime", "jumped", "accept", "jump"))
    if late:
        reg = 0 * reg
    # at a discontinuity the step ends just before it and the next one starts just after it
    t0s = np.where(jumped, np.nextafter(tick(frm), np.inf), tick(frm))
    t1s = np.where(jump, np.nextafter(tick(to), -np.inf), tick(to))
    THETA = (0.0, 0.3, 1.0)

    def arrays(x):
        return jtu.tree_map(lambda v: jnp.asarray(v) if eqx.is_array_like(v) else v, x)

    def one(t0, t1, y, st, jmp, args):
        y1, err, dense, st, res = s.step(terms, t0, t1, y, args, st, jmp)
        ip = s.interpolation_cls(t0=t0, t1=t1, **dense)
        return dict(y1=y1, err=err, dense=[ip.evaluate(t0 + th * (t1 - t0)) for th in THETA]), arrays(st), res == dfx.RESULTS.successful

    def fresh(t0, t1, y, args):
        st = arrays(s.init(terms, t0, t1, y, args))
        return one(t0, t1, y, st, jnp.array(False), args)

    # sequentially over histories: batching could legitimately share decisions between them
    seq = lambda fn: jax.jit(lambda *xs: jax.lax.map(lambda x: fn(*x), xs))
    j_one, j_fresh = seq(one), seq(fresh)
    j_init = seq(lambda t0, t1, y, a: arrays(s.init(terms, t0, t1, y, a)))
    base = name[4:] if name.startswith("Half") else name
    kind = {"LeapfrogMidpoint": "previous", "ReversibleHeun": "shadow"}.get(base, "slope")
    # in the harness's own hands: the companion state of ReversibleHeun
    rep = lambda x: np.repeat(np.asarray(x)[None], n, 0)
    y = jtu.tree_map(rep, y0)
    args = dict(bounds=bounds, fixed=np.full(n, -1))
    st = j_init(t0s[:, 0], t1s[:, 0], y, args)
    bad, facts = [], 0
    sel = lambda m, a, b: jtu.tree_map(lambda p, q: np.where(np.asarray(m).reshape((-1,) + (1,) * (np.ndim(p) - 1)), p, q), a, b)
    prev_t, prev_y = t0s[:, 0], y
    hat, hat_f = y, None

    def shadow(t0, t1, y, hat, jumped, first, af, ap):
        """Reversible Heun from its definition (af: args of this attempt; ap: of where the companion slope was taken)"""
        c = terms.contr(t0, t1)
        lin = lambda *z: jtu.tree_map(lambda *w: sum(co * x for co, x in zip((z[1::2]), w)), *z[0::2])
        at0 = terms.vf(t0, y, af)
        ath = terms.vf(t0, hat, ap)
        vf0 = jtu.tree_map(lambda p, q: jnp.where(jumped | first, p, q), at0, ath)
        k0 = terms.prod(vf0, c)
        hat1 = jtu.tree_map(lambda y, h, k: 2 * y - h + k, y, hat, k0)
        k1 = terms.prod(terms.vf(t1, hat1, af), c)
        return dict(y1=jtu.tree_map(lambda y, a, b: y + 0.5 * (a + b), y, k0, k1), err=jtu.tree_map(lambda a, b: 0.5 * (b - a), k0, k1)), hat1

    def leap(tp, yp, t0, t1, y, af):
        return dict(y1=jtu.tree_map(lambda a, b: a + b, yp, terms.vf_prod(t0, y, af, terms.contr(tp, t1))))

    for i in range(k):
        a, b = t0s[:, i], t1s[:, i]
        got, st1, ok = jax.device_get(j_one(a, b, y, st, jumped[:, i], args))
        fixed = dict(bounds=bounds, fixed=reg[:, i])
        if kind == "previous":
            want = jax.device_get(seq(leap)(prev_t, prev_y, a, b, y, fixed))
            hat1 = hat
        elif kind == "shadow" and not name.startswith("Half"):
            want, hat1 = jax.device_get(seq(shadow)(a, b, y, hat, jumped[:, i], np.full(n, i == 0), fixed, fixed))
        elif kind == "shadow":
            want, hat1 = {}, hat
        else:
            want, _, ok2 = jax.device_get(j_fresh(a, b, y, fixed))
            hat1 = hat
        if not np.all(ok):
            bad.append(("a step failed", dict(case=(fam, name), attempt=i)))
        for key in want:
            for (path, g), (_, w) in zip(jtu.tree_flatten_with_path(got[key])[0], jtu.tree_flatten_with_path(want[key])[0]):
                facts += n
                d = np.abs(g - w).reshape(n, -1).max(1)
                m = ~(d <= 1e-9 * (1 + np.abs(w).reshape(n, -1).max(1)))
                if m.any():
                    j = int(np.argmax(m))
                    bad.append((f"{key} depends on more than it should", dict(case=(fam, name), attempt=i, history=behaviours[j]["log"][: i + 1],
                                                                             got=np.asarray(g[j]).tolist(), want=np.asarray(w[j]).tolist(), where=jtu.keystr(path))))
        keep = acc[:, i]
        prev_t = np.where(keep, a, prev_t)
        prev_y = sel(keep, y, prev_y)
        y, st, hat = sel(keep, got["y1"], y), sel(keep, jax.device_get(st1), jax.device_get(st)), sel(keep, hat1, hat)
    return facts, bad[:4]


def o02(rep, tier, seed):
    r = tlc("MCMemory", CFG.format(n=5 if tier == "thorough" else 3))
    rep.model(r)
    bs = r.behaviours
    cases = sorted(CASES, key=lambda c: -any(x in c[1] for x in ("Kv", "Ken", "Sil", "Half", "Dopri8")))
    jobs = [(check_case, (f, s, bs)) for f, s in cases]
    for (fn, a), (n, bad) in zip(jobs, pmap(jobs, x64=True)):
        rep.validated(n, f"steps of {a[1]} ({a[0]})")
        rep.sample(dict(case=a[:2], history=bs[0]["log"]))
        rep.extend([("O02:" + c, d) for c, d in bad])
