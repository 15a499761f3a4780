"""spec/Terms.tla: terms, their sums, presentations and adjoints, against the real terms and solves."""
import random

import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS Leaves <- MCLeaves
 Shapes <- MCShapes
 Paths <- MCPaths
 States <- MCStates
 Params <- MCParams
 Starts <- MCStarts
 Dirs <- MCDirs
 NSteps = 2
INVARIANTS Grouping Additive Diagonal Pairing Emit
"""
PRESENTATIONS = ["array", "pytree", "lineax", "shaped"]
NMONO = 3


def signature(t):
    return t["kind"] if t["kind"] != "multi" else tuple(signature(x) for x in t["of"])


def poly(P):
    """coefficients and exponents of (y1, y2, t, p)"""
    c, e = np.zeros(NMONO), np.zeros((NMONO, 4))
    for i, m in enumerate(P):
        c[i] = m["c"]
        e[i] = [*m["y"], m["t"], m["p"]]
    return dict(c=c, e=e)


def data(t):
    if t["kind"] == "multi":
        return [data(x) for x in t["of"]]
    f = t["f"] if t["kind"] != "mat" else [P for row in t["f"] for P in row]
    ps = [poly(P) for P in f]
    return dict(c=np.stack([q["c"] for q in ps]), e=np.stack([q["e"] for q in ps]))


def evaluate(d, t, y, p):
    """all polynomials of a leaf"""
    import jax.numpy as jnp

    z = jnp.stack([y[0], y[1], jnp.asarray(t, y.dtype), jnp.asarray(p, y.dtype)])
    e = d["e"]
    pw = jnp.where(e == 0, 1.0, jnp.where(e == 1, z, z * z))
    return jnp.sum(d["c"] * jnp.prod(pw, -1), -1)


def presentation(kind, how, get, ticks, values):
    """One leaf. get(args) -> data; the state and control are presented as `how` says."""
    import diffrax as dfx
    import jax.numpy as jnp
    import lineax as lx
    import warnings

    if how == "pytree":
        into = lambda v: {"u": v[0], "v": v[1][None]}
        out = lambda y: jnp.stack([y["u"], y["v"][0]])
    else:
        into = lambda v: v
        out = lambda y: y

    def field(t, y, args):
        d = get(args)
        return evaluate(d, t, out(y), args["p"])

    if kind == "ode":
        return dfx.ODETerm(lambda t, y, a: into(field(t, y, a)))
    path = dfx.LinearInterpolation(ticks, values)
    call = lambda a, b: path.evaluate(a, b)
    if kind == "diag":
        if how == "pytree":
            tree = dfx.LinearInterpolation(ticks, {"u": values[:, 0], "v": values[:, 1:]})
            # (leaf by leaf: a scalar against a scalar, a one-by-one matrix against a vector)
            return dfx.ControlTerm(lambda t, y, a: {"u": field(t, y, a)[0], "v": field(t, y, a)[1][None, None]}, tree)
        if how == "array":
            return dfx.ControlTerm(lambda t, y, a: jnp.diag(field(t, y, a)), path)
        if how == "lineax":
            return dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(field(t, y, a)), call)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return dfx.WeaklyDiagonalControlTerm(lambda t, y, a: field(t, y, a), path)
    mat = lambda t, y, a: jnp.reshape(field(t, y, a), (2, 2))
    if how == "pytree":
        tree = dfx.LinearInterpolation(ticks, {"u": values, "v": values})
        return dfx.ControlTerm(lambda t, y, a: {"u": mat(t, y, a)[0], "v": mat(t, y, a)[1][None]}, tree)
    if how == "array":
        return dfx.ControlTerm(lambda t, y, a: mat(t, y, a), path)
    if how == "lineax":
        return dfx.ControlTerm(lambda t, y, a: lx.MatrixLinearOperator(mat(t, y, a)), call)
    shaped = dfx.LinearInterpolation(ticks, values[:, None, :])
    return dfx.ControlTerm(lambda t, y, a: mat(t, y, a)[:, None, :], shaped)


def assemble(sig, how, get, ticks, values):
    import diffrax as dfx

    if isinstance(sig, str):
        return presentation(sig, how, get, ticks, values)
    return dfx.MultiTerm(*[assemble(s, how, (lambda a, i=i: get(a)[i]), ticks, values) for i, s in enumerate(sig)])


def group(sig, bs, hows):
    """All behaviours of one structure, in every presentation."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.tree_util as jtu
    from diffrax._term import AdjointTerm

    bad, n = [], 0
    ticks = jnp.arange(-4.0, 5.0)
    stack = lambda f: jtu.tree_map(lambda *z: np.stack(z), *[f(b) for b in bs])
    args = dict(d=stack(lambda b: data(b["term"])), p=np.array([b["p"] for b in bs], float))
    values = np.array([b["path"] for b in bs], float)
    t0, y0, dr = (np.array([b[k] for b in bs], float) for k in ("t0", "y0", "dir"))
    a0 = np.array([b["a"] for b in bs], float)
    want = {k: np.array([[s[k] for s in b["log"]] for b in bs], float) for k in ("y", "da", "dp")}
    ref = None
    leaves = lambda s: [s] if isinstance(s, str) else [x for z in s for x in leaves(z)]
    for how in hows:
        if how == "pytree":
            into, out = (lambda v: {"u": v[0], "v": v[1][None]}), (lambda y: jnp.stack([y["u"], y["v"][..., 0]], -1))
        else:
            into = out = lambda v: v

        def observe(t0, y0, a0, dr, values, args):
            term = assemble(sig, how, lambda a: a["d"], ticks, values)
            y = into(y0)
            res = {}
            sol = dfx.diffeqsolve(term, dfx.Euler(), t0, t0 + 2 * dr, dr, y, args, saveat=dfx.SaveAt(steps=True), max_steps=2)
            res["euler"] = out(sol.ys)
            t1 = t0 + dr
            c = term.contr(t0, t1)
            res["vf_prod"] = y0 + out(term.vf_prod(t0, y, args, c))
            res["prod"] = y0 + out(term.prod(term.vf(t0, y, args), c))
            # additivity, linearity
            tm = t0 + 0.25 * dr
            c2 = jtu.tree_map(lambda a, b: a + b, term.contr(t0, tm), term.contr(tm, t1))
            res["additive"] = y0 + out(term.vf_prod(t0, y, args, c2))
            adj = AdjointTerm(term)
            zero = lambda x: jtu.tree_map(lambda v: jnp.zeros_like(v) if jnp.issubdtype(jnp.result_type(v), jnp.inexact) else None, x)
            aug = (y, into(a0), zero(args), None)
            dy, da, dargs, _ = adj.vf_prod(t0, aug, args, c)
            res["adj"] = dict(dy=y0 + out(dy), da=out(da), dp=dargs["p"])
            # a smooth stretch of a control is a rate
            if sig in ("diag", "mat") and how in ("array", "pytree"):
                th = t0 + 0.5 * dr
                res["ode"] = (out(term.to_ode().vf(th, y, args)), out(term.vf_prod(th, y, args, term.contr(th - 0.5, th + 0.5))))
            solves = {}
            for name, S in (("Heun", dfx.Heun), ("Tsit5", dfx.Tsit5), ("ReversibleHeun", dfx.ReversibleHeun)):
                s = dfx.diffeqsolve(term, S(), t0 + 0.1, t0 + 0.1 + 0.24 * dr, 0.06 * dr, y, args, saveat=dfx.SaveAt(ts=t0 + 0.1 + dr * jnp.array([0.03, 0.17, 0.24])), max_steps=8)
                solves[name] = out(s.ys)
            return res, solves

        what = dict(structure=str(sig), presentation=how)
        try:
            res, solves = jax.device_get(jax.jit(jax.vmap(observe))(t0, y0, a0, dr, values, args))
        except Exception as e:
            bad.append(("cannot be solved", dict(what, error=repr(e)[:400])))
            continue
        cmp = [("solve with Euler's method", res["euler"], want["y"]), ("vf_prod", res["vf_prod"], want["y"][:, 0]), ("prod of vf and contr", res["prod"], want["y"][:, 0]),
               ("control over adjoining stretches", res["additive"], want["y"][:, 0])]
        if "adj" in res:
            cmp += [("adjoint: state", res["adj"]["dy"], want["y"][:, 0]), ("adjoint: covector", res["adj"]["da"], want["da"][:, 0]), ("adjoint: parameter", res["adj"]["dp"], want["dp"][:, 0])]
        if "ode" in res:
            cmp.append(("as an ODE", *res["ode"]))
        if ref is None:
            ref = solves
        cmp += [(f"{k} solve depends on the presentation", solves[k], ref[k]) for k in solves]
        for name, got, w in cmp:
            d = np.abs(np.asarray(got) - np.asarray(w)) / (1 + np.abs(np.asarray(w)))
            d = d.reshape(len(bs), -1).max(-1)
            n += len(bs)
            if not d.max() < 1e-9:
                j = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
                bad.append((name, dict(what, term=bs[j]["term"], direction=bs[j]["dir"], t0=bs[j]["t0"], y0=bs[j]["y0"], p=bs[j]["p"], path=bs[j]["path"],
                                       got=np.asarray(got)[j], want=np.asarray(w)[j])))
    return n, bad[:5]


def m01(rep, tier, seed):
    big = tier == "thorough"
    r = tlc("MCTerms", CFG, simulate=12000 if big else 2500, seed=seed, depth=4)
    rep.model(r)
    groups = {}
    for b in r.behaviours:
        groups.setdefault(signature(b["term"]), []).append(b)
    rng = random.Random(seed)
    sigs = sorted(groups, key=str)
    if not big:
        # the three leaves, and a sample of the sums
        sums = [s for s in sigs if not isinstance(s, str)]
        sigs = [s for s in sigs if isinstance(s, str)] + rng.sample(sums, min(9, len(sums)))
    rep.sample(dict(term=r.behaviours[0]["term"], path=r.behaviours[0]["path"], log=r.behaviours[0]["log"]))
    jobs = [(group, (s, groups[s], PRESENTATIONS)) for s in sigs]
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, "terms and solves")
        rep.extend([("M01:" + c, d) for c, d in bad])
