"""spec/Batch.tla: what happens to one element of a batch is what happens to it alone, with the library's own parts."""
import random

import numpy as np

from .common import pmap, tlc
from .mirror import assemble, cover, flat_loss

CFG = """SPECIFICATION BSpec
CONSTANTS Families <- MCFamilies
 SolversOf <- MCSolversOf
 Controllers <- MCControllers
 Events <- MCEvents
 Adjoints <- MCAdjoints
 Values <- MCValues
 Kinds <- MCKinds
 N = 3
 Lanes = 4
INVARIANTS Own Frozen BEmit
"""
STEPS = 28


def element(kind, i):
    """inputs of a problem to which `kind` happens; the i-th of the batch, to tell them apart"""
    w = dict(T0=0.25 + 0.01 * i, T=1.5 - 0.02 * i, dt=1.0 - 0.05 * i, level=0.0, scale=1.0 + 0.1 * i)
    sgn, k, y0 = 1.0, 1.1 + 0.03 * i, [1.0 - 0.02 * i, 0.4]
    if kind == "short":
        w["T"] = w["T0"] + 0.2
    elif kind == "long":
        w["T"] = 2.6
    elif kind == "later":
        w["T0"] = 0.9
    elif kind == "backwards":
        sgn = -1.0
    elif kind == "still":
        w["T"] = w["T0"]
    elif kind == "rough":
        k = 4.0
    elif kind == "undefined":
        y0 = [np.nan, 0.4]
    elif kind == "early event":
        w["level"] = 0.4
    elif kind == "no event":
        w["level"] = -10.0
    return sgn, dict(k=np.asarray(k)), np.array(y0), {a: np.asarray(b) for a, b in w.items()}


def check_batch(prob, path, lanes):
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from . import scripted as sc

    run, _ = assemble(prob, path, max_steps=STEPS)
    with_grad = prob["adjoint"] != "none"

    def observe(sgn, p, y0, w):
        sol = run(sgn, p, y0, w)
        out = dict(ts=sol.ts, ys=sol.ys, stats={k: v for k, v in sol.stats.items() if k != "max_steps"}, result=sc.result_vec(sol.result), ends=(sol.t0, sol.t1))
        if sol.interpolation is not None:
            q = sgn * (w["T0"] + (w["T"] - w["T0"]) * jnp.array([-0.1, 0.0, 0.3, 0.7, 1.0, 1.2]))
            out["dense"] = jax.vmap(sol.evaluate)(q)
        if sol.event_mask is not None:
            out["event"] = sol.event_mask
        return out

    both = lambda *z: (observe(*z), jax.grad(lambda p, y: flat_loss(run(z[0], p, y, z[3]).ys), argnums=(0, 1))(*z[1:3]) if with_grad else None)
    elements = [element(k, i) for i, k in enumerate(lanes)]
    alone = eqx.filter_jit(both)
    want = [jax.device_get(alone(*e)) for e in elements]
    got = jax.device_get(jax.jit(jax.vmap(both))(*jax.tree_util.tree_map(lambda *x: np.stack(x), *elements)))
    tol = 1e-6 if prob["event"] in ("state-up", "time-root") or prob["adjoint"] == "backsolve" else 1e-8
    bad = []
    for i, k in enumerate(lanes):
        a, _ = jax.tree_util.tree_flatten_with_path(jax.tree_util.tree_map(lambda x: x[i], got))
        b, _ = jax.tree_util.tree_flatten_with_path(want[i])
        for (ka, x), (_, y) in zip(a, b):
            x, y = np.asarray(x, float), np.asarray(y, float)
            if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
                bad.append(("an element of a batch is not what it is alone", dict(prob=prob, path=path, lanes=lanes, element=i, kind=k, what=jax.tree_util.keystr(ka),
                                                                                 batch=x.tolist(), alone=y.tolist())))
                break
    return len(lanes), bad[:2]


def batch_jobs(rep, tier, seed):
    r = tlc("MCBatch", CFG, simulate=8000, seed=seed, depth=14)
    rep.model(r)
    rng = random.Random(seed)
    some, left = cover(r.behaviours, rng, 300 if tier == "thorough" else 36)
    rep.notes["pairs of parts not batched together"] = left
    return [(check_batch, (b["prob"], b["path"], b["lanes"])) for b in some]


def batch(rep, tier, seed):
    jobs = batch_jobs(rep, tier, seed)
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, "elements of batches of real problems")
        rep.sample(dict(prob=a[0], lanes=a[2]))
        rep.extend([("V01:" + c, d) for c, d in bad])
