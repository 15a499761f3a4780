"""spec/Meter.tla: what progress meters show, against the real ones."""
import contextlib
import io
import random
import re

import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS
  Batches = {batches}
  Moves = {moves}
  Budget <- MCBudget
  Increases = {{0, 1, 3, 7, 33}}
  Refreshes = {{1, 2, 3, 7}}
INVARIANTS Bounds Monotone Prompt Sparse Regular Truthful Emit
{live}
"""
SLOTS = 6


def percentages(kind, text):
    if kind == "text":
        rows = text.split("\n")
        if rows[-1] != "" or not all(re.fullmatch(r"\d+\.\d\d%", r) for r in rows[:-1]):
            return text
        return [float(r[:-1]) for r in rows[:-1]]
    return [float(x) for x in re.findall(r"(\d+\.\d\d)%(?!/)", text)]


def machine():
    import diffrax as dfx
    import equinox as eqx
    import jax.numpy as jnp

    class Listed(dfx.AbstractStepSizeController):
        """Attempt k goes moves[k] sixteenths; none: a step of one that is rejected."""

        moves: object
        unit: object

        def width(self, k):
            m = self.moves[jnp.minimum(k, SLOTS - 1)]
            return jnp.where(m == 0, 1, m) * self.unit

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + self.width(0), jnp.array(0)

        def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, k):
            keep = self.moves[jnp.minimum(k, SLOTS - 1)] != 0
            a = jnp.where(keep, t1, t0)
            return keep, a, a + self.width(k + 1), jnp.array(False), k + 1, dfx.RESULTS.successful

        def wrap(self, direction):
            return self

    return Listed


def replay_meter(kind, par, n, behaviours, seed):
    import os

    os.environ["TQDM_MININTERVAL"] = "1000000"  # drawn when refreshed, not when time has passed
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    try:
        from diffrax._progress_meter import _progress_meter_manager as manager
    except ImportError:  # kept elsewhere: then nothing is said about meters left open
        manager = None
    left = lambda: len(getattr(manager, "bars", ()))

    Listed = machine()
    term = dfx.ODETerm(lambda t, y, k: k * y)
    meter = dfx.TextProgressMeter(par / 16) if kind == "text" else dfx.TqdmProgressMeter(refresh_steps=par)
    budget = {1: 6, 2: 4, 3: 3}[n]

    def solve(moves, t0, t1, k, meter=meter, adjoint=dfx.RecursiveCheckpointAdjoint()):
        s = dfx.diffeqsolve(term, dfx.Euler(), t0, t1, None, 1.0 + 0 * k, k, stepsize_controller=Listed(moves, jnp.abs(t1 - t0) / 16),
                            max_steps=budget, progress_meter=meter, throw=False, adjoint=adjoint)
        return s.ys[-1], s.stats["num_steps"]

    def every(f):
        return (lambda *a: jax.tree_util.tree_map(lambda x: x[None], f(*[x[0] for x in a]))) if n == 1 else jax.vmap(f)

    def way(what, m):
        if what == "grad":
            return jax.grad(lambda mv, t0, t1, k: jnp.sum(every(lambda *a: solve(*a, meter=m))(mv, t0, t1, k)[0]), 3)
        if what == "forward":
            f = lambda mv, t0, t1, k: every(lambda *a: solve(*a, meter=m, adjoint=dfx.ForwardMode()))(mv, t0, t1, k)
            return lambda mv, t0, t1, k: jax.jvp(lambda q: f(mv, t0, t1, q)[0], (k,), (jnp.ones_like(k),))
        return every(lambda *a: solve(*a, meter=m))

    ways = ["plain", "grad", "forward"]
    run = {(w, m is meter): jax.jit(way(w, m)) for w in ways for m in (meter, dfx.NoProgressMeter())}
    bad, cnt = [], 0
    rng = random.Random(seed)
    for j, b in enumerate(behaviours):
        mv = np.zeros((n, SLOTS), "int64")
        for k, row in enumerate(b["log"]):
            mv[:, k] = row
        # what is overshot is clipped; positions stay in sixteenths
        t0, t1 = ((0.0, 16.0), (8.0, -8.0), (-1.0, 1.0))[j % 3]
        args = (jnp.asarray(mv), jnp.full(n, t0), jnp.full(n, t1), jnp.linspace(0.1, 0.2, n))
        w = ways[0] if j % 4 else ways[1 + (j // 4) % 2]
        out = io.StringIO()
        before = left()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            got = jax.device_get(run[w, True](*args))
            jax.effects_barrier()
        want = jax.device_get(run[w, False](*args))
        cnt += 1
        info = dict(b, way=w, interval=(t0, t1))
        lines = percentages(kind, out.getvalue())
        expect = [float(f"{100 * x / 16:.2f}") for x in b["lines"]]
        if lines != expect:
            bad.append(("G01:what is shown", dict(info, got=lines, want=expect)))
        if left() != before:
            bad.append(("G01:a meter is left open", info))
        for x, y in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
            if not np.array_equal(x, y, equal_nan=True):
                bad.append(("G01:the meter changes the solution", dict(info, got=x.tolist(), want=y.tolist())))
        if len(bad) > 4:
            break
    return cnt, bad


def g01(rep, tier, seed):
    big = tier == "thorough"
    rng = random.Random(seed)
    bs = []
    for cfg in (dict(batches="{1}", moves="{0, 2, 4, 10}"), dict(batches="{2}", moves="{0, 4, 10}"), dict(batches="{3}", moves="{0, 6, 16}")):
        r = tlc("MCMeter", CFG.format(live="PROPERTY Closes", **cfg), workers=8)
        rep.model(r)
        bs += r.behaviours
    groups = {}
    for b in bs:
        groups.setdefault((b["kind"], b["par"], b["n"]), []).append(b)
    jobs = []
    for (k, p, n), xs in sorted(groups.items()):
        xs.sort(key=str)
        jobs.append((replay_meter, (k, p, n, rng.sample(xs, min(len(xs), 400 if big else 45)), seed)))
    for (f, a), (c, bad) in zip(jobs, pmap(jobs)):
        rep.validated(c, a[0])
        rep.extend(bad)
    rep.sample(bs[0])
    rep.sample(bs[-1])
