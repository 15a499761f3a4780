"""Scripted numerical method, step size controller, events and saving functions.

They plug into diffrax's public extension points and do exactly what
spec/Integrate.tla says the environment does, so that a behaviour of the specification
can be replayed into the real `diffeqsolve`."""
from typing import Any, ClassVar

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
from jaxtyping import PyTree


class Interp(dfx.AbstractLocalInterpolation):
    t0: Any
    t1: Any
    y0: Any
    k: Any

    def evaluate(self, t0, t1=None, left=True):
        if t1 is not None:
            a, b = self.evaluate(t0), self.evaluate(t1)
            return jax.tree_util.tree_map(lambda x, y: y - x, a, b)
        return dict(a=self.y0["a"] + (t0 - self.t0) * self.k, log=self.y0["log"])


def _mod(x, n):
    return jnp.mod(x, n)


class Method(dfx.AbstractSolver):
    """args: dict(base=internal time of tick 0, badw=...)"""

    term_structure: ClassVar = dfx.AbstractTerm
    interpolation_cls: ClassVar = Interp

    def order(self, terms):
        return 1

    def init(self, terms, t0, t1, y0, args):
        return jnp.zeros((), y0["a"].dtype)

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        a, ss = y0["a"], solver_state
        dtype = a.dtype
        tick0, tick1 = t0 - args["base"], t1 - args["base"]
        mj = jnp.asarray(made_jump).astype(dtype)
        w = tick1 - tick0
        k = _mod(a + 2 * ss + 3 * mj + tick0 + 5 * w, 7) - 3
        y1a = a + w * k
        n = y0["log"][0, 0].astype(int)
        log = y0["log"].at[0, 0].add(1)
        row = jnp.stack([tick0, tick1, ss, mj, a, y1a]).astype(dtype)
        log = log.at[n + 1].set(row)
        ss1 = _mod(2 * ss + 3 * mj + 1, 11)
        fails = (args["badw"] != 0) & (w == args["badw"])
        result = dfx.RESULTS.where(
            fails, dfx.RESULTS.nonlinear_divergence, dfx.RESULTS.successful
        )
        return dict(a=y1a, log=log), None, dict(y0=y0, k=k), ss1, result


class Controller(dfx.AbstractStepSizeController):
    keep: Any
    dt: Any
    gap: Any
    cfail: Any
    rows: int = eqx.field(static=True, default=12)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        dtype = jnp.result_type(t0)
        return t0 + dt0, (jnp.array(0), jnp.full((self.rows, 9), -77.0, dtype))

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, cs):
        i, log = cs
        keep = self.keep[i]
        gap = self.gap[i]
        n = y0["log"][0, 0].astype(int)
        row = y1_candidate["log"][n + 1]
        rec = jnp.concatenate(
            [
                jnp.stack([t0 - args["base"], t1 - args["base"]]),
                row,
                jnp.where(keep, 1.0, 0.0)[None],
            ]
        ).astype(log.dtype)
        log = log.at[i].set(rec)
        tprev = jnp.where(keep, t1 + jnp.maximum(gap - 1, 0), t0)
        tnext = tprev + self.dt[i]
        mj = keep & (gap > 0)
        result = dfx.RESULTS.where(
            self.cfail[i], dfx.RESULTS.dt_min_reached, dfx.RESULTS.successful
        )
        return keep, tprev, tnext, mj, (i + 1, log), result


RESULT_NAMES = [
    "successful",
    "max_steps_reached",
    "dt_min_reached",
    "event_occurred",
    "max_steps_rejected",
    "internal_error",
    "nonlinear_max_steps_reached",
    "nonlinear_divergence",
]


def result_vec(result):
    return jnp.stack(
        [jnp.asarray(result == getattr(dfx.RESULTS, n)) for n in RESULT_NAMES if hasattr(dfx.RESULTS, n)]
    )


def result_name(vec):
    names = [n for n in RESULT_NAMES if hasattr(dfx.RESULTS, n)]
    hits = [n for n, b in zip(names, list(vec)) if b]
    return hits[0] if len(hits) == 1 else "other:" + ",".join(hits)


class Adaptive(dfx.AbstractAdaptiveStepSizeController):
    """As `Controller`, but an adaptive one (which others may wrap) and without gaps."""

    keep: Any
    dt: Any
    rows: int = eqx.field(static=True, default=12)
    rtol: Any = 1e-3
    atol: Any = 1e-6
    norm: Any = eqx.field(static=True, default=None)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, (jnp.array(0), jnp.full((self.rows, 9), -77.0, jnp.result_type(t0)))

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, cs):
        i, log = cs
        keep = self.keep[i]
        n = y0["log"][0, 0].astype(int)
        row = y1_candidate["log"][n + 1]
        rec = jnp.concatenate(
            [jnp.stack([t0 - args["base"], t1 - args["base"]]), row, jnp.where(keep, 1.0, 0.0)[None]]
        ).astype(log.dtype)
        tprev = jnp.where(keep, t1, t0)
        return (keep, tprev, tprev + self.dt[i], False, (i + 1, log.at[i].set(rec)),
                dfx.RESULTS.successful)
