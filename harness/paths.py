"""Driving paths that are linear between knots, with their exact increments and Levy areas."""
from typing import Any, ClassVar

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np


class LinearPath(dfx.AbstractBrownianPath):
    """Pretends to be Brownian: spec/Levy.tla's paths. knots: (k,), values: pytree of (k, ...)."""

    knots: Any
    values: Any
    levy_area: Any = eqx.field(static=True, default=dfx.SpaceTimeTimeLevyArea)

    @property
    def t0(self):
        return self.knots[0]

    @property
    def t1(self):
        return self.knots[-1]

    def _areas(self, a, b, v):
        shape = v.shape[1:]
        v = v.reshape(v.shape[0], -1)
        u = jnp.clip(self.knots, a, b)
        val = jax.vmap(lambda col: jnp.interp(u, self.knots, col), 1, 1)(v)
        wa = jax.vmap(lambda col: jnp.interp(a, self.knots, col), 1)(v)
        wb = jax.vmap(lambda col: jnp.interp(b, self.knots, col), 1)(v)
        h = b - a
        safe = jnp.where(h == 0, 1.0, h)
        # int over each piece of B and of B * (h/2 - s): B is linear there, Simpson's rule is exact for both
        s = u - a
        B = (val - wa) - (s / safe)[:, None] * (wb - wa)
        m = lambda x: 0.5 * (x[1:] + x[:-1])
        d = jnp.diff(u)[:, None]
        H = jnp.sum(d * m(B), 0) / safe
        g = (h / 2 - s)[:, None]
        Bm, gm = m(B), m(g)
        K = jnp.sum(d / 6 * ((B * g)[1:] + 4 * Bm * gm + (B * g)[:-1]), 0) / safe**2
        r = lambda x: x.reshape(shape)
        return r(wb - wa), r(H), r(K), r(wa)

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        if t1 is None:
            t0, t1 = self.knots[0], t0
        leaves, tree = jax.tree_util.tree_flatten(self.values)
        out = [self._areas(t0, t1, v) for v in leaves]
        W, H, K, _ = (jax.tree_util.tree_unflatten(tree, list(x)) for x in zip(*out))
        if not use_levy:
            return W
        dt = jax.tree_util.tree_map(lambda _: t1 - t0, W)
        if self.levy_area is dfx.SpaceTimeTimeLevyArea:
            return dfx.SpaceTimeTimeLevyArea(dt=dt, W=W, H=H, K=K)
        if self.levy_area is dfx.SpaceTimeLevyArea:
            return dfx.SpaceTimeLevyArea(dt=dt, W=W, H=H)
        return dfx.BrownianIncrement(dt=dt, W=W)


class FixedAreas(dfx.AbstractBrownianPath):
    """Whatever stretch of time is asked about, the increment and areas are the given ones."""

    W: Any
    H: Any
    K: Any
    levy_area: Any = eqx.field(static=True, default=dfx.SpaceTimeTimeLevyArea)

    @property
    def t0(self):
        return -jnp.inf

    @property
    def t1(self):
        return jnp.inf

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        if not use_levy:
            return self.W
        dt = jax.tree_util.tree_map(lambda _: t1 - t0, self.W)
        return dfx.SpaceTimeTimeLevyArea(dt=dt, W=self.W, H=self.H, K=self.K)
