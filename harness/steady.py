"""spec/Steady.tla against steady_state_event."""
import random

import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS
  Moves = {{{moves}}}
  Starts <- MCStarts
  Goals <- MCGoals
  Windows <- MCWindows
  Rtols = {{0, 1, 4}}
  Atols = {{0, 260, 1201, 2500}}
  Length = {length}
  Kinds = {{{kinds}}}
INVARIANTS Exact First StopsStill NeverLate Emit
"""
SLOTS = 8


def replay_steady(key, behaviours, seed):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    kind, rt, at, nm = key
    biggest = lambda v: jnp.max(jnp.abs(jnp.stack(jax.tree_util.tree_leaves(v))))
    total = lambda v: sum(jnp.abs(x) for x in jax.tree_util.tree_leaves(v))

    class Listed(dfx.AbstractAdaptiveStepSizeController):
        moves: object
        rtol: object = 2 / 16
        atol: object = 500.0
        norm: object = eqx.field(static=True, default=total)

        def width(self, k):
            m = self.moves[jnp.minimum(k, SLOTS - 1)]
            return jnp.where(m == 0, 1, m) * 0.25

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + self.width(0), jnp.array(0)

        def adapt_step_size(self, t0, t1, y0, y1, args, y_error, error_order, k):
            keep = self.moves[jnp.minimum(k, SLOTS - 1)] != 0
            a = jnp.where(keep, t1, t0)
            return keep, a, a + self.width(k + 1), jnp.array(False), k + 1, dfx.RESULTS.successful

        def wrap(self, direction):
            return self

    @eqx.filter_jit
    def run(moves, y0, goal, window, r, a, t0, sgn, n):
        def f(t, y, args):
            s = sgn * (t - t0)
            g = jnp.where((window[0] <= s) & (s < window[1]), 0.0, 1.0)
            return [sgn * g * (goal[i] - y[i]) for i in (0, 1)]

        cond = dfx.steady_state_event(r if rt == "given" else None, a if at == "given" else None, biggest if nm == "given" else None)
        ctrl = dfx.ConstantStepSize() if kind == "constant" else Listed(moves)
        if kind == "clip":
            ctrl = dfx.ClipStepSizeController(ctrl, store_rejected_steps=None)
        sol = dfx.diffeqsolve(dfx.ODETerm(f), dfx.Euler(), t0, t0 + sgn * n / 4, sgn * moves[0] * 0.25 if kind == "constant" else None, [y0[0], y0[1]],
                              stepsize_controller=ctrl, event=dfx.Event(cond), max_steps=16,
                              saveat=dfx.SaveAt(t1=True))
        return sol.ts[-1], jnp.stack([y[-1] for y in sol.ys]), dfx.is_event(sol.result), dfx.is_successful(sol.result), sol.event_mask

    bad, cnt = [], 0
    for j, b in enumerate(behaviours):
        c = b["cfg"]
        mv = np.zeros(SLOTS)
        mv[: len(b["log"])] = b["log"]
        if b["state"] != "end" and len(b["log"]) < SLOTS:
            mv[len(b["log"]):] = 1
        t0, sgn = ((0.0, 1.0), (2.0, -1.0), (-3.5, 1.0))[j % 3]
        goal, start = np.array(c["goal"], float), np.array(c["start"], float)
        w = np.array(c["window"]) / 4
        if kind == "constant" and not b["log"]:
            mv[:] = 1
        try:
            ts, ys, ev, ok, mask = jax.device_get(run(jnp.asarray(mv), goal - start, goal, w, c["r"] / 16, float(c["a"]), t0, sgn, b["length"]))
            got = "still" if ev else "end" if ok else "failed"
        except Exception as e:
            got, ts, ys, mask = "refused", None, None, None
        cnt += 1
        if got != b["state"]:
            bad.append(("S01:stops where it should not, or does not", dict(b, got=got, t=str(ts), y=str(ys), interval=(t0, sgn))))
        elif got != "refused":
            if ts != t0 + sgn * b["t"] / 4:
                bad.append(("S01:stopped at another time", dict(b, got=float(ts), interval=(t0, sgn))))
            elif not np.array_equal(ys, np.array(b["y"], float)):
                bad.append(("S01:stopped at another state", dict(b, got=ys.tolist())))
            elif bool(mask) != (got == "still"):
                bad.append(("S01:event mask", dict(b, got=str(mask))))
        if len(bad) > 4:
            break
    return cnt, bad


def s01(rep, tier, seed):
    big = tier == "thorough"
    rng = random.Random(seed)
    groups = {}
    for kinds, moves, length in (('"adaptive", "clip"', "0, 1, 2, 4", 6), ('"constant"', "1, 2", 6)):
        r = tlc("MCSteady", CFG.format(kinds=kinds, moves=moves, length=length), workers=8)
        rep.model(r)
        for b in r.behaviours:
            b["length"] = length
            c = b["cfg"]
            groups.setdefault((c["kind"], c["rtol"], c["atol"], c["norm"]), []).append(b)
    jobs = []
    for k, xs in sorted(groups.items()):
        xs.sort(key=str)
        jobs.append((replay_steady, (k, rng.sample(xs, min(len(xs), 2000 if big else 80)), seed)))
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, a[0][0])
        rep.extend(bad)
    rep.sample(jobs[-1][1][1][0])
