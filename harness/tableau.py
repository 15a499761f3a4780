"""spec/Tableau.tla: methods given by an arbitrary tableau, executed by the real Runge-Kutta machinery."""
import random

import numpy as np

from .common import pmap, tlc
from .solvers import fixed_newton, system

CFG = """SPECIFICATION TSpec
CONSTANTS Colours = 1
 MaxOrder = 4
 TabKinds <- MCKinds
 Coeffs <- MCCoeffs
 MaxStages = {s}
INVARIANTS LastStageSolution Consistent TEmit
"""


def make_solver(b):
    import diffrax as dfx
    from typing import ClassVar

    t = b["tab"]
    a = np.array(t["a"], float) / t["den"]
    bs, be = np.array(t["b"], float) / t["den"], np.array(t["e"], float) / t["den"]
    m = t["stages"]
    kw = {}
    if t["kind"] != "erk":
        # the predictor only provides the starting point of the nonlinear solve
        kw = dict(a_diagonal=np.diag(a).copy(), c1=float(a[0, 0]),
                  a_predictor=tuple(np.ones(i) / i for i in range(1, m)))
    tab = dfx.ButcherTableau(a_lower=tuple(a[i, :i] for i in range(1, m)), b_sol=bs, b_error=be, c=a.sum(1)[1:], **kw)
    base = {"erk": dfx.AbstractERK, "dirk": dfx.AbstractDIRK, "sdirk": dfx.AbstractSDIRK, "esdirk": dfx.AbstractESDIRK}[t["kind"]]
    ns = dict(tableau=tab, interpolation_cls=dfx.LocalLinearInterpolation, order=lambda self, terms: 1, __module__=__name__,
              __annotations__=dict(tableau=ClassVar, interpolation_cls=ClassVar))
    if t["kind"] != "erk":
        # like the library's own implicit methods
        ns["root_finder"] = fixed_newton()
        ns["root_find_max_steps"] = 20
        ns["__annotations__"].update(root_finder=object, root_find_max_steps=int)
    cls = type("Custom", (base,), ns)
    return cls()


def check_tableau(b):
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    s = make_solver(b)
    bad = []
    note = lambda clause, **kw: bad.append((clause, dict(tableau=b["tab"], **{k: str(v) for k, v in kw.items()})))
    q = lambda ws: np.array([x / y for x, y in ws])
    sol, err = q(b["sol"]), q(b["err"])
    facts = 0
    for family in ("ode", "clock", "control"):
        f, order, _ = system(b["trees"], 4, None, family == "clock")
        rate = 1.0
        if family == "control":
            # the same equation, driven by a path of slope 2
            rate = 2.0
            ctl = dfx.LinearInterpolation(jnp.array([-50.0, 50.0]), jnp.array([-100.0, 100.0]))
            terms = dfx.ControlTerm(f, ctl)
        else:
            terms = dfx.ODETerm(f)

        @eqx.filter_jit
        def two(t0, h1, h2):
            y0 = jnp.zeros(len(order))
            args = dict(t0=t0, gain=jnp.asarray(1.0))
            st = s.init(terms, t0, t0 + h1, y0, args)
            y1, e1, d1, st, r1 = s.step(terms, t0, t0 + h1, y0, args, st, jnp.array(False))
            y2, e2, _, _, r2 = s.step(terms, t0 + h1, t0 + h1 + h2, y1, args, st, jnp.array(False))
            st = s.init(terms, t0 + h1, t0 + h1 + h2, y1, args)
            y2f, e2f, _, _, r3 = s.step(terms, t0 + h1, t0 + h1 + h2, y1, args, st, jnp.array(False))
            ok = [r == dfx.RESULTS.successful for r in (r1, r2, r3)]
            return y1, e1, y2, e2, y2f, e2f, ok

        for t0, h1, h2 in ((0.0, 1.0, 1.0), (2.0, 0.5, 0.75)):
            y1, e1, y2, e2, y2f, e2f, ok = jax.device_get(two(jnp.asarray(t0), jnp.asarray(h1), jnp.asarray(h2)))
            facts += 4 * len(order)
            if not all(ok):
                note("a step failed", family=family)
            scale = (rate * h1) ** order
            want, wante = sol * scale, err * scale
            if family == "clock":
                # stage times are the row sums, so the clock and a leaf agree; only the leaf itself is not a parent
                pass
            tol = lambda w: 1e-9 * (1 + np.abs(w))
            for what, g, w in (("solution", y1, want), ("error estimate", e1, wante), ("second step", y2, y2f), ("second error estimate", e2, e2f)):
                m = ~(np.abs(g - w) <= tol(w))
                if m.any():
                    i = int(np.argmax(m))
                    note(f"{what} is not what the tableau says", family=family, tree=b["trees"][i], got=g[i], want=w[i], t0=t0, h=(h1, h2))
    return facts, bad


def pick(bs, rng, per):
    strata = {}
    for b in bs:
        t = b["tab"]
        last = t["b"] == t["a"][-1]
        almost = not last and t["b"][:-1] == t["a"][-1][:-1]
        strata.setdefault((t["kind"], t["stages"], last, b["fsal"], almost, t["a"][-1][-1] == 0), []).append(b)
    out = []
    for k in sorted(strata):
        v = strata[k]
        out += rng.sample(v, min(per, len(v)))
    return out, len(strata)


def o04(rep, tier, seed):
    r = tlc("MCTableau", CFG.format(s=4 if tier == "thorough" else 3), simulate=400 if tier == "thorough" else 60, seed=seed, depth=30)
    rep.model(r)
    some, strata = pick(r.behaviours, random.Random(seed), 6 if tier == "thorough" else 2)
    rep.notes["kinds of tableaus"] = strata
    jobs = [(check_tableau, (b,)) for b in some]
    for (fn, a), (n, bad) in zip(jobs, pmap(jobs, x64=True)):
        rep.validated(n, "facts about tableaus")
        rep.sample(dict(tableau=a[0]["tab"], solution=a[0]["sol"]))
        rep.extend([("O04:" + c, d) for c, d in bad])
