"""Stochastic differential equations: spec/Sde.tla against the real solvers."""
import itertools
import random

import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS Noises = {noises}
 MaxWeight = {w}
 Values <- {v}
 Durations = {d}
INVARIANTS WellFounded KnownMeans Determined Rules EmitCat EmitPath
"""

# What is claimed (documentation and strong_order): solver, sense, kind of noise, twice the strong order.
# exact: weights reproduced along every path; mean: weights reproduced on average.
CLAIMS = [
    ("Euler", "ito", "general", 1), ("Euler", "ito", "additive", 2),
    ("EulerHeun", "strat", "general", 1), ("Heun", "strat", "general", 1), ("Midpoint", "strat", "general", 1),
    ("Ralston", "strat", "general", 1), ("ReversibleHeun", "strat", "general", 1),
    ("ItoMilstein", "ito", "scalar", 2), ("StratonovichMilstein", "strat", "scalar", 2),
    ("SEA", "strat", "additive", 2), ("SRA1", "strat", "additive", 3), ("ShARK", "strat", "additive", 3),
    ("SPaRK", "strat", "additive", 3), ("SPaRK", "strat", "scalar", 2), ("SPaRK", "strat", "general", 1),
    ("GeneralShARK", "strat", "additive", 3), ("GeneralShARK", "strat", "scalar", 2), ("GeneralShARK", "strat", "general", 1),
    ("SlowRK", "strat", "additive", 3), ("SlowRK", "strat", "scalar", 3), ("SlowRK", "strat", "general", 1),
]

# The lowest weight the error estimate sees, along with the kind of noise (None: no estimate).
ESTIMATE = {"Heun": 2, "Midpoint": 2, "Ralston": 2, "ReversibleHeun": 2, "SRA1": 3, "ShARK": 3, "SPaRK": 3}
# SEA: the drift sees the space-time area, so one weight more than its strong order is exact (local order 3/2)
ALSO = {"SEA": 3}
# the strong order a method reports is for the most general noise it has an order for
REPORTED = {name: 3 if name == "SlowRK" else min(c[3] for c in CLAIMS if c[0] == name) for name in {c[0] for c in CLAIMS}}


def is_additive(cat, t):
    """Noise nodes only multiply functions of time."""
    ok = all(is_additive(cat, cat[k - 1]) for k in t["kids"])
    if t["colour"] > 1:
        ok = ok and all(cat[k - 1]["colour"] == 1 and not cat[k - 1]["kids"] for k in t["kids"])
    return ok


def fields(cat, noises, additive):
    """drift(t, y), diffusion(t, y) of the triangular system; args = time of the start."""
    import jax.numpy as jnp

    m = len(cat)
    width = max(1, max(len(t["kids"]) for t in cat))
    idx = np.full((m, width), m)
    for i, t in enumerate(cat):
        for j, k in enumerate(t["kids"]):
            clock = cat[k - 1]["colour"] == 1 and not cat[k - 1]["kids"] and (additive and t["colour"] > 1)
            idx[i, j] = m + 1 if clock else k - 1
    col = np.array([t["colour"] for t in cat])
    mask = np.stack([col == c + 2 for c in range(noises)], 1)

    def prods(t, y, args):
        ext = jnp.concatenate([y, jnp.ones(1), jnp.reshape(t - args, (1,))])
        return jnp.prod(ext[idx], axis=1)

    def drift(t, y, args):
        return jnp.where(col == 1, prods(t, y, args), 0.0)

    def diffusion(t, y, args):
        if additive:
            # must not depend on y at all
            ext = jnp.concatenate([jnp.zeros(m), jnp.ones(1), jnp.reshape(t - args, (1,))])
            p = jnp.prod(ext[idx], axis=1)
        else:
            p = prods(t, y, args)
        return jnp.where(mask, p[:, None], 0.0)

    return drift, diffusion


def one_step(name, cat, noises, additive, scalar):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    from .paths import FixedAreas

    drift, diffusion = fields(cat, noises, additive)
    solver = getattr(dfx, name)()
    if scalar:
        g = lambda t, y, a: diffusion(t, y, a)[:, 0]
    else:
        g = diffusion

    def run(t0, h, W, H):
        pick = (lambda x: x[0]) if scalar else (lambda x: x)
        path = FixedAreas(pick(W), pick(H), pick(jnp.zeros_like(W)))
        terms = dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(g, path))
        y0 = jnp.zeros(len(cat))
        st = solver.init(terms, t0, t0 + h, y0, t0)
        y1, err, _, _, _ = solver.step(terms, t0, t0 + h, y0, t0, st, made_jump=False)
        return y1, (jnp.full_like(y1, jnp.nan) if err is None else err)

    return jax.jit(jax.vmap(run, in_axes=(None, 0, 0, 0)))


def reported(name):
    import diffrax as dfx
    import jax.numpy as jnp

    from .paths import FixedAreas

    s, z = getattr(dfx, name)(), jnp.zeros(())
    terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: y), dfx.ControlTerm(lambda t, y, a: y, FixedAreas(z, z, z)))
    p = REPORTED[name] / 2
    return [("reported strong order", s.strong_order(terms), p), ("reported order of the error estimate", s.error_order(terms), p + 0.5),
            ("reported order of the error estimate, halved", dfx.HalfSolver(s).error_order(terms), p + 0.5)]


def check_method(name, sense, kind, twice, cat, paths):
    """One row of CLAIMS."""
    noises = len(paths[0]["w"])
    additive = kind == "additive"
    trees = [t for t in cat]
    run = one_step(name, trees, noises, additive, scalar=noises == 1 and name != "Heun")
    keep = [i for i, t in enumerate(trees) if not additive or is_additive(cat, t)]
    bad, n = [], 3
    # what the step size control is told: an estimate of weight (twice the strong order + 1), also when halved
    for what, got, want in reported(name):
        if got is None or abs(float(got) - want) > 1e-12:
            bad.append((f"{name}: {what}", dict(solver=name, got=got, want=want)))
    h = np.array([float(p["h"]) for p in paths])
    W = np.array([[float(x) for x in p["w"]] for p in paths])
    H = np.array([[x / (2 * p["h"]) for x in p["sh"]] for p in paths])
    for t0 in (0.0, -3.0):
        y, e = (np.asarray(x) for x in run(t0, h, W, H))
        lowest = ESTIMATE.get(name)
        if name == "SPaRK" and kind == "general" and noises > 1:
            lowest = 2
        if (lowest is None) != bool(np.isnan(e).all()):
            bad.append((f"{name}: existence of an error estimate", dict(solver=name, noise=kind)))
        elif lowest is not None:
            n += e.size
            sees = lambda ws: [trees[i] for i in keep if trees[i]["weight"] in ws and not np.abs(e[:, i]).max() < 1e-9]
            if sees(range(lowest)):
                bad.append((f"{name}: error estimate sees a lower order", dict(solver=name, noise=kind, trees=sees(range(lowest)))))
            if max(t["weight"] for t in trees) >= lowest and not sees((lowest,)) and (noises == 1 or not additive):
                bad.append((f"{name}: error estimate is blind", dict(solver=name, noise=kind, weight=lowest)))
        for i in keep:
            t = trees[i]
            if t["weight"] > max(twice, ALSO.get(name, 0)):
                continue
            want = np.array([p["val"][i][0] / p["val"][i][1] for p in paths])
            if sense == "ito" and t["weight"] == 2 and t["colour"] > 1:
                same = trees[t["kids"][0] - 1]["colour"] == t["colour"] if t["kids"] else False
                want = want - (h / 2 if same else 0)
            n += len(paths)
            d = np.abs(y[:, i] - want) / (1 + np.abs(want))
            if not d.max() < 1e-9:
                j = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
                bad.append((f"{name} along a path", dict(solver=name, noise=kind, tree=t, path=paths[j]["path"], h=h[j], W=W[j],
                                                         H=H[j], got=y[j, i], want=want[j])))
    # means: a distribution of increments and areas with the moments (up to the fifth) of Brownian motion
    for hh in (1.0, 0.25):
        pw, ph = np.sqrt(3 * hh), np.sqrt(hh / 4)
        pts = [(x, p) for x, p in ((-1, 1 / 6), (0, 2 / 3), (1, 1 / 6))]
        grid = list(itertools.product(pts, repeat=2 * noises))
        Wm = np.array([[g[j][0] * pw for j in range(noises)] for g in grid])
        Hm = np.array([[g[noises + j][0] * ph for j in range(noises)] for g in grid])
        pr = np.array([np.prod([x[1] for x in g]) for g in grid])
        y, _ = (np.asarray(x) for x in run(0.5, np.full(len(grid), hh), Wm, Hm))
        for i in keep:
            t = trees[i]
            if t["weight"] > twice + 1:
                continue
            num, den = t[sense]
            want = num / den * hh ** (t["weight"] / 2) if t["weight"] % 2 == 0 else 0.0
            got = float(pr @ y[:, i])
            n += 1
            if not abs(got - want) < 1e-9:
                bad.append((f"{name} on average", dict(solver=name, noise=kind, tree=t, h=hh, got=got, want=want)))
    return n, bad[:5]


def models(tier):
    big = tier == "thorough"
    v = "MCValues" if big else "MCFew"
    import concurrent.futures as cf

    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(tlc, "MCSde", CFG.format(noises=1, w=4, v=v, d="{1, 2, 3}"), workers=4)
        b = ex.submit(tlc, "MCSde", CFG.format(noises=2, w=3 if big else 2, v=v, d="{2}" if big else "{1, 2}"), workers=3)
        return a.result(), b.result()


def n01(rep, tier, seed):
    jobs = []
    for noises, r in zip((1, 2), models(tier)):
        rep.model(r)
        cat = next(b["trees"] for b in r.behaviours if "trees" in b)
        paths = [b for b in r.behaviours if "path" in b]
        rep.sample(dict(path=paths[-1]["path"], areas=[paths[-1]["sh"], paths[-1]["sk"]], trees=len(cat)))
        top = max(t["weight"] for t in cat)
        for name, sense, kind, twice in CLAIMS:
            if noises == 2 and (kind == "scalar" or twice + 1 > top and kind != "additive"):
                continue
            if noises == 2 and twice + 1 > top:
                twice = top - 1
            jobs.append((check_method, (name, sense, kind, twice, cat, paths)))
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, f"{a[0]} {a[2]}")
        rep.extend([("N01:" + c, d) for c, d in bad])
