"""Brownian paths: spec/Brownian.tla and spec/Levy.tla against the real generators."""
import itertools
import random

import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS N = {n}
 Values <- {v}
 MaxQueries = {m}
INVARIANTS OnePath Additive Areas Emit
"""

KINDS = ("BrownianIncrement", "SpaceTimeLevyArea", "SpaceTimeTimeLevyArea")


def make(kind, t0, t1, tol, shape, key):
    import diffrax as dfx
    import jax.random as jr

    return dfx.VirtualBrownianTree(t0, t1, tol, shape=shape, key=jr.key(key), levy_area=getattr(dfx, kind))


def answers(path, lo, hi):
    """Everything a query returns, as a dict of pytrees."""
    inc = path.evaluate(lo, hi, use_levy=True)
    out = dict(dt=inc.dt, W=inc.W)
    for f in "HK":
        if hasattr(inc, f):
            out[f] = getattr(inc, f)
    return out


def replay_queries(schedules, kind, places, seed):
    """places: how ticks become times: (t0, t1, tol, offsets per tick)."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr

    S = jax.ShapeDtypeStruct
    bad, n = [], 0
    shape = dict(p=S((2, 3), jnp.float64), q=(S((), jnp.float64), S((1,), jnp.float64)))

    def make_(t0, t1, tol, key):
        return dfx.VirtualBrownianTree(t0, t1, tol, shape=shape, key=key, levy_area=getattr(dfx, kind))

    flat = lambda x, m: np.concatenate([np.reshape(l, m + (-1,)) for l in jax.tree_util.tree_leaves(x)], -1)
    ask = jax.jit(lambda w, lo, hi: jax.vmap(lambda a, b: answers(make_(*w), a, b))(lo, hi))
    one = jax.jit(lambda w, lo, hi: answers(make_(*w), lo, hi))
    plain = jax.jit(lambda w, lo, hi: (make_(*w).evaluate(lo, hi), make_(*w).evaluate(lo), make_(*w).evaluate(hi),
                                       make_(*w).evaluate(w[0])))
    m = max(len(s["q"]) for s in schedules)
    rows = [s["q"] + [s["q"][0]] * (m - len(s["q"])) for s in schedules]
    for j, (t0, t1, tol, ticks) in enumerate(places):
        w = (jnp.array(t0), jnp.array(t1), jnp.array(tol), jr.key(seed + j))
        span = t1 - t0
        LO = np.array([[ticks[a] for a, _ in r] for r in rows])
        HI = np.array([[ticks[b] for _, b in r] for r in rows])
        O = {f: flat(v, LO.shape) for f, v in
             ((f, jax.tree_util.tree_map(lambda x: np.reshape(x, LO.shape + x.shape[1:]), v))
              for f, v in jax.device_get(ask(w, LO.ravel(), HI.ravel())).items())}
        for k, s in enumerate(schedules):
            q = rows[k]
            lo, hi = LO[k], HI[k]
            o = {f: v[k] for f, v in O.items()}
            n += 1
            say = lambda what, **kw: bad.append((what, dict(kind=kind, interval=(t0, t1), tol=tol, queries=list(zip(lo, hi)), **kw)))
            h = (hi - lo)[:, None]
            if np.abs(o["dt"] - h).max() > 1e-12 * max(1, abs(t0), abs(t1)):
                say("duration of a query", got=o["dt"].tolist())
                break
            W = o["W"]
            if not np.isfinite(W).all():
                say("undefined values")
            if kind != KINDS[0]:
                I1 = h * (W / 2 + o["H"])
            if kind == KINDS[2]:
                I2 = h * h * (o["K"] + W / 6 + o["H"] / 2)
            for x, y in itertools.combinations(range(m), 2):
                if q[x] == q[y] and any((o[f][x] != o[f][y]).any() for f in o):
                    say("same question, different answer", x=x, y=y)
            for x, y, z in itertools.permutations(range(m), 3):
                if q[x][1] == q[y][0] and q[z][0] == q[x][0] and q[z][1] == q[y][1]:
                    hy = hi[y] - lo[y]
                    tol_ = 1e-9 * span**0.5
                    if np.abs(W[z] - W[x] - W[y]).max() > tol_:
                        say("increments do not add up", x=q[x], y=q[y], W=W[[x, y, z]].tolist())
                    if kind != KINDS[0] and np.abs(I1[z] - (I1[x] + hy * W[x] + I1[y])).max() > tol_ * span:
                        say("space-time areas do not fit together", x=q[x], y=q[y], H=o["H"][[x, y, z]].tolist())
                    if kind == KINDS[2] and np.abs(I2[z] - (I2[x] + hy * I1[x] + hy**2 / 2 * W[x] + I2[y])).max() > tol_ * span**2:
                        say("space-time-time areas do not fit together", x=q[x], y=q[y], K=o["K"][[x, y, z]].tolist())
            if k % 7 == 0:
                # alone, and from another instance with the same key: the same answer
                r = (k // 7) % m
                single = {f: flat(v, ()) for f, v in jax.device_get(one(w, lo[r], hi[r])).items()}
                if any(np.abs(single[f] - o[f][r]).max() > 1e-11 * max(1, span**0.5) for f in "W"):
                    say("answer depends on what else is asked", r=r, got={f: v.tolist() for f, v in single.items()},
                        want={f: v[r].tolist() for f, v in o.items()})
                # without areas; as the difference of two values
                inc, a, b, start = (flat(x, ()) for x in jax.device_get(plain(w, lo[r], hi[r])))
                if np.abs(inc - W[r]).max() > 1e-11 * span**0.5 or np.abs(b - a - W[r]).max() > 1e-9 * span**0.5:
                    say("increment is not the difference of the values", r=r)
                if np.abs(start).max() > 1e-12:
                    say("the path does not start at zero", got=start.tolist())
            if len(bad) > 5:
                return n, bad
    return n, bad


def leaves_differ(kind, seed):
    """Different leaves, entries and keys are different (not copies of one another)."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    S = jax.ShapeDtypeStruct
    bad = []
    shape = dict(p=S((2, 3), jnp.float64), q=(S((), jnp.float64), S((6,), jnp.float64)), r=S((2, 3), jnp.float32))
    vals = []
    for k in (seed, seed + 1):
        for path in (make(kind, 0.0, 2.0, 0.1, shape, k),
                     dfx.UnsafeBrownianPath(shape, jax.random.key(k), getattr(dfx, kind))):
            for a, b in ((0.0, 2.0), (0.3, 1.7)):
                o = answers(path, a, b)
                want = jax.tree_util.tree_map(lambda s: s.dtype, shape)
                if jax.tree_util.tree_map(lambda x: x.dtype, o["W"]) != want:
                    bad.append(("wrong dtype", dict(kind=kind, path=type(path).__name__)))
                for f in o:
                    if f != "dt":
                        vals.append(np.concatenate([np.ravel(x).astype("float64") for x in jax.tree_util.tree_leaves(o[f])]))
    v = np.concatenate(vals)
    if len(np.unique(v.astype("float32"))) != len(v):
        bad.append(("leaves, areas, stretches or keys share their randomness", dict(kind=kind)))
    return len(vals), bad


def places(rng):
    """Where the ticks 0..6 lie: at cell boundaries, inside cells, many in one cell, other intervals."""
    out = []
    for t0, t1, tol in ((0.0, 1.0, 2.0**-3), (0.0, 1.0, 2.0**-10), (-2.0, 5.0, 0.01), (3.0, 3.5, 0.4)):
        span = t1 - t0
        for how in ("even", "random", "close"):
            if how == "even":
                u = np.array([0, 1, 2, 4, 5, 7, 8]) / 8
            elif how == "random":
                u = np.sort(np.array([rng.random() for _ in range(7)]))
            else:
                u = 0.3 + np.array([0, 1, 2, 3, 5, 8, 13]) * 0.7 * tol / span / 4
                u = np.clip(u, 0, 1)
                if len(set(u)) < 7:
                    continue
            out.append((t0, t1, tol, (t0 + span * u).tolist()))
    return out


def n02(rep, tier, seed):
    big = tier == "thorough"
    rng = random.Random(seed)
    r1 = tlc("MCBrownian", CFG.format(n=4, v="MCValues", m=2), workers=4)
    r2 = tlc("MCBrownian", CFG.format(n=4, v="OneValue", m=3), workers=4)
    r3 = tlc("MCBrownian", CFG.format(n=6, v="MCValues", m=9), simulate=3000 if big else 400, seed=seed, depth=12)
    jobs = []
    for r in (r1, r2, r3):
        rep.model(r)
    ss = rng.sample(r2.behaviours, min(len(r2.behaviours), 400 if big else 40)) + r3.behaviours[: 3000 if big else 60]
    rep.sample(ss[-1])
    pl = places(rng)
    for kind in KINDS:
        for i in range(3):
            jobs.append((replay_queries, (ss, kind, pl[i::3], seed + i)))
        jobs.append((leaves_differ, (kind, seed)))
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, f"{f.__name__}")
        rep.extend([("N02:" + c, d) for c, d in bad])


# ------------------------------------------------------------------ distribution


def sample_moments(kind, which, t0, t1, tol, ticks, m, seed, dtype):
    """Standardised increments and areas over consecutive stretches: sums of products."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr

    cls = getattr(dfx, kind)
    lo, hi = np.array(ticks[:-1]), np.array(ticks[1:])
    S = jax.ShapeDtypeStruct((2,), dtype)

    def draw(key):
        if which == "tree":
            path = dfx.VirtualBrownianTree(t0, t1, tol, shape=S, key=key, levy_area=cls)
        else:
            path = dfx.UnsafeBrownianPath(S, key, cls)

        def one(a, b):
            o = answers(path, a, b)
            h = (b - a).astype(dtype)
            z = [o["W"] / jnp.sqrt(h)]
            if "H" in o:
                z.append(o["H"] / jnp.sqrt(h / 12))
            if "K" in o:
                z.append(o["K"] / jnp.sqrt(h / 720))
            return jnp.stack(z)  # (areas, 2)

        return jax.vmap(one)(lo.astype(dtype), hi.astype(dtype)).reshape(-1)

    batch = 4000
    f = jax.jit(lambda k: jax.vmap(draw)(jr.split(k, batch)))
    zz = None
    tot = 0
    for i in range(m // batch):
        z = np.asarray(f(jr.key(seed * 1000 + i)), "float64")
        if zz is None:
            d = z.shape[1]
            zz, s1, s4 = np.zeros((d, d)), np.zeros(d), np.zeros(d)
        zz += z.T @ z
        s1 += z.sum(0)
        s4 += (z**4).sum(0)
        tot += batch
    cov, mean, kurt = zz / tot, s1 / tot, s4 / tot
    lim = 6.5 / np.sqrt(tot)
    bad = []
    where = lambda i: dict(stretch=(float(lo[i // (d // len(lo))]), float(hi[i // (d // len(lo))])),
                           area="WHK"[(i % (d // len(lo))) // 2], entry=i % 2)
    info = dict(kind=kind, which=which, interval=(t0, t1), tol=tol, samples=tot, dtype=dtype)
    for i in range(d):
        if not abs(mean[i]) < lim:
            bad.append(("mean", dict(info, at=where(i), got=mean[i], limit=lim)))
        if not abs(cov[i, i] - 1) < lim * 2**0.5:
            bad.append(("variance", dict(info, at=where(i), got=cov[i, i], limit=lim * 2**0.5)))
        if not abs(kurt[i] - 3) < lim * 96**0.5 * 1.3:
            bad.append(("fourth moment", dict(info, at=where(i), got=kurt[i])))
        for j in range(i):
            if not abs(cov[i, j]) < lim:
                bad.append(("dependence", dict(info, at=where(i), and_=where(j), got=cov[i, j], limit=lim)))
    return d * (d + 1) // 2 + 2 * d, bad[:5]


class UnitDraws:
    """Stands in for jax.random.normal and multivariate_normal: every number drawn becomes the next unit vector.

    What a Brownian path returns is a linear function of the standard normal numbers it draws.
    When entry i of the drawn array stands for "one if this is the i-th number drawn", the
    entries of the path's answer are the coefficients of that linear function, and the second
    moments of spec/Levy.tla are sums of products of coefficients: exact, without samples.
    The same key in the same position is the same number wherever it is drawn again."""

    D = 211
    seen, calls = {}, 0  # of the class: compiled functions keep the callback they were traced with

    @classmethod
    def units(cls, key, shape, axis):
        rest = shape[:axis] + shape[axis + 1:]
        out = np.zeros(rest + (cls.D,))
        for pos in itertools.product(*map(range, rest)):
            k = cls.seen.setdefault((np.asarray(key).tobytes(), pos), len(cls.seen))
            out[pos + (k % cls.D,)] = 1.0
        cls.calls += 1
        return np.moveaxis(out, -1, axis)

    def __enter__(self):
        import jax
        import jax._src.random as inner
        import jax.numpy as jnp

        UnitDraws.seen, UnitDraws.calls = {}, 0
        self.where = [(m, n, getattr(m, n)) for m in (jax.random, inner) for n in ("normal", "multivariate_normal")]
        real, real_multi = jax.random.normal, jax.random.multivariate_normal

        def normal(key, shape=(), dtype=None, **kw):
            shape_ = tuple(shape)
            if shape_.count(self.D) != 1:
                return real(key, shape) if dtype is None else real(key, shape, dtype)
            data = jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
            axis = shape_.index(self.D)
            dtype_ = jnp.dtype(dtype or float)
            f = lambda k: UnitDraws.units(k, shape_, axis).astype(dtype_)
            return jax.pure_callback(f, jax.ShapeDtypeStruct(shape_, dtype_), data, vmap_method="sequential")

        def multivariate_normal(key, mean, cov, shape=None, dtype=None, **kw):
            if shape is None or tuple(shape).count(self.D) != 1:
                return real_multi(key, mean, cov, shape, dtype, **kw)
            u, s, _ = jnp.linalg.svd(cov)
            z = normal(key, tuple(shape) + mean.shape[-1:], dtype)
            return mean + jnp.einsum("ij,...j->...i", u * jnp.sqrt(s)[None, :], z)

        for mod, name, _ in self.where:
            setattr(mod, name, locals()[name])
        return self

    def __exit__(self, *exc):
        for mod, name, f in self.where:
            setattr(mod, name, f)


def exact_moments(kind, which, t0, t1, tol, ticks, seed):
    """The covariances of increments and areas over stretches between ticks: exactly those of spec/Levy.tla.

    With the stretches a..b, b..c and a..c of neighbouring ticks, so that the fine and the coarse
    answers are held against each other as well."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr

    S = jax.ShapeDtypeStruct((UnitDraws.D,), jnp.float64)
    cls = getattr(dfx, kind)
    stretches = list(zip(ticks[:-1], ticks[1:])) + list(zip(ticks[:-2], ticks[2:]))
    if which != "tree":
        stretches = stretches[: len(ticks) - 1]  # every stretch is drawn afresh there
    with UnitDraws() as draws:
        key = jr.key(seed)
        path = (dfx.VirtualBrownianTree(t0, t1, tol, shape=S, key=key, levy_area=cls) if which == "tree"
                else dfx.UnsafeBrownianPath(S, key, cls))
        f = jax.jit(lambda a, b: answers(path, a, b))
        rows, names = [], []
        for a, b in stretches:
            o = jax.device_get(f(jnp.array(a), jnp.array(b)))
            for nm in "WHK":
                if nm in o:
                    rows.append(np.asarray(o[nm]))
                    names.append((nm, a, b))
    if not draws.calls or len(draws.seen) > UnitDraws.D:
        return 0, []  # draws its numbers in a way this cannot follow; the samples decide
    Z = np.stack(rows)
    got = Z @ Z.T
    # the integrals of spec/Levy.tla: a stretch's W, H, K are fixed combinations of the path,
    # <W,W>=h, <H,H>=h/12, <K,K>=h/720, and a..c is put together from a..b and b..c
    base = {}
    n0 = len(ticks) - 1
    width = "WHK"[: len(rows) // len(stretches)]
    for i in range(n0):
        h = ticks[i + 1] - ticks[i]
        for j, nm in enumerate(width):
            v = np.zeros(n0 * len(width))
            v[i * len(width) + j] = (h, h / 12, h / 720)[j] ** 0.5
            base[nm, ticks[i], ticks[i + 1]] = v
    want = []
    for nm, a, c in names:
        if (nm, a, c) in base:
            want.append(base[nm, a, c])
            continue
        b = ticks[ticks.index(a) + 1]
        hx, hy, h = b - a, c - b, c - a
        w = lambda x, y, n="W": base.get((n, x, y), 0.0)
        W = w(a, b) + w(b, c)
        I1 = hx * (w(a, b) / 2 + w(a, b, "H")) + hy * w(a, b) + hy * (w(b, c) / 2 + w(b, c, "H"))
        H = I1 / h - W / 2
        i2 = lambda x, y, d: d * d * (w(x, y, "K") + w(x, y) / 6 + w(x, y, "H") / 2)
        i1 = lambda x, y, d: d * (w(x, y) / 2 + w(x, y, "H"))
        I2 = i2(a, b, hx) + hy * i1(a, b, hx) + hy**2 / 2 * w(a, b) + i2(b, c, hy)
        K = I2 / h**2 - W / 6 - H / 2
        want.append(dict(W=W, H=H, K=K)[nm])
    V = np.stack(want)
    ref = V @ V.T
    scale = np.sqrt(np.outer(np.diag(ref), np.diag(ref)))
    off = np.abs(got - ref) / scale
    bad = []
    if not off.max() < 1e-8:
        i, j = np.unravel_index(np.nanargmax(off), off.shape)
        bad.append(("second moments", dict(kind=kind, which=which, interval=(t0, t1), tol=tol, x=names[i], y=names[j],
                                           got=float(got[i, j]), want=float(ref[i, j]), entries=int((off > 1e-8).sum()))))
    return off.size, bad


def n03(rep, tier, seed):
    big = tier == "thorough"
    rng = random.Random(seed)
    # stretches between consecutive ticks of spec/Brownian.tla's schedules: independent, with the law of the model
    r = tlc("MCBrownian", CFG.format(n=4, v="MCValues", m=2), workers=4)
    rep.model(r)
    m = 400000 if big else 100000
    jobs = []
    for kind in KINDS:
        pl = [(0.0, 1.0, 2.0**-3, [0, 0.125, 0.25, 0.5, 0.625, 0.875, 1.0]),
              (0.0, 1.0, 2.0**-3, [0.01, 0.13, 0.3, 0.45, 0.7, 0.99]),
              (-2.0, 6.0, 0.2, [-1.7, -1.1, 0.1, 1.3, 2.05, 4.9, 5.95]),
              (0.0, 4.0, 4.0, [0.0, 1.0, 4.0][:2] + [4.0]),
              (1.0, 2.0, 2.0**-6, sorted(1 + (i + rng.random()) / 8 for i in range(8)))]
        for p in pl:
            jobs.append((sample_moments, (kind, "tree", *p, m, seed, "float64")))
        jobs.append((sample_moments, (kind, "tree", *pl[1], m, seed, "float32")))
        jobs.append((sample_moments, (kind, "unsafe", 0.0, 1.0, 0.0, [0.0, 0.1, 0.5, 2.0, 9.0], m, seed, "float64")))
        for p in pl + [(t0, t1, tol, t) for t0, t1, tol, t in places(rng) if min(np.diff(t)) > 2 * tol]:
            jobs.append((exact_moments, (kind, "tree", *p, seed)))
        jobs.append((exact_moments, (kind, "unsafe", 0.0, 1.0, 0.0, [0.0, 0.1, 0.5, 2.0, 9.0], seed)))
    exact = 0
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        exact += n if f is exact_moments else 0
        rep.validated(n, f"{f.__name__} {a[0]} {a[1]}")
        rep.extend([("N03:" + c, d) for c, d in bad])
    rep.notes["exact_second_moments"] = exact
    rep.notes["samples_per_configuration"] = m
