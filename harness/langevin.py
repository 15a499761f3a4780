"""spec/Langevin.tla: underdamped Langevin motion, against ALIGN, ShOULD and QUICSORT."""
import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS N = 6
 Problems <- MCProblems
 Rates <- {rates}
 Lengths = {lengths}
 Dirs <- MCDirs
INVARIANTS Determined Balance Fluctuation Emit
"""

SOLVERS = {"ALIGN": 4, "ShOULD": 6, "QUICSORT": 6}  # twice the order
ORDER = {"ALIGN": 2, "ShOULD": 3, "QUICSORT": 3}


def q(x):
    return x[0] / x[1]


def force_fn(f):
    """Force as data: same program for every problem. coefficients (2, m), exponents (2, m, 2)"""
    m = 4
    c, e = np.zeros((2, m)), np.zeros((2, m, 2))
    for i in range(2):
        for j, (co, idx) in enumerate(f[i]):
            c[i, j] = q(co)
            for k in idx:
                e[i, j, k - 1] += 1
    return c, e


def nodes(n, radius):
    return radius * np.cos((np.arange(n) + 0.5) * np.pi / n)


def power_series(y, radius):
    """Coefficients around zero of a function with values y (n, ...) at the Chebyshev nodes."""
    n = len(y)
    T = np.cos(np.outer(np.arange(n), (np.arange(n) + 0.5) * np.pi / n))
    ch = 2.0 / n * np.tensordot(T, y, 1)
    ch[0] /= 2
    out = np.zeros((7,) + y.shape[1:])
    for k in range(n):
        for w, c in enumerate(np.polynomial.chebyshev.cheb2poly(np.eye(n)[k])[:7]):
            out[w] += ch[k] * c / radius**w
    return out


def grad(x, a):
    import jax.numpy as jnp

    return jnp.sum(a["c"] * jnp.prod(jnp.where(a["e"] == 0, 1.0, jnp.where(a["e"] == 1, x, x**2)), -1), -1)


def stepper(name, threshold):
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    from .paths import FixedAreas

    solver = getattr(dfx, name)(threshold) if threshold is not None else getattr(dfx, name)()

    def run(h, W, H, K, x0, v0, a):
        drift = dfx.UnderdampedLangevinDriftTerm(a["gamma"], a["u"], grad)
        diff = dfx.UnderdampedLangevinDiffusionTerm(a["gamma"], a["u"], FixedAreas(W, H, K))
        terms = dfx.MultiTerm(drift, diff)
        t0 = jnp.zeros(())
        st = solver.init(terms, t0, t0 + h, (x0, v0), a)
        y1, err, dense, _, _ = solver.step(terms, t0, t0 + h, (x0, v0), a, st, made_jump=False)
        return y1, (jax.tree_util.tree_map(lambda z: z * jnp.nan, y1) if err is None else err)

    return run


def series(bs):
    """Each behaviour with each method: the weights of one step."""
    import jax
    import jax.numpy as jnp

    bad, n = [], 0
    radius, size = 0.5, 40
    eps = nodes(size, radius)
    col = lambda f: np.array([f(b) for b in bs], float)
    fs = [force_fn(b["prob"]["f"]) for b in bs]
    a = dict(gamma=col(lambda b: [q(z) for z in b["prob"]["gamma"]]), u=col(lambda b: [q(z) for z in b["prob"]["u"]]),
             c=np.array([f[0] for f in fs]), e=np.array([f[1] for f in fs]))
    dur = col(lambda b: b["dir"] * b["n"])
    W = col(lambda b: b["W"])
    H = col(lambda b: [s / (2 * b["n"]) for s in b["SH"]])
    K = col(lambda b: [s / (12 * b["n"] ** 2) for s in b["SK"]])
    x0, v0 = col(lambda b: b["prob"]["x0"]), col(lambda b: b["prob"]["v0"])
    sigma = col(lambda b: [q(z) for z in b["prob"]["sigma"]])
    want = {p: col(lambda b: [[q(z) for z in comp] for comp in b[p]]) for p in ("x", "v")}  # (n, 2, 7)
    est = col(lambda b: [q(z) for z in b["est"]])
    for name, top in SOLVERS.items():
        run = stepper(name, 1e6)
        one = jax.vmap(run, in_axes=(0, 0, 0, 0, None, None, None))
        f = jax.jit(jax.vmap(lambda d, w, hh, k, x, v, aa: one(eps**2 * d, eps[:, None] * w, eps[:, None] * hh, eps[:, None] * k, x, v, aa)))
        (x, v), (ex, ev) = jax.device_get(f(dur, W, H, K, x0, v0, a))
        fit = lambda y: np.moveaxis(power_series(np.moveaxis(y, 1, 0), radius), 0, -1)  # (n, 2, 7)
        wx, wv = want["x"].copy(), want["v"].copy()
        # the third moment is unknown to ALIGN
        upto = {"x": top, "v": top}
        if name == "ALIGN":
            wx[..., 5] += a["gamma"] * sigma * dur[:, None] ** 2 * K
            upto["x"] = 5
        for part, got, ref in (("x", fit(x), wx), ("v", fit(v), wv)):
            for w in range(upto[part] + 1):
                d = np.abs(got[..., w] - ref[..., w]) / (1 + np.abs(ref[..., w]))
                n += d.size
                if not d.max() < 1e-5:
                    j = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
                    b = bs[j[0]]
                    bad.append((f"{name}: one step", dict(behaviour={k: b[k] for k in ("prob", "dir", "n", "W", "SH", "SK")}, part=part, coordinate=int(j[1]),
                                                          weight=w, got=float(got[..., w][j]), want=float(ref[..., w][j]))))
        if name == "ALIGN":
            gx, gv = fit(ex), fit(ev)
            for w in range(5):
                ref = est if w == 4 else 0 * est
                d = np.abs(np.abs(gv[..., w]) - np.abs(ref)) + np.abs(gx[..., w])
                n += d.size
                if not d.max() < 1e-5:
                    j = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
                    b = bs[j[0]]
                    bad.append((f"{name}: error estimate", dict(behaviour={k: b[k] for k in ("prob", "dir", "n", "W", "SH", "SK")}, weight=w,
                                                                got=float(gv[..., w][j]), want=float(ref[j]))))
        elif not np.isnan(ev).all():
            bad.append((f"{name}: has an error estimate", {}))
    return n, bad[:6]


def branches(bs):
    """The two ways of computing the coefficients agree where both are accurate, in either direction."""
    import jax

    bad, n = [], 0
    for name in SOLVERS:
        taylor, direct = (jax.jit(jax.vmap(stepper(name, th), in_axes=(0, 0, 0, 0, 0, 0, 0))) for th in (1e6, 0.0))
        for al in (0.25, 0.1):
            rows = []
            for i, b in enumerate(bs):
                c, e = force_fn(b["prob"]["f"])
                g = max(q(z) for z in b["prob"]["gamma"]) * np.array([1.0, 0.7])
                h = b["dir"] * al / g.max()
                rows.append((h, 0.3 * np.array(b["W"], float), 0.2 * np.array([1.0, -1 + 0.1 * (i % 5)]), 0.1 * np.array([-1.0, 1 + 0.1 * (i % 3)]),
                             0.4 * np.array(b["prob"]["x0"], float), np.array(b["prob"]["v0"], float),
                             dict(gamma=g, u=np.array([q(z) for z in b["prob"]["u"]]), c=c, e=e)))
            args = jax.tree_util.tree_map(lambda *z: np.stack(z), *rows)
            outs = [jax.device_get(f(*args)[0]) for f in (taylor, direct)]
            d = np.abs(np.stack(outs[0]) - np.stack(outs[1])).max(0)
            n += d.size
            tol = 10 * al**6 / 720 + 1e-11
            if not d.max() < tol:
                j = int(np.argmax(d.max(-1)))
                bad.append((f"{name}: expansion and formula disagree", dict(behaviour={k: bs[j][k] for k in ("prob", "dir")}, gamma_h=al, difference=float(d.max()))))
    return n, bad[:6]


def sub_areas(name, W, H, K, m):
    """Increment and areas, on m equal parts, of the simplest path that the method takes (W, H, K) for; time in [0, 1]."""
    P = np.polynomial.Polynomial
    s = P([0, 1])
    # bridge moments: H = int B, K = int B (1/2 - s)
    if name == "QUICSORT":
        w = (W - 12 * K) * s  # with jumps at both ends, see `free`
    else:
        w = W * s + 6 * H * s * (1 - s) + (0 if name == "ALIGN" else 60 * K * s * (1 - s) * (1 - 2 * s))
    a = np.arange(m) / m
    dw = w(a + 1 / m) - w(a)
    z, wt = np.polynomial.legendre.leggauss(4)
    z, wt = (z + 1) / 2, wt / 2
    B = w(a[:, None] + z / m) - w(a)[:, None] - z * dw[:, None]
    return np.stack([dw, B @ wt, (B * (0.5 - z)) @ wt], -1)


def free(bs):
    """Without a force the methods are exact, however long the step: one step is the same as many short ones; and momentum."""
    import jax

    bad, n = [], 0
    m = 600
    rng = np.random.default_rng(5)
    free_bs = [b for b in bs if not any(b["prob"]["f"])]
    seen, keep = set(), []
    for b in free_bs:
        k = str((b["prob"], b["dir"]))
        if k not in seen:
            seen.add(k)
            keep.append(b)
    for name in SOLVERS:
        for th in (None, 0.0):
            run = stepper(name, th)
            short = stepper(name, 1e6)

            def many(h, parts, x0, v0, a):
                f = lambda c, p: (short(h / m, p[0], p[1], p[2], c[0], c[1], a)[0], None)
                return jax.lax.scan(f, (x0, v0), parts)[0]

            one, many = jax.jit(jax.vmap(run)), jax.jit(jax.vmap(many))
            rows, parts, sig, vin, vout, info = [], [], [], [], [], []
            for b in keep:
                c, e = force_fn(b["prob"]["f"])
                g, u, sigma = (np.array([q(z) for z in b["prob"][k]]) for k in ("gamma", "u", "sigma"))
                x0, v0 = (np.array(b["prob"][k], float) for k in ("x0", "v0"))
                for al in (0.3, 2.0, 6.0):
                    W, H, K = rng.normal(size=(3, 2)) * np.array([[1], [0.3], [0.1]])
                    rows.append((b["dir"] * al / g.max(), W, H, K, x0, v0, dict(gamma=g, u=u, c=c, e=e)))
                    parts.append(np.stack([sub_areas(name, W[i], H[i], K[i], m) for i in range(2)], -1))  # (m, 3, 2)
                    jump = name == "QUICSORT"
                    sig.append(sigma)
                    vin.append(v0 + sigma * (H + 6 * K) * jump)
                    vout.append(sigma * (H - 6 * K) * jump)
                    info.append(dict(behaviour={k: b[k] for k in ("prob", "dir")}, gamma_h=float(al * b["dir"]), W=W, H=H, K=K, threshold=th))
            h, W, H, K, x0, v0, a = jax.tree_util.tree_map(lambda *z: np.stack(z), *rows)
            (x1, v1), _ = jax.device_get(one(h, W, H, K, x0, v0, a))
            x2, v2 = jax.device_get(many(h, np.stack(parts), x0, np.stack(vin), a))
            v2 = v2 - np.stack(vout)
            scale = 1 + np.exp(np.maximum(0, -h * a["gamma"].max(-1)))
            d = np.maximum(np.abs(x1 - x2).max(-1), np.abs(v1 - v2).max(-1)) / scale
            dm = np.abs(v1 + a["gamma"] * x1 - v0 - a["gamma"] * x0 - np.stack(sig) * W).max(-1) / scale
            n += 2 * len(rows)
            for what, err in (("one long step is not many short ones", d), ("momentum", dm)):
                if not err.max() < 1e-7:
                    j = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
                    bad.append((f"{name}: {what}", dict(info[j], one=[x1[j], v1[j]], many=[x2[j], v2[j]])))
    return n, bad[:6]


def solves(dirs, variants):
    """Whole solves, states and coefficients as PyTrees, uneven steps, either direction: what single steps on flat arrays give."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    from .paths import LinearPath

    bad, n = [], 0
    rng = np.random.default_rng(11)
    knots = np.linspace(-1.0, 3.0, 9)
    vals = np.cumsum(rng.normal(size=(9, 3)), 0) * 0.4
    tree = lambda z: {"a": z[..., :2], "b": z[..., 2]}
    flat = lambda z: jnp.concatenate([z["a"], z["b"][None]])
    given = np.array([0.1, 0.13, 0.4, 0.7, 0.7 + 1e-13, 1.0, 1.6, 1.61, 2.2])

    def force(x, a):
        return {"a": a * jnp.stack([jnp.sin(x["a"][1]) + x["b"], x["a"][0] * x["b"]]), "b": x["b"] - x["a"][0]}

    shapes = {"scalar": (jnp.array(1.3), jnp.array(0.6)), "prefix": ({"a": 1.3, "b": 0.4}, jnp.array(0.5)),
              "full": ({"a": jnp.array([1.3, 8.0]), "b": jnp.array(0.4)}, {"a": 0.7, "b": jnp.array(0.2)})}
    full = lambda p: flat(jax.tree_util.tree_map(lambda s, t: jax.tree_util.tree_map(lambda u: jnp.broadcast_to(s, u.shape) * 1.0, t), p, tree(jnp.zeros(3))))
    path = LinearPath(jnp.array(knots), tree(jnp.array(vals)))
    fpath = LinearPath(jnp.array(knots), jnp.array(vals))
    y0 = (jnp.array([0.3, -0.5, 0.9]), jnp.array([1.0, 0.2, -0.7]))
    for name, direction, shape, ctl in [(s, d, sh, c) for s in SOLVERS for d in dirs for sh, c in variants]:
        gamma, u = shapes[shape]
        solver = getattr(dfx, name)()
        ts = given if direction == 1 else given[::-1]
        jump = ts[4]
        drift = dfx.UnderdampedLangevinDriftTerm(gamma, u, force)
        terms = dfx.MultiTerm(drift, dfx.UnderdampedLangevinDiffusionTerm(gamma, u, path))
        controller = dfx.StepTo(jnp.array(ts)) if ctl == "given" else dfx.ConstantStepSize()
        if ctl == "jump":
            controller = dfx.ClipStepSizeController(dfx.PIDController(rtol=1e-2, atol=1e-2), jump_ts=jnp.array([jump]))
        half = ctl == "jump" and name != "ALIGN"
        what = dict(solver=name, direction=direction, coefficients=shape, controller=ctl)

        @eqx.filter_jit
        def whole(args):
            return dfx.diffeqsolve(terms, dfx.HalfSolver(solver) if half else solver, ts[0], ts[-1], None if ctl == "given" else direction * 0.37, (tree(y0[0]), tree(y0[1])), args,
                                   saveat=dfx.SaveAt(t0=True, steps=True), stepsize_controller=controller, max_steps=60)

        @jax.jit
        def single(t0, t1, x, v, args):
            lo, hi = jnp.minimum(t0, t1), jnp.maximum(t0, t1)
            inc = fpath.evaluate(lo, hi, use_levy=True)
            from .paths import FixedAreas

            ft = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(full(gamma), full(u), lambda z, a: flat(force(tree(z), a))),
                               dfx.UnderdampedLangevinDiffusionTerm(full(gamma), full(u), FixedAreas(direction * inc.W, inc.H, direction * inc.K)))
            st = solver.init(ft, t0, t1, (x, v), args)
            return solver.step(ft, t0, t1, (x, v), args, st, made_jump=False)[0]

        args = jnp.array(0.8)
        try:
            sol = jax.device_get(whole(args))
        except Exception as e:
            bad.append((f"{name}: solve fails", dict(what, error=repr(e)[:300])))
            continue
        k = int(sol.stats["num_accepted_steps"])
        t = np.asarray(sol.ts)[: k + 1]
        if ctl == "given" and not np.allclose(t, ts, atol=1e-14):
            bad.append((f"{name}: not the given times", dict(what, ts=t)))
        x, v = y0
        for i in range(k):
            mid = t[i] + 0.5 * (t[i + 1] - t[i])
            for p, q_ in ((t[i], mid), (mid, t[i + 1])) if half else ((t[i], t[i + 1]),):
                x, v = single(p, q_, x, v, args)
            got = np.concatenate([np.concatenate([z["a"][i + 1], z["b"][i + 1][None]]) for z in sol.ys])
            want = np.concatenate([x, v])
            n += 1
            if not np.allclose(got, want, rtol=1e-8, atol=1e-8):
                bad.append((f"{name}: a solve is not its steps", dict(what, step=i, ts=t, got=got, want=want)))
                break
    return n, bad[:6]


VARIANTS = [("scalar", "given"), ("prefix", "constant"), ("full", "jump"), ("full", "given")]


def n04(rep, tier, seed):
    big = tier == "thorough"
    r = tlc("MCLangevin", CFG.format(rates="MCRates" if big else "MCFew", lengths="{1, 2, 3}" if big else "{1, 2}"), workers=8)
    rep.model(r)
    bs = r.behaviours
    rep.sample({k: bs[-1][k] for k in ("prob", "dir", "W", "SH", "SK")})
    jobs = [(series, (bs[i::4],)) for i in range(4)] + [(branches, (bs[:: max(1, len(bs) // 2000)],)), (free, (bs,))]
    jobs += [(solves, ((d,), VARIANTS)) for d in (1, -1)]
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, {"series": "weights of one step", "branches": "two formulas", "free": "long free steps", "solves": "steps of whole solves"}[f.__name__])
        rep.extend([("N04:" + c, d) for c, d in bad])
