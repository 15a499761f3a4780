"""spec/Interp.tla: filling and interpolating data, against the real functions."""
import numpy as np

from .common import pmap, tlc

CFG = """SPECIFICATION Spec
CONSTANTS Values <- {v}
 Gaps <- {g}
 MaxLen = {n}
 Starts <- MCStarts
 Slopes <- MCSlopes
INVARIANTS Through Smooth OnlyInside Emit
PROPERTY Causal
"""

q = lambda x: np.nan if x[1] == 0 else x[0] / x[1]


def replay(opt, group, dtype, scale, shift):
    """All behaviours with these options; those with the same times share one call, as channels."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    bad, facts = [], 0
    tol = 1e-9 if dtype == "float64" else 1e-3
    byts = {}
    for b in group:
        byts.setdefault(tuple(b["ts"]), []).append(b)
    tm = lambda x: jnp.asarray(np.asarray(x) * scale + shift, dtype)
    start, slope = q(opt["start"]), q(opt["slope"])
    kw_s = {} if np.isnan(start) else dict(s=start)

    def tree(x):
        """the channels as a PyTree of differently shaped leaves; x: (..., channels)"""
        x = jnp.asarray(x, dtype)
        k = x.shape[-1] // 2 * 2
        return {"all": x, "sq": x[..., :k].reshape(x.shape[:-1] + (2, k // 2)), "one": x[..., 0]}

    for ts_, bs in byts.items():
        L, C = len(ts_), len(bs)
        ts = tm(ts_)
        ys = np.array([[q(v) for v in b["ys"]] for b in bs]).T
        Y = tree(ys)
        rep = None if np.isnan(start) else tree(np.full(C, start))
        der = None if np.isnan(slope) else tree(np.full(C, slope / scale))

        def cmp(clause, got, want, **where):
            nonlocal facts
            W = tree(want)
            for key in W:
                g, w = np.asarray(got[key], float), np.asarray(W[key], float)
                facts += g.size
                if g.shape != w.shape:
                    bad.append((clause + " (shape)", dict(got=g.shape, want=w.shape, opt=opt)))
                    continue
                m = ~(np.isclose(g, w, rtol=tol, atol=tol, equal_nan=True))
                if m.any():
                    i = np.argwhere(m)[0]
                    c = 0 if key == "one" else int(i[-1]) if key == "all" else int(i[-2] * w.shape[-1] + i[-1])
                    bad.append((clause, dict(opt=opt, ts=list(ts_), ys=[str(q(v)) for v in bs[c]["ys"]], leaf=key, got=str(g[tuple(i)]), want=str(w[tuple(i)]),
                                             index=i.tolist(), **{k: str(v) for k, v in where.items()})))

        # --- fill
        if np.isnan(slope):
            lin = dfx.linear_interpolation(ts, Y, fill_forward_nans_at_end=opt["fill"], replace_nans_at_start=rep)
            cmp("linear filling", lin, np.array([[q(v) for v in b["linear"]] for b in bs]).T)
            if not opt["fill"]:
                rts, rys = dfx.rectilinear_interpolation(ts, Y, replace_nans_at_start=rep)
                cmp("rectilinear filling", rys, np.array([[q(v) for v in b["rect"]["ys"]] for b in bs]).T)
                if not np.allclose(rts, tm(bs[0]["rect"]["ts"])):
                    bad.append(("rectilinear times", dict(ts=list(ts_), got=np.asarray(rts).tolist())))
            path = dfx.LinearInterpolation(ts, lin)
            paths = [("line", path)]
        else:
            paths = []
        coeffs = dfx.backward_hermite_coefficients(ts, Y, deriv0=der, replace_nans_at_start=rep, fill_forward_nans_at_end=opt["fill"])
        paths.append(("cubic", dfx.CubicInterpolation(ts, coeffs)))
        # --- evaluate
        for kind, path in paths:
            if not (float(path.t0) == float(ts[0]) and float(path.t1) == float(ts[-1])):
                bad.append(("extent of the path", dict(kind=kind, ts=list(ts_))))
            where, t, left = [], [], []
            for i in range(L - 1):
                for k, qq in enumerate(bs[0]["queries"][i]):
                    t2 = qq["t2"]
                    lefts = [True] if t2 == 2 * ts_[i + 1] else [False] if t2 == 2 * ts_[i] else [True, False]
                    if t2 == 0 or t2 == 2 * ts_[-1]:
                        lefts = [True, False]
                    for lf in lefts:
                        where.append((i, k))
                        t.append(t2 / 2)
                        left.append(lf)
            t = tm(t)
            left = np.array(left)
            f = lambda fn: {lf: jax.device_get(jax.vmap(lambda x: fn(x, lf))(t)) for lf in (True, False)}
            val, dv = f(lambda x, lf: path.evaluate(x, left=lf)), f(lambda x, lf: path.derivative(x, left=lf))
            pickl = lambda o: jax.tree_util.tree_map(lambda a, b: np.where(left.reshape((-1,) + (1,) * (a.ndim - 1)), a, b), o[True], o[False])
            val, dv = pickl(val), pickl(dv)
            wv = np.array([[q(b["queries"][i][k]["line"] if kind == "line" else b["queries"][i][k]["cubic"][0]) for b in bs] for i, k in where])
            wd = np.array([[q(b["queries"][i][k]["slope"] if kind == "line" else b["queries"][i][k]["cubic"][1]) for b in bs] for i, k in where]) / scale
            cmp(f"{kind}: value", val, wv, t="see index")
            cmp(f"{kind}: derivative", dv, wd)
            # increments between all pairs of a few query times
            n = len(t)
            ia, ib = np.array([(a, b) for a in range(0, n, 3) for b in range(0, n, 2)]).T
            inc = jax.device_get(jax.vmap(lambda a, b: path.evaluate(a, b))(t[ia], t[ib]))
            one = jax.device_get(jax.vmap(lambda a: path.evaluate(a))(t))
            for key in inc:
                w = one[key][ib] - one[key][ia]
                facts += w.size
                if not np.allclose(inc[key], w, rtol=tol, atol=tol, equal_nan=True):
                    bad.append((f"{kind}: increment is not the difference of the values", dict(opt=opt, ts=list(ts_))))
    return facts, bad[:4]


def i01(rep, tier, seed):
    runs = [tlc("MCInterp", CFG.format(v="MCValues3", g="MCGaps", n=4), workers=6)]
    runs.append(tlc("MCInterp", CFG.format(v="MCValues", g="MCGaps1", n=6), simulate=3000 if tier == "thorough" else 300, seed=seed, depth=8))
    if tier == "thorough":
        runs.append(tlc("MCInterp", CFG.format(v="MCValues", g="MCGaps", n=5), workers=8))
    jobs = []
    for r in runs:
        rep.model(r)
        groups = {}
        for b in r.behaviours:
            groups.setdefault(str(b["opt"]), []).append(b)
        rep.sample(r.behaviours[len(r.behaviours) // 2])
        for g in groups.values():
            for dt, sc, sh in (("float64", 1.0, 0.0), ("float64", 0.5, -3.25)) + ((("float32", 1.0, 0.0),) if tier == "thorough" else ()):
                jobs.append((replay, (g[0]["opt"], g, dt, sc, sh)))
    for (fn, a), (n, bad) in zip(jobs, pmap(jobs, x64=True)):
        rep.validated(n, "values")
        rep.extend([("I01:" + c, d) for c, d in bad])
