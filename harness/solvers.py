"""One-step behaviour of the ODE methods against spec/Trees.tla and spec/Methods.tla."""
import numpy as np

from .common import pmap, tlc

TREES = "SPECIFICATION Spec\nCONSTANTS Colours = {c}\n MaxOrder = {n}\nINVARIANTS WellFounded Solves Complete RightOrders Emit EmitMethods\nPROPERTY Done\n"


def catalogues(rep, n1=8, n2=5):
    r1 = tlc("Methods", TREES.format(c=1, n=n1), workers=2)
    r2 = tlc("Methods", TREES.format(c=2, n=n2), workers=2)
    rep.model(r1)
    rep.model(r2)
    cats, methods, pinned = {}, None, None
    for b in r1.behaviours + r2.behaviours:
        if "trees" in b:
            cats[b["colours"]] = b["trees"]
        else:
            methods, pinned = b["methods"], b["pinned"]
    return cats, methods, pinned


def system(cat, n, colour=None, use_time=False):
    """The triangular polynomial system of the trees with up to n nodes.

    use_time: single-node trees equal elapsed time, so let parents read the clock instead."""
    import jax.numpy as jnp

    cat = [t for t in cat if t["order"] <= n]
    m = len(cat)
    width = max(1, max(len(t["kids"]) for t in cat))
    idx = np.full((m, width), m)
    for i, t in enumerate(cat):
        for j, k in enumerate(t["kids"]):
            leaf = cat[k - 1]["order"] == 1
            # the clock only says what colour-1 leaves are
            idx[i, j] = m + 1 if (use_time and leaf and cat[k - 1]["colour"] == 1) else k - 1
    col = np.array([t["colour"] for t in cat])

    def f(t, y, args):
        # args: dict(t0=..., gain=...)
        clock = (t - args["t0"]) * args["gain"]
        ext = jnp.concatenate([y, jnp.ones(1, y.dtype), jnp.reshape(clock, (1,)).astype(y.dtype)])
        out = jnp.prod(ext[idx], axis=1) * args["gain"]
        if colour is not None:
            out = jnp.where(col == colour, out, 0)
        return out

    return f, np.array([t["order"] for t in cat]), 1.0 / np.array([t["gamma"] for t in cat])


def fixed_newton(iters=7):
    """A root finder that makes a fixed number of full Newton steps: exact, up to rounding,
    on the triangular systems used here, and independent of any tolerance."""
    import equinox as eqx
    import jax
    import jax.flatten_util as fu
    import jax.numpy as jnp
    import optimistix as optx

    class FixedNewton(optx.AbstractRootFinder):
        rtol: float = 1e-9
        atol: float = 1e-9
        norm = staticmethod(optx.max_norm)

        def init(self, fn, y, args, options, f_struct, aux_struct, tags):
            return jnp.array(0)

        def step(self, fn, y, args, options, state, tags):
            flat, un = fu.ravel_pytree(y)
            g = lambda z: fu.ravel_pytree(fn(un(z), args)[0])[0]
            aux = fn(y, args)[1]
            delta = jnp.linalg.solve(jax.jacfwd(g)(flat), g(flat))
            return un(flat - delta), state + 1, aux

        def terminate(self, fn, y, args, options, state, tags):
            return state >= iters, optx.RESULTS.successful

        def postprocess(self, fn, y, aux, args, options, state, tags, result):
            return y, aux, {}

    return FixedNewton()


def make(name):
    import diffrax as dfx

    if name.startswith("Half"):
        return dfx.HalfSolver(getattr(dfx, name[4:])())
    cls = getattr(dfx, name)
    if issubclass(cls, dfx.AbstractImplicitSolver):
        return cls(root_finder=fixed_newton(), root_find_max_steps=20)
    return cls()


THETAS = (0.0, 0.25, 0.5, 0.8, 1.0)


def check_method(name, spec, cat, pinned, dtype, n):
    """Worker: all one- and two-step promises of one method. Returns (#facts, mismatches)."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    s = make(name)
    tol = 2e-10 if dtype == "float64" else 2e-3
    imex = spec["colours"] == 2
    bad, facts = [], 0
    arr = lambda x: jnp.asarray(x, dtype)

    def note(clause, **kw):
        bad.append((clause, dict(method=name, dtype=dtype, **{k: str(v) for k, v in kw.items()})))

    for use_time in (False, True):
        if imex:
            f, order, exact = system(cat, n, 1, use_time)
            g, _, _ = system(cat, n, 2, use_time)
            terms = dfx.MultiTerm(dfx.ODETerm(f), dfx.ODETerm(g))
        else:
            f, order, exact = system(cat, n, None, use_time)
            terms = dfx.ODETerm(f)
        if s.order(terms) != spec["order"]:
            note("claimed order", got=s.order(terms), want=spec["order"])
        eo = s.error_order(terms) if spec["err"] else None
        if spec["err"] and eo != spec["err"]:
            note("claimed order of the error estimate", got=eo, want=spec["err"])

        @eqx.filter_jit
        def two(t0, h1, h2, gain):
            y0 = jnp.zeros(len(order), dtype)
            args = dict(t0=t0, gain=gain)
            st = s.init(terms, t0, t0 + h1, y0, args)
            out = []
            t, y, jump = t0, y0, jnp.array(False)
            for h in (h1, h2):
                y1, err, dense, st, res = s.step(terms, t, t + h, y, args, st, jump)
                ip = s.interpolation_cls(t0=t, t1=t + h, **dense)
                ds = [ip.evaluate(t + th * h) for th in THETAS]
                inc = [ip.evaluate(t + 0.25 * h, t + th * h) for th in THETAS]
                out.append((y1, err, ds, inc, res == dfx.RESULTS.successful))
                t, y = t + h, y1
            return out

        for t0, h1, h2, gain in ((0.0, 1.0, 1.0, 1.0), (3.0, 0.5, 0.75, 1.0), (-2.0, 1.0, 0.25, 1.5)):
            o = jax.device_get(two(arr(t0), arr(h1), arr(h2), arr(gain)))
            tt = 0.0
            for k, (h, (y1, err, ds, inc, ok)) in enumerate(zip((h1, h2), o)):
                where = dict(step=k, t0=t0, h=h, gain=gain, clock=use_time)
                if not ok:
                    note("step reported a failure", **where)
                prev = tt
                tt += h
                scale = np.maximum((gain * tt) ** order, 1e-3)
                want = exact * (gain * tt) ** order
                m = order <= spec["order"]
                facts += int(m.sum())
                d = np.abs(y1 - want) / scale
                if (d[m] > tol).any() or not np.isfinite(y1).all():
                    i = int(np.argmax(np.where(m, np.nan_to_num(d, nan=1e9), -1)))
                    note(f"order condition of a tree with {order[i]} nodes", tree=cat[i], got=y1[i], want=want[i], **where)
                if k == 0 and pinned is not None and not use_time:
                    w = np.array([a / b for a, b in pinned])
                    o5 = order[: len(w)]
                    ww = w * (gain * h) ** o5
                    facts += len(w)
                    if (np.abs(y1[: len(w)] - ww) > tol * np.maximum(1, np.abs(ww))).any():
                        i = int(np.argmax(np.abs(y1[: len(w)] - ww)))
                        note("the method is not the documented one", tree=cat[i], got=y1[i], want=ww[i], **where)
                # error estimate: only the first step starts from the exact solution
                if spec["err"]:
                    if err is None:
                        note("no error estimate", **where)
                    elif k == 0:
                        lo, eq = order < spec["est"], order == spec["est"]
                        facts += int(lo.sum()) + 1
                        if (np.abs(err[lo]) / scale[lo] > tol).any():
                            note("error estimate does not vanish below its order", got=err[lo], **where)
                        if eq.any() and np.abs(err[eq] / scale[eq]).max() < 1e-6:
                            note("error estimate vanishes at its order", got=err[eq], **where)
                elif err is not None:
                    note("unexpected error estimate", got=err, **where)
                # dense output
                yprev = np.zeros_like(y1) if k == 0 else o[0][0]
                md = order <= min(spec["dense"], spec["order"]) if k == 0 else order <= spec["dense"]
                for th, dv, iv in zip(THETAS, ds, inc):
                    facts += len(order)
                    if th == 0.0 and (np.abs(dv - yprev) > tol * np.maximum(1, np.abs(yprev))).any():
                        note("dense output does not start at the step's start", got=dv, want=yprev, **where)
                    if th == 1.0 and name[:4] != "Half" and (np.abs(dv - y1) > tol * np.maximum(1, np.abs(y1))).any():
                        i = int(np.argmax(np.abs(dv - y1)))
                        note("dense output does not end at the step's end", tree=cat[i], got=dv[i], want=y1[i], **where)
                    if (np.abs(iv - (dv - ds[1])) > tol * np.maximum(1, np.abs(dv))).any():
                        note("dense increment is not a difference of values", theta=th, **where)
                    dw = exact * (gain * (prev + th * h)) ** order
                    dd = np.abs(dv - dw) / scale
                    if (dd[md] > tol).any():
                        i = int(np.argmax(np.where(md, dd, -1)))
                        note(f"dense output of a tree with {order[i]} nodes", theta=th, tree=cat[i], got=dv[i], want=dw[i], **where)
    return facts, bad


SIZES = dict(Kvaerno3=5, Kvaerno4=6, Kvaerno5=6, ImplicitEuler=5, Sil3=4, KenCarp3=4, KenCarp4=5, KenCarp5=5, Dopri8=8)


def o01(rep, tier, seed):
    cats, methods, pinned = catalogues(rep)
    for dt in ("float64", "float32") if tier == "thorough" else ("float64",):
        jobs = []
        for name, spec in methods.items():
            pin = pinned.get(name)
            n = SIZES.get(name, 6 if pin is None else 5)
            jobs.append((check_method, (name, spec, cats[spec["colours"]], pin, dt, n)))
        jobs.sort(key=lambda j: -SIZES.get(j[1][0], 0) - (10 if j[1][1]["colours"] == 2 else 0))
        for (f, a), (n, bad) in zip(jobs, pmap(jobs, x64=True)):
            rep.validated(n, f"facts about {a[0]} {dt}")
            rep.sample(dict(method=a[0], promises=a[1]))
            rep.extend([("O01:" + c, d) for c, d in bad])
