"""spec/Requests.tla: what is refused and what is honoured, against the real entry points."""
import numpy as np

from .common import pmap, tlc

T0, T1 = 0.5, 1.5


def ask(p):
    """Makes the request. Returns ("refused", message) or ("honoured", final value, exact value)."""
    import warnings

    import diffrax as dfx
    import jax
    import jax.numpy as jnp
    import jax.random as jr
    import optimistix as optx

    warnings.simplefilter("ignore")
    k = jnp.array(1.2)
    eq, name = p["eq"], p["solver"]
    levy = dict(plain=dfx.BrownianIncrement, area=dfx.SpaceTimeLevyArea, areas=dfx.SpaceTimeTimeLevyArea).get(p["levy"])

    def solve(k):
        # dy = -k y dt, in various disguises; the noise is faint
        y0 = jnp.array([1.0, 2.0])
        exact = y0 * jnp.exp(-k * (T1 - T0))
        drift = dfx.ODETerm(lambda t, y, k: -k * y)

        def path():
            if p["driver"] == "unsafe":
                return dfx.UnsafeBrownianPath((1,), jr.key(3), levy_area=levy)
            return dfx.VirtualBrownianTree(T0, T1, 1e-3, (1,), jr.key(3), levy_area=levy)

        if eq == "ode":
            terms = drift
        elif eq == "split":
            terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, k: -0.3 * k * y), dfx.ODETerm(lambda t, y, k: -0.7 * k * y))
        elif eq == "pair":
            terms = (dfx.ODETerm(lambda t, y, k: k * y), dfx.ODETerm(lambda t, y, k: -k * y))
            exact = (jnp.cos(k * (T1 - T0)) * y0, -jnp.sin(k * (T1 - T0)) * y0)
            y0 = (y0, 0 * y0)
        elif eq == "cde":
            ctl = dfx.LinearInterpolation(jnp.array([0.0, 2.0]), jnp.array([[0.0], [2.0]]))
            terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, k: -0.3 * k * y), dfx.ControlTerm(lambda t, y, k: -0.7 * k * y[:, None], ctl))
        elif eq == "sde":
            amp = 1e-4
            g = (lambda t, y, k: amp * y[:, None]) if p["noise"] == "multiplicative" else (lambda t, y, k: amp * jnp.ones((2, 1)))
            terms = dfx.MultiTerm(drift, dfx.ControlTerm(g, path()))
        else:
            # x' = v, v' = -gamma v - u grad f
            if p["driver"] == "unsafe":
                lp = dfx.UnsafeBrownianPath((2,), jr.key(3), levy_area=levy)
            else:
                lp = dfx.VirtualBrownianTree(T0, T1, 1e-3, (2,), jr.key(3), levy_area=levy)
            u = 1e-9
            terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(k, u, lambda x, a: 0 * x), dfx.UnderdampedLangevinDiffusionTerm(k, u, lp))
            e = jnp.exp(-k * (T1 - T0))
            exact = (y0 + y0 * (1 - e) / k, y0 * e)
            y0 = (y0, y0)
        half = name.startswith("Half")
        S = getattr(dfx, name[4:] if half else name)
        if p["tols"] == "own":
            solver = S(root_finder=optx.Newton(1e-6, 1e-6))
        else:
            solver = S()
        if half:
            solver = dfx.HalfSolver(solver)
        pid = dfx.PIDController(rtol=1e-4, atol=1e-5)
        ctrl = dict(constant=lambda: dfx.ConstantStepSize(), given=lambda: dfx.StepTo(jnp.linspace(T0, T1, 65)), pid=lambda: pid,
                    clip=lambda: dfx.ClipStepSizeController(pid, step_ts=jnp.array([1.0])))[p["controller"]]()
        dt0 = dict(none=None, forward=1 / 64, against=-1 / 64)[p["dt0"]]
        fn = lambda t, y, a: y
        save = {
            "end": lambda: dfx.SaveAt(t1=True),
            "ts": lambda: dfx.SaveAt(ts=jnp.array([0.5, 1.0, 1.0, 1.5])),
            "ts-outside": lambda: dfx.SaveAt(ts=jnp.array([0.75, 1.625])),
            "ts-unsorted": lambda: dfx.SaveAt(ts=jnp.array([1.0, 0.75, 1.5])),
            "steps": lambda: dfx.SaveAt(steps=True),
            "subs": lambda: dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True), dfx.SubSaveAt(t1=True)]),
            "fn": lambda: dfx.SaveAt(t1=True, fn=fn),
            "dense": lambda: dfx.SaveAt(t1=True, dense=True),
        }[p["save"]]()
        adj = dict(checkpoint=dfx.RecursiveCheckpointAdjoint, direct=dfx.DirectAdjoint, implicit=dfx.ImplicitAdjoint, backsolve=dfx.BacksolveAdjoint,
                   forward=dfx.ForwardMode)[p["adjoint"]]()
        big = 1e6
        tot = lambda y: sum(jnp.sum(x) for x in jax.tree_util.tree_leaves(y))
        event = {
            "none": lambda: None,
            "real": lambda: dfx.Event(lambda t, y, a, **kw: tot(y) + big),
            "bool": lambda: dfx.Event(lambda t, y, a, **kw: tot(y) > big),
            "vector": lambda: dfx.Event(lambda t, y, a, **kw: jnp.stack([tot(y), tot(y)]) + big),
            "integer": lambda: dfx.Event(lambda t, y, a, **kw: jnp.array(1)),
            "tuple": lambda: dfx.Event(lambda t, y, a, **kw: (tot(y) + big, tot(y) + big)),
        }[p["event"]]()
        sol = dfx.diffeqsolve(terms, solver, T0, T1, dt0, y0, k, stepsize_controller=ctrl, saveat=save, adjoint=adj, event=event,
                              max_steps=None if p["budget"] == "none" else 2048)
        ys = sol.ys[1] if p["save"] == "subs" else sol.ys
        if p["save"] == "steps":
            n = sol.stats["num_steps"] if p["controller"] in ("constant", "given") else sol.stats["num_accepted_steps"]
            last = jax.tree_util.tree_map(lambda y: y[n - 1], ys)
        else:
            last = jax.tree_util.tree_map(lambda y: y[-1], ys)
        return tot(last), tot(exact)

    try:
        if p["use"] == "reverse":
            got, want = [jax.grad(lambda k: solve(k)[i])(k) for i in (0, 1)]
        elif p["use"] == "forward":
            got, want = jax.jvp(solve, (k,), (jnp.ones_like(k),))[1]
        else:
            got, want = solve(k)
        got, want = float(got), float(want)
    except Exception as e:
        lines = [x for x in str(e).splitlines() if x.strip()]
        return "refused", f"{type(e).__name__}: {lines[0] if lines else ''}"[:200], None
    return "honoured", got, want


CFG = """SPECIFICATION Spec
CONSTANTS
  Equations = {"ode", "split", "pair", "cde", "sde", "langevin"}
  Methods = {"Euler", "Heun", "Tsit5", "ImplicitEuler", "Kvaerno3", "KenCarp3", "Sil3", "SemiImplicitEuler", "ReversibleHeun", "LeapfrogMidpoint", "EulerHeun",
    "ItoMilstein", "StratonovichMilstein", "SEA", "SRA1", "ShARK", "SPaRK", "GeneralShARK", "SlowRK", "HalfEuler", "HalfTsit5", "HalfImplicitEuler", "ALIGN", "ShOULD", "QUICSORT"}
  Controllers = {"constant", "given", "pid", "clip"}
  FirstSteps = {"none", "forward", "against"}
  Saves = {"end", "ts", "ts-outside", "ts-unsorted", "steps", "subs", "fn", "dense"}
  Adjoints = {"checkpoint", "direct", "implicit", "backsolve", "forward"}
  EventsOf = {"none", "real", "bool", "vector", "integer", "tuple"}
  Budgets = {"some", "none"}
  Uses = {"solve", "reverse", "forward"}
INVARIANTS OnlyWithReason Emit
PROPERTIES Decided Final
"""


def requests(rep, tier, seed):
    import random

    r = tlc("Requests", CFG, workers=8)
    rep.model(r)
    rng = random.Random(seed)
    big = tier == "thorough"
    bs = sorted(r.behaviours, key=str)
    rng.shuffle(bs)
    some, by = [], {}
    for b in bs:
        by.setdefault(tuple(sorted(b["why"])), []).append(b)
    # one reason: several each, with different methods and equations
    for why, xs in sorted(by.items()):
        if len(why) == 1:
            seen = {}
            for b in xs:
                q = b["req"]
                seen.setdefault((q["eq"], q["solver"]), b)
            some += list(seen.values())[:40 if big else 4]
        elif len(why) == 2:
            some += xs[:4 if big else 0]
    # none: every equation with every method, and every pair of other choices
    # (what the implicit function theorem differentiates is a fixed point, which these have not reached)
    fine = [b for b in by[()] if not (b["req"]["adjoint"] == "implicit" and b["req"]["use"] != "solve")]
    todo, eqs = set(), set()
    for b in fine:
        q = b["req"]
        k = (q["eq"], q["solver"])
        it = [x for x in q.items() if x[0] != "solver" or big]
        new = {(x, y) for i, x in enumerate(it) for y in it[:i]} - todo
        if k not in eqs or new:
            if new or big or rng.random() < 0.3:
                eqs.add(k)
                todo |= new
                some.append(b)
    some.sort(key=lambda b: len(b["why"]))
    rep.notes["reasons"] = sorted({x for b in some for x in b["why"]})
    for b, (tag, got, want) in zip(some, pmap([(ask, (b["req"],)) for b in some])):
        rep.validated(1, "refused" if b["why"] else "honoured")
        if b["why"]:
            if tag != "refused":
                rep.violate("W01:honoured a request it has to refuse", dict(b, got=got, exact=want))
        elif tag == "refused":
            rep.violate("W01:refused a request it has to honour", dict(b, got=got))
        elif not abs(got - want) < 0.03 * max(1, abs(want)):
            rep.violate("W01:honoured a request wrongly", dict(b, got=got, exact=want))
    rep.sample(some[0])
    rep.sample(some[-1])


TIMES = """SPECIFICATION Spec
CONSTANTS
  Kinds = {"saveat", "stepto", "data", "tree", "dt0"}
  Times = {0, 1, 2, 3, 9}
  MaxLen = %d
INVARIANTS Ordered Strict Inside Emit
PROPERTY Decided
"""


def lists(kind, group, off, scale):
    """Worker: lists of times of one kind and length."""
    import diffrax as dfx
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    import jax.random as jr

    tm = lambda t: np.where(np.asarray(t) == 9, np.nan, off + scale * np.asarray(t, float))
    # y' = 1: y tells the time
    term = dfx.ODETerm(lambda t, y, a: jnp.ones_like(y))

    @eqx.filter_jit
    def run(t0, t1, ts):
        if kind == "saveat":
            s = dfx.diffeqsolve(term, dfx.Euler(), t0, t1, (t1 - t0) * 0.4, t0, saveat=dfx.SaveAt(ts=ts), max_steps=16)
            return s.ts, s.ys
        if kind == "stepto":
            s = dfx.diffeqsolve(term, dfx.Euler(), t0, t1, None, t0, saveat=dfx.SaveAt(t0=True, steps=True), max_steps=len(ts) + 2,
                                stepsize_controller=dfx.StepTo(ts))
            return s.ts[:len(ts)], s.ys[:len(ts)], s.stats["num_steps"]
        if kind == "data":
            p = dfx.linear_interpolation(ts, 2 * ts)
            c = dfx.CubicInterpolation(ts, dfx.backward_hermite_coefficients(ts, 2 * ts))
            r = dfx.rectilinear_interpolation(ts, 2 * ts)
            return ts, p / 2, jax.vmap(c.evaluate)(ts) / 2, r[1][::2] / 2
        if kind == "tree":
            vbt = dfx.VirtualBrownianTree(t0, t1, 0.01, (), jr.key(1))
            w = jax.vmap(vbt.evaluate)(ts)
            return (w - w,)
        s = dfx.diffeqsolve(term, dfx.Euler(), t0, t1, ts[0], t0, max_steps=64)
        return s.ts, s.ys

    bad = []
    # the functions that take data refuse on their own, too
    alone = [lambda ts: dfx.linear_interpolation(ts, ts), lambda ts: dfx.rectilinear_interpolation(ts, ts)[1],
             lambda ts: dfx.backward_hermite_coefficients(ts, ts)[0]] if kind == "data" else []
    for b in group:
        t0, t1 = jnp.asarray(tm(b["ends"][0])), jnp.asarray(tm(b["ends"][1]))
        ts = jnp.asarray(np.asarray(b["list"], float) * 0.5 - 0.75 if kind == "dt0" else tm(b["list"]))
        taken = b["taken"]
        if kind == "dt0":
            taken = float((t1 - t0) * ts[0]) >= 0
        for f in [lambda x: run(t0, t1, x)] + alone:
            try:
                out, got = jax.device_get(f(ts)), True
            except Exception as e:
                out, got = f"{type(e).__name__}: {e}"[:200], False
            if got != taken:
                bad.append(("W01:list of times " + ("taken" if got else "refused"), dict(b, off=off, scale=scale, got=str(out))))
            elif got and f is not alone and isinstance(out, tuple) and len(out) > 1 and not all(np.allclose(out[0], x) for x in out[1:] if np.ndim(x)):
                bad.append(("W01:list of times taken for other times", dict(b, off=off, scale=scale, got=str(out))))
            elif kind == "stepto" and got and int(out[2]) != len(b["list"]) - 1:
                bad.append(("W01:steps other than those listed", dict(b, got=str(out))))
    return len(group), bad[:5]


def time_lists(rep, tier, seed):
    r = tlc("TimeLists", TIMES % (4 if tier == "thorough" else 3), workers=8)
    rep.model(r)
    groups = {}
    for b in r.behaviours:
        groups.setdefault((b["kind"], len(b["list"])), []).append(b)
    jobs = []
    for (kind, n), bs in sorted(groups.items()):
        for i in range(0, len(bs), 150):
            jobs.append((lists, (kind, bs[i:i + 150], 0.0 if i % 300 else -1.5, 1.0 if i % 300 else 0.5)))
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, "lists of times: " + a[0])
        rep.extend(bad)


def w01(rep, tier, seed):
    time_lists(rep, tier, seed)
    requests(rep, tier, seed)
