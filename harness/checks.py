"""Registry: property id -> function(report, tier, seed)."""
from . import batch, brownian, controllers, grad, implicit, interp, langevin, legs, loop, memory, meter, mirror, requests, sde, solvers, steady, tableau, terms
from .common import pmap, tlc

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f

    return deco


BOTH32 = ("float64", "float32")


def dts(tier):
    return BOTH32 if tier == "thorough" else ("float64",)


@check("L01")
def l01(rep, tier, seed):
    loop.run_family(rep, ["main"], tier, seed,
                    lambda prog, c: c.startswith("L01") or c.startswith("L05:attempts"), dtypes=dts(tier))


@check("L02")
def l02(rep, tier, seed):
    loop.run_family(rep, ["main"], tier, seed, lambda prog, c: c.startswith("L02"), dtypes=dts(tier))
    legs.legs(rep, "L02", tier, seed)


@check("L03")
def l03(rep, tier, seed):
    loop.run_family(rep, ["main", "event"], tier, seed, lambda prog, c: c.startswith("L03"), dtypes=dts(tier),
                    cap=None if tier == "thorough" else 2500, only=lambda p: not p.endswith("r"))


@check("L04")
def l04(rep, tier, seed):
    loop.run_family(rep, ["main"], tier, seed, lambda prog, c: c.startswith("L04"), dtypes=dts(tier))
    legs.legs(rep, "L04", tier, seed)


@check("L05")
def l05(rep, tier, seed):
    progs = loop.run_family(rep, ["main", "event"], tier, seed, lambda prog, c: c.startswith("L05"), dtypes=dts(tier),
                            cap=None if tier == "thorough" else 2500)
    loop.throwing(rep, progs, seed, 120 if tier == "thorough" else 12)


@check("E01")
def e01(rep, tier, seed):
    loop.run_family(rep, ["event"], tier, seed,
                    lambda prog, c: c.startswith(("E01", "L05", "L01", "L02")), dtypes=dts(tier))


@check("E02")
def e02(rep, tier, seed):
    loop.run_family(rep, ["event"], tier, seed, lambda prog, c: True, only=lambda p: p.endswith("r"))


@check("D01")
def d01(rep, tier, seed):
    loop.run_family(rep, ["main", "event"], tier, seed, lambda prog, c: True, plan=loop.REV,
                    cap=None if tier == "thorough" else 500, dtypes=dts(tier))
    mirror.mirror(rep, tier, seed, controllers.clip_backward(rep, tier, seed))


@check("V01")
def v01(rep, tier, seed):
    loop.run_family(rep, ["main", "event"], tier, seed, lambda prog, c: True, fn=loop.replay_batched,
                    cap=None if tier == "thorough" else 640, chunk=3000, dtypes=dts(tier))
    batch.batch(rep, tier, seed)


@check("C01")
def c01(rep, tier, seed):
    cfg = open(loop.__file__.replace("harness/loop.py", "spec/Resume.cfg")).read()
    r1 = tlc("Resume", cfg.replace("MaxSteps = 3", "MaxSteps = 2").replace("Gaps = {0, 1}", "Gaps = {0}"), workers=8)
    r2 = tlc("Resume", cfg, simulate=20000 if tier == "thorough" else 2500, seed=seed, depth=30)
    jobs = []
    for m, r in ((2, r1), (3, r2)):
        rep.model(r)
        bs = r.behaviours
        if tier == "quick":
            import random

            bs = random.Random(seed).sample(bs, min(2000, len(bs)))
        jobs += [(loop.replay_resume, (c, m, "float64", loop.PLAN)) for c in loop.chunks(bs, 1000)]
    for (f, a), (n, bad) in zip(jobs, pmap(jobs)):
        rep.validated(n, f"two-leg solves max_steps={a[1]}")
        rep.sample(dict(first=a[0][0]["first"], script=a[0][0]["script"]))
        rep.extend(bad)
    legs.legs(rep, "C01", tier, seed)


@check("O01")
def o01(rep, tier, seed):
    solvers.o01(rep, tier, seed)


@check("K03")
def k03(rep, tier, seed):
    controllers.clip(rep, "K03", tier, seed)


@check("K04")
def k04(rep, tier, seed):
    controllers.clip(rep, "K04", tier, seed)


@check("K01")
def k01(rep, tier, seed):
    controllers.k01(rep, tier, seed)


@check("K02")
def k02(rep, tier, seed):
    controllers.k02(rep, tier, seed)


@check("N01")
def n01(rep, tier, seed):
    sde.n01(rep, tier, seed)


@check("N02")
def n02(rep, tier, seed):
    brownian.n02(rep, tier, seed)


@check("N03")
def n03(rep, tier, seed):
    brownian.n03(rep, tier, seed)


@check("O02")
def o02(rep, tier, seed):
    memory.o02(rep, tier, seed)


@check("O03")
def o03(rep, tier, seed):
    implicit.o03(rep, tier, seed)


@check("O04")
def o04(rep, tier, seed):
    tableau.o04(rep, tier, seed)


@check("I01")
def i01(rep, tier, seed):
    interp.i01(rep, tier, seed)


@check("N04")
def n04(rep, tier, seed):
    langevin.n04(rep, tier, seed)


@check("M01")
def m01(rep, tier, seed):
    terms.m01(rep, tier, seed)


@check("A01")
def a01(rep, tier, seed):
    grad.a01(rep, tier, seed)


@check("A02")
def a02(rep, tier, seed):
    grad.a02(rep, tier, seed)


@check("W01")
def w01(rep, tier, seed):
    requests.w01(rep, tier, seed)


@check("G01")
def g01(rep, tier, seed):
    meter.g01(rep, tier, seed)


@check("S01")
def s01(rep, tier, seed):
    steady.s01(rep, tier, seed)
