"""Driver of C05: fixed-step solves with recording solvers."""
import vlib
from vlib import num, vec
from fractions import Fraction as F


def rec(x): return {k: vec(v) for k, v in x.items()} if isinstance(x, dict) else {"x": vec(x)}


def argrec(a): return [] if not a else [[str(k), repr(a[k])] for k in sorted(a)]


def run(s):
    import torch
    from torchdyn.numerics import odeint
    from torchdyn.numerics.solvers import ode as S
    dt, dtt = getattr(torch, s["dtype"]), getattr(torch, s["tdtype"])
    log = []
    if s["solver"] == "scripted":
        class Rule(S.SolverTemplate):
            "Any rule: a map that mixes state, time, step and the number of the call"
            def __init__(self): super().__init__(order=1); self.stepping_class = "fixed"
            def step(self, f, x, t, d, k1=None, args=None):
                n = len(log)
                g = lambda v: v * 0.5 + (n + 1) * 0.25 + float(t) * 0.125 - v.flip(0) * 0.25
                xn = {k: g(v) for k, v in x.items()} if isinstance(x, dict) else g(x)
                log.append(dict(t=num(t), dt=num(d), x=rec(x), xn=rec(xn), args=argrec(args)))
                return None, xn, None
        solver = Rule()
    else:
        base = dict(euler=S.Euler, midpoint=S.Midpoint, rk4=S.RungeKutta4)[s["solver"]]
        class Logged(base):
            def step(self, f, x, t, d, k1=None, args=None):
                out = super().step(f, x, t, d, k1=k1, args=args)
                log.append(dict(t=num(t), dt=num(d), x=rec(x), xn=rec(out[1]), args=argrec(args)))
                return out
        solver = Logged(dt)
    g = torch.Generator().manual_seed(s["seed"])
    if s["dict"]: x = {k: torch.randn(sh, generator=g, dtype=dt) for k, sh in (("a", (2,)), ("b", (3, 2)), ("c", (1,)))}
    else: x = torch.randn(s["shape"], generator=g, dtype=dt)
    grid = torch.tensor(s["grid"], dtype=dtt)
    f = lambda t, x: torch.sin(x) * 0.7 + t
    kw = {}
    if s["args"] is not None: kw["args"] = s["args"]
    want, idx = grid, list(range(1, len(grid) + 1))
    if s["save"] is not None:
        idx = s["save"]
        want = grid[[i - 1 for i in idx]].clone()
        if s["off"] is not None:
            j = s["off"] % len(idx)
            want[j] = float(want[j]) + s["offby"]
            idx = []
        if s["dup"]: want = torch.cat([want, want[:1]]); idx = []
        kw["save_at"] = want if s["savekind"] == "tensor" else want.tolist()
    x0 = rec(x)
    out = dict(id=s["id"], c=dict(grid=vec(grid), save=idx), want=vec(want), refused=False, args=argrec(s["args"]), eps=num(torch.finfo(dtt).eps), x0=x0, ev=log, res=[],
               note=f"{s['solver']} save {s['save']} off {s['off']}")
    try: te, sol = odeint(f, x, vlib.pieces(grid, s["id"]), solver, **kw)
    except Exception as ex:
        if idx: raise
        out["refused"] = True
        return out
    n = len(te)
    if isinstance(sol, dict):
        n = min(n, *[len(v) for v in sol.values()]) if len({len(v) for v in sol.values()} | {n}) > 1 else n
        out["res"] = [dict(t=num(te[k]), x={q: vec(v[k]) for q, v in sol.items()}) for k in range(n)]
    else: out["res"] = [dict(t=num(te[k]), x={"x": vec(sol[k])}) for k in range(min(n, len(sol)))]
    if not idx: out["c"]["save"] = []
    return out


def scenarios(chk, n):
    rng = chk.rng
    comp = chk.scenarios("GridScen.tla", "GridScen.cfg")
    gaps, saves = sorted(comp["gaps"]), [sorted(q) for q in comp["saves"]]
    out = []
    for i in range(n):
        gp = rng.choice(gaps); m = len(gp) + 1
        t0, sc, td = rng.choice([0., 0.1, -1.5, 7.7, -0.3]), rng.choice([1 / 16, 0.013, 0.1, 1.7]), rng.choice(["float64", "float32"])
        q = rng.random()  # time scales from nanoseconds to megaseconds, fine grids far from zero, gaps that almost agree
        if q < .12: t0, sc = 0., rng.choice([1e-12, 1e-9, 2e-8, 1e-6])
        elif q < .2: t0, sc, td = rng.choice([1e3, -5e3]), rng.choice([1e-4, 1e-2]), "float64"
        elif q < .25: t0, sc = 0., rng.choice([1e3, 1e6])
        elif q < .32: td, gp = "float64", [1 + a * rng.choice([1e-4, 1e-6, 1e-7]) for a in gp]
        grid = [t0]
        for q in gp: grid.append(grid[-1] + q * sc)
        k = rng.random()
        save = None if k < .15 else rng.choice(saves[m - 2])
        off = rng.randrange(5) if save and rng.random() < .2 else None
        dic = rng.random() < .3
        out.append(dict(id=f"grid-{i}", grid=grid, save=save, off=off, offby=rng.choice([0.4, -0.3, 0.1]) * min(gp) * sc, dup=off is None and save is not None and rng.random() < .06,
                        savekind=rng.choice(["tensor", "tensor", "list"]), dict=dic, shape=rng.choice([(2,), (3, 2), (1,), (2, 1, 3)]), solver="scripted" if dic else rng.choice(["scripted", "euler", "midpoint", "rk4"]),
                        dtype=rng.choice(["float64", "float32"]), tdtype=td, args=rng.choice([None, {"a": 1}, {"u": 2.5, "w": "z"}]), seed=rng.randrange(10 ** 6)))
    # long uneven grids
    for i in range(max(10, n // 20)):
        grid = [rng.choice([0., -3.])]
        for _ in range(rng.randint(10, 60)): grid.append(grid[-1] + rng.choice([.01, .1, .3, 1.]) * rng.uniform(.5, 1.))
        m = len(grid); save = rng.sample(range(1, m + 1), rng.randint(1, m)) if rng.random() < .7 else None
        out.append(dict(id=f"long-{i}", grid=grid, save=save, off=None, offby=0, dup=False, savekind="tensor", dict=False, shape=(2,), solver=rng.choice(["scripted", "rk4"]), dtype="float64",
                        tdtype=rng.choice(["float64", "float32"]), args=None, seed=i))
    return out
