"""Driver of C06: solves over decreasing spans."""
import vlib, h_rk
from vlib import num, vec, frac
from fractions import Fraction as F
ORD = {"euler": 1, "midpoint": 2, "rk4": 4, "dopri5": 5, "tsit5": 5}


def run(s):
    import torch
    from torchdyn.numerics import odeint
    dt, dtt = getattr(torch, s["dtype"]), getattr(torch, s["tdtype"])
    adaptive = s["solver"] in ("dopri5", "tsit5")
    calls = []
    if s["kind"] == "flow":
        sys = s["sys"]; f0 = h_rk.field(torch, sys)
        x0 = torch.tensor([float(F(v)) for v in s["y0"]], dtype=dt)
    else:
        sys = []
        g = torch.Generator().manual_seed(s["seed"])
        A = torch.randn(3, 3, generator=g, dtype=torch.float64).to(dt) * .5
        x0 = torch.randn(2, 3, generator=g, dtype=torch.float64).to(dt)
        f0 = lambda t, x: (torch.tanh(x @ A.T) + torch.sin(2 * t).to(dt) - .3 * t.to(dt) * x)
    def f(t, x):
        calls.append(num(t))
        return f0(t, x)
    span = torch.tensor(s["span"], dtype=dtt)
    kw = dict(atol=s["atol"], rtol=s["rtol"]) if adaptive else {}
    if adaptive: kw.update(interpolator="4th" if s["interp"] else None, return_all_eval=s["all"])
    want = span
    if not adaptive and s["save"] is not None:
        want = span[[i - 1 for i in s["save"]]]
        kw["save_at"] = want.clone() if s["savekind"] == "tensor" else want.tolist()
    te, sol = odeint(f, x0.clone(), vlib.pieces(span.clone(), s["id"]), s["solver"], **kw)
    if adaptive: calls = calls[:1] + calls[2:]         # the probe that chooses the first step may look beyond the span
    mine = list(calls)
    out = dict(id=s["id"], sys=sys, order=ORD[s["solver"]], y0=vec(x0), t0=num(span[0]), req=vec(want), all=adaptive and s["all"], eps=num(max(torch.finfo(dt).eps, torch.finfo(dtt).eps)), tol="2000",
               res=[dict(t=num(t), y=vec(x)) for t, x in zip(te, sol)], calls=mine[:3000], lo=num(span[-1]), hi=num(span[0]), refl=[], rtol="0", back=[], note=f"{s['solver']} {s['kind']}")
    if len(te) != len(sol): out["res"] = []
    if s["interp"] and s["solver"] == "dopri5": out["order"] = 4; out["tol"] = num(max(2000., 1e-8 / torch.finfo(dt).eps))
    if s["kind"] == "reflect":
        gneg = lambda t, x: -f0(-t, x)
        kw2 = dict(kw)
        if "save_at" in kw2: kw2["save_at"] = -want
        t2, s2 = odeint(gneg, x0.clone(), -span, s["solver"], **kw2)
        out["refl"] = [vec(v) for v in s2]
        out["rtol"] = num((200. if not adaptive else 2e4) * max(torch.finfo(dt).eps, torch.finfo(dtt).eps) * float(1 + s2.abs().max()))
    elif s["back"] and not s["interp"]:
        _, s3 = odeint(f0, odeint(f0, x0.clone(), span, s["solver"], **{k: v for k, v in kw.items() if k != "save_at"})[1][-1], span.flip(0), s["solver"], **{k: v for k, v in kw.items() if k != "save_at"})
        out["back"] = vec(s3[-1])
    return out


def scenarios(chk, n):
    rng = chk.rng
    systems = chk.scenarios("TreeScen.tla", "TreeScen.cfg")["sys"]
    out = []
    for i in range(n):
        kind = ["flow", "reflect"][i % 2]
        solver = rng.choice(sorted(ORD))
        sys = [dict(q) for q in systems[rng.choice([1, 2, 2, 3])]]
        for q in sys: q["c"] = frac(rng.choice([F(1), F(-1), F(1, 2), F(-3, 2)]))
        m = rng.randint(1, 5)
        t0 = h_rk.dyadic(rng, -2, 3, 8); pts = [t0]
        for _ in range(m): pts.append(pts[-1] - rng.choice([F(1, 16), F(1, 4), F(3, 8), F(1, 2)]))
        span = [float(p) for p in pts]
        if kind == "reflect" and rng.random() < .6: span = [rng.uniform(-2, 3)]; [span.append(span[-1] - rng.uniform(.03, .6)) for _ in range(m)]
        k = list(range(1, m + 2)); save = None
        if rng.random() < .5: save = rng.sample(k, rng.randint(1, len(k)))
        dtype = rng.choice(["float64", "float64", "float32"])
        tdtype = rng.choice([dtype, "float64"]) if ORD[solver] < 5 else dtype      # adaptive solvers promote the state to the time's dtype
        out.append(dict(id=f"{kind}-{i}", kind=kind, solver=solver, sys=sys, y0=[frac(h_rk.dyadic(rng, -1, 1, 8)) for _ in sys], span=span, save=save, savekind=rng.choice(["tensor", "list"]), interp=rng.random() < .4,
                        all=rng.random() < .4, dtype=dtype, tdtype=tdtype, back=rng.random() < .5, atol=rng.choice([1e-3, 1e-6]), rtol=rng.choice([1e-3, 1e-6]), seed=rng.randrange(10 ** 6)))
    return out
