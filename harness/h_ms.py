"""Driver of C08: parallel-in-time solves for every number of rounds."""
import vlib, h_poly
from vlib import num, vec
from fractions import Fraction as F
P = {"euler": 1, "midpoint": 2, "rk4": 4}


def run(s):
    import torch
    from torchdyn.numerics import odeint, odeint_mshooting
    from torchdyn.numerics.solvers import ode as S
    from torchdyn.core import MultipleShootingLayer, MultipleShootingProblem
    dt = getattr(torch, s["dtype"])
    f0 = h_poly.fmap(torch, s["f"])
    class VF(torch.nn.Module):
        def __init__(self): super().__init__(); self.w = torch.nn.Parameter(torch.zeros(1, dtype=dt))
        def forward(self, t, x): return f0(torch.zeros(()), x)
    f = VF() if s["api"] != "fun" else (lambda t, x: f0(torch.zeros(()), x))
    x = torch.tensor([[float(F(v)) for v in row] for row in s["x0"]], dtype=dt).reshape(s["shape"] + [len(s["f"])])
    grid = torch.tensor(s["grid"], dtype=dt)
    n = len(grid); subs = s["subs"]; h = grid[1] - grid[0]
    rows = lambda y: y.detach().reshape(-1, y.shape[-1])
    cls = S.MSZero if s["rule"] == "zero" else S.MSBackward
    def solver():
        if s["sel"] == "name": return s["name"]
        c, q = s["coarse"], s["fine"]
        if s["sel"] == "objobj": c, q = S.str_to_solver(c, dt), S.str_to_solver(q, dt)
        return cls(c, q)
    B0 = None
    if s["guess"]:
        g = torch.Generator().manual_seed(s["seed"])
        B0 = torch.randn([n] + list(x.shape), generator=g, dtype=torch.float64).to(dt)
    q = S.str_to_solver(s["fine"], dt)
    seq = [x]
    sub = torch.linspace(0, float(h), subs + 1, dtype=dt)
    for _ in range(n - 1): seq.append(odeint(f, seq[-1], sub, q)[1][-1].detach())
    if not all(float(v.abs().max()) < 20 for v in seq): return []
    iters, te = [], grid
    x_, B_ = x.clone(), B0.clone() if B0 is not None else None
    shared = solver()
    for m in range(s["rounds"] + 1):
        sv = shared if s["reuse"] else solver()
        if s["api"] in ("fun", "mod"): te, B = odeint_mshooting(f, x, grid, sv, B0=B0, fine_steps=subs + 1, maxiter=m)
        else:
            C = MultipleShootingLayer if s["api"] == "layer" else MultipleShootingProblem
            te, B = C(f, sv, maxiter=m, fine_steps=subs + 1, sensitivity=s["sens"])(x, grid, B0)
        assert torch.equal(te, grid), "returned times"
        iters.append(B.detach())
    assert torch.equal(x, x_) and (B0 is None or torch.equal(B0, B_)), "the inputs are modified"
    if not all(torch.isfinite(v).all() and float(v.abs().max()) < 1e4 for v in iters[:-1]): return []     # early rounds may diverge
    tol = (2e4 if s["rule"] == "zero" else 5e4) * torch.finfo(dt).eps
    out = []
    for b in range(len(rows(x))):
        pick = lambda B: [vec(rows(v)[b]) for v in B]
        out.append(dict(id=f"{s['id']}.{b}", f=s["f"], rule=s["rule"], fine=P[s["fine"]], coarse=P[s["coarse"]], subs=subs, h=num(h), x0=vec(rows(x)[b]), guess=pick(B0) if B0 is not None else [],
                        iters=[pick(B) for B in iters], seq=pick(seq), tol=num(tol), note=f"{s['rule']} {s['coarse']}/{s['fine']} n {n} {s['api']} {s['sel']} {s['dtype']}"))
    return out


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        rule = ["zero", "newton"][i % 2]
        d = rng.randint(1, 2)
        shape = rng.choice([[], [1], [2], [2], [2, 1]])
        B = 1
        for q in shape: B *= q
        f = []
        for a in range(d):
            e = [0] * d; e[a] = 1
            p = [h_poly.mono(h_poly.nz(rng, -1, .5), 0, e)] + h_poly.poly(rng, d, terms=1, deg=2, tdeg=0, cmax=.5)
            f.append(p)
        pts = rng.choice([2, 3, 3, 4, 4, 5, 6])
        step = rng.choice([.25, .5, .125, .1, .3]) * rng.choice([1, 1, 1, -1]); t0 = rng.choice([0., 0., 1., -.5])
        sel = rng.choice(["name", "str", "objobj"])
        names = dict(zero=["mszero", "zero", "parareal"], newton=["msbackward", "backward", "discrete-adjoint"])[rule]
        out.append(dict(id=f"{rule}-{i}", rule=rule, f=f, x0=[[str(h_poly.dy(rng, -1, 1)) for _ in range(d)] for _ in range(B)], shape=shape, grid=[t0 + step * k for k in range(pts)], subs=rng.choice([1, 2, 3]),
                        coarse="euler" if sel == "name" else rng.choice(["euler", "midpoint", "rk4"]), fine="rk4" if sel == "name" else rng.choice(["rk4", "midpoint", "euler"]), sel=sel, name=rng.choice(names), guess=rng.random() < .5,
                        rounds=rng.choice([pts - 1, pts, 1, pts + 2]), api=rng.choice(["fun", "mod", "layer", "problem"]), sens=rng.choice(["autograd", "autograd", "adjoint", "interpolated_adjoint"]), dtype=rng.choice(["float64", "float64", "float32"]), reuse=rng.random() < .5, seed=rng.randrange(10 ** 6)))
    return out
