"""Driver of C13: histories of calls and solves of continuous normalizing flows with polynomial data dynamics and a scripted noise source."""
import vlib, h_poly
from vlib import num, vec
from fractions import Fraction as F


class BlowUp(Exception): pass


def run(s):
    try: return _run(s)
    except BlowUp: return []


def _run(s):
    import torch
    from torchdyn.models.cnf import CNF, autograd_trace, hutch_trace
    from torchdyn.core import NeuralODE
    dt = getattr(torch, s["dtype"])
    f, d = s["f"], len(s["f"])
    ev = []
    class Net(torch.nn.Module):
        "depth-aware polynomial map with trainable coefficients"
        def __init__(self):
            super().__init__()
            self.c = torch.nn.ParameterList([torch.nn.Parameter(torch.tensor([float(F(q["c"])) for q in p], dtype=dt)) for p in f])
            if s["timed"]: self.t = torch.zeros(())
        def forward(self, x):
            t = self.t.detach().reshape(()) if s["timed"] else torch.zeros((), dtype=dt)
            t = t.to(dt)
            return torch.stack([sum(self.c[i][m] * h_poly.value(torch, [dict(q, c="1")], t, x) for m, q in enumerate(f[i])) for i in range(d)], -1)
    g = torch.Generator().manual_seed(s["seed"])
    class Noise:
        def sample(self, shape=()):
            e = torch.randint(-4, 5, tuple(shape) + (d,), generator=g).to(dt) / 2
            ev.append(dict(ev="draw", e=[vec(v) for v in e.reshape(-1, d)]))
            return e
    net = Net()
    est = dict(exact=autograd_trace, none=None, hutch=hutch_trace)[s["est"]]
    cnf = CNF(net, trace_estimator=est, noise_dist=Noise() if s["est"] == "hutch" or s["dist"] else None)
    live = [True]
    def hook(mod, inp, out):
        if float(inp[0].abs().max()) > 1e3: raise BlowUp  # finite-time explosion: adaptive steps would shrink for ever
        if live[0]: ev.append(dict(ev="eval", t=num(net.t.double()) if s["timed"] else "0", x=[vec(v) for v in inp[0]], y=[vec(v) for v in out], w=[], gx=[], gc=[]))
    cnf.register_forward_hook(hook)
    fixed = s["solver"] in ("euler", "midpoint", "rk4")
    model = NeuralODE(cnf, solver=s["solver"], sensitivity=s["sens"], atol=1e-3, rtol=1e-3, solver_adjoint=s["solver"] if fixed else "dopri5", atol_adjoint=1e-2, rtol_adjoint=1e-2)
    data = lambda n: torch.cat([torch.zeros(n, 1, dtype=dt) if not s["lead"] else torch.randint(-4, 5, (n, 1), generator=g).to(dt) / 4, torch.randint(-8, 9, (n, d), generator=g).to(dt) / 8], 1)
    for a in s["acts"]:
        n = a["n"]; x = data(n)
        if a["kind"] == "call":
            ev.append(dict(ev="solve", n=n))
            if s["est"] == "hutch": cnf.noise = cnf.noise_dist.sample((n,))
            if s["timed"]: net.t = torch.tensor(a["t"], dtype=dt)
            x = x.requires_grad_(a["leaf"])
            live[0] = False
            with torch.set_grad_enabled(not a["nograd"]): y = cnf(x)
            live[0] = True
            e = dict(ev="eval", t=num(a["t"]) if s["timed"] else "0", x=[vec(v) for v in x], y=[vec(v) for v in y], w=[], gx=[], gc=[])
            if not a["nograd"]:
                w = torch.randint(-4, 5, y.shape, generator=g).to(dt) / 2
                want = list(net.c) + ([x] if a["leaf"] else [])
                gr = torch.autograd.grad((y * w).sum(), want)
                e.update(w=[vec(v) for v in w], gc=[vec(v) for v in gr[:d]], gx=[vec(v) for v in gr[d]] if a["leaf"] else [])
            ev.append(e)
        else:
            span = torch.linspace(0, a["t1"], a["pts"], dtype=dt)
            if a["back"]: span = span.flip(0)
            ev.append(dict(ev="solve", n=n))
            if a["kind"] == "trajectory": sol = model.trajectory(x, span)
            else:
                if a["grad"]: x = x.requires_grad_(True)
                _, sol = model(x, span)
                if a["grad"]: sol[-1].sum().backward()
            if not torch.isfinite(sol).all() or float(sol.abs().max()) > 1e3: return []
    if len(ev) > 150: ev = ev[:150]
    return dict(id=s["id"], f=f, hutch=s["est"] == "hutch", eps=num(torch.finfo(dt).eps), ev=ev, note=f"{s['est']} {s['solver']} {s['sens']} d {d} {s['dtype']} {[a['kind'] for a in s['acts']]}")


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        d = rng.choice([1, 2, 2, 3, 4])
        f = [h_poly.poly(rng, d, terms=3, deg=3 if i % 2 else 2, tdeg=1, cmax=.5) + [h_poly.mono(h_poly.nz(rng, -1, .5), 0, [1 if j == a else 0 for j in range(d)])] for a in range(d)]
        timed = rng.random() < .5
        if not timed: f = [[dict(q, m=0) for q in p] for p in f]
        acts = []
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choice(["call", "call", "solve", "trajectory"])
            acts.append(dict(kind=k, n=rng.choice([1, 2, 3, 4]), t=rng.choice([0., .5, 1.]), leaf=rng.random() < .7, nograd=rng.random() < .15, t1=rng.choice([.5, .25, 1.]), pts=rng.choice([2, 3]), back=rng.random() < .25, grad=rng.random() < .5))
        out.append(dict(id=f"cnf-{i}", f=f, timed=timed, est=rng.choice(["exact", "none", "hutch", "hutch"]), dist=rng.random() < .2, dtype=rng.choice(["float64", "float64", "float32"]), solver=rng.choice(["euler", "midpoint", "rk4", "dopri5", "tsit5"]),
                        sens=rng.choice(["autograd", "autograd", "adjoint", "interpolated_adjoint"]), seed=rng.randrange(10 ** 6), lead=rng.random() < .5, acts=acts))
    return out
