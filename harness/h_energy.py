"""Driver of C14: energy-based models of random polynomial energies."""
import vlib, h_poly
from vlib import num, vec
from fractions import Fraction as F


def run(s):
    import torch
    from torchdyn.models import energy as E
    dt = getattr(torch, s["dtype"])
    d, H = s["d"], s["H"]
    class Net(torch.nn.Module):
        "the polynomial, its coefficients trainable"
        def __init__(self):
            super().__init__()
            self.c = torch.nn.Parameter(torch.tensor([float(F(q["c"])) for q in H], dtype=dt))
        def forward(self, x):
            out = 0.
            for m, q in enumerate(H): out = out + self.c[m] * h_poly.value(torch, [dict(q, c="1")], 0., x)
            return out[..., None] if s["col"] else out
    net = Net()
    if s["model"] == "SNF":
        Jf = lambda x: torch.stack([h_poly.value(torch, s["M"][i][j], 0., x) for i in range(d) for j in range(d)], -1)
        class JNet(torch.nn.Module):
            def forward(self, x): return Jf(x)
        model = E.ConservativeLinearSNF(net, JNet())
    else: model = getattr(E, s["model"])(net)
    x0 = torch.tensor([[float(F(v)) for v in row] for row in s["xs"]], dtype=dt)
    if s["model"] == "LNN":
        hs = torch.stack([torch.autograd.functional.hessian(lambda v: net(v).sum(), v)[d // 2:, d // 2:] for v in x0])
        if float(torch.linalg.cond(hs.double()).max()) > 30 or float(torch.linalg.svdvals(hs.double()).min()) < .1: return []
    if s["warm"]: model(torch.randn(3, d, dtype=dt))
    x = x0.clone()
    if s["leaf"] == "leaf": x.requires_grad_(True)
    elif s["leaf"] == "graph": base = x0.clone().requires_grad_(True); x = base * 1
    if s["nograd"]:
        with torch.no_grad(): f = model(x)
    else: f = model(x)
    assert torch.equal(x.detach(), x0), "the state is modified"
    assert f.shape == x0.shape and f.dtype == dt, "shape of the field"
    g = torch.Generator().manual_seed(s["seed"])
    w = torch.randint(-4, 5, x0.shape, generator=g).to(dt) / 2
    gx = gc = None
    if not s["nograd"]:
        src = base if s["leaf"] == "graph" else x
        wanted = [net.c] + ([src] if s["leaf"] else [])
        gr = torch.autograd.grad((f * w).sum(), wanted, allow_unused=True, retain_graph=True)
        gc = gr[0] if gr[0] is not None else torch.zeros_like(net.c)
        if s["leaf"]: gx = gr[1] if gr[1] is not None else torch.zeros_like(x0)
    return dict(id=s["id"], model=s["model"], d=d, H=H, M=s["M"], eps=num(torch.finfo(dt).eps), gc=vec(gc) if gc is not None else [],
                samples=[dict(x=vec(x0[b]), f=vec(f[b]), w=vec(w[b]), gx=vec(gx[b]) if gx is not None else []) for b in range(len(x0))], note=f"{s['model']} d {d} bs {len(x0)} {s['dtype']} {s['leaf']}")


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        model = ["HNN", "GNF", "LNN", "SNF"][i % 4]
        d = rng.choice([2, 2, 4, 4, 6]) if model in ("HNN", "LNN") else rng.choice([1, 2, 3, 4, 5])
        if model == "SNF" and d == 1: d = 3
        if model == "LNN" and d == 6: d = 2
        H = h_poly.poly(rng, d, terms=5, deg=4, tdeg=0, cmax=2) + h_poly.poly(rng, d, terms=3, deg=3, tdeg=0, cmax=2)
        if model == "LNN":
            H = h_poly.poly(rng, d, terms=4, deg=3, tdeg=0, cmax=.5)
            for j in range(d // 2, d):
                e = [0] * d; e[j] = 2; H.append(h_poly.mono(h_poly.nz(rng, .5, 2), 0, e))
        elif all(sum(q["e"]) < 2 for q in H): H.append(h_poly.mono(1, 0, [2] + [0] * (d - 1)))
        M = [[h_poly.poly(rng, d, terms=2, deg=2, tdeg=0) for _ in range(d)] for _ in range(d)] if model == "SNF" else []
        bs = rng.choice([1, 2, 3, 5, d])
        out.append(dict(id=f"{model}-{i}", model=model, d=d, H=H, M=M, xs=[[str(h_poly.dy(rng, -2, 2)) for _ in range(d)] for _ in range(bs)], col=rng.random() < .6, warm=rng.random() < .4, seed=rng.randrange(10 ** 6),
                        leaf=rng.choice(["", "leaf", "leaf", "graph"]), nograd=model != "LNN" and rng.random() < .15, dtype=rng.choice(["float64", "float64", "float32"])))
    return out
