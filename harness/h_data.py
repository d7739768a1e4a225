"""Driver of C19: dataset generators (directly and by name, from the same random state) and the augmenter."""
import vlib
from vlib import num, vec
from fractions import Fraction as F


def run(s):
    import torch, numpy as np
    if s["kind"] == "augment": return augment(s, torch)
    from torchdyn.datasets import static_datasets as D
    from torchdyn.datasets import ToyDataset
    def seed(): torch.manual_seed(s["seed"]); np.random.seed(s["seed"])
    k, kw, n = s["kind"], s["kw"], s["n"]
    by = []
    rows = lambda X: [vec(v) for v in X]
    labels = lambda y: [] if y is None else [int(v) for v in y]
    seed()
    if k == "randnsphere": X, y = torch.stack([D.randnsphere(s["dim"], kw["outer_radius"]) for _ in range(n)]), None
    else:
        gen = dict(spheres=D.generate_concentric_spheres, moons=D.generate_moons, spirals=D.generate_spirals, gaussians=D.generate_gaussians, gaussians_spiral=D.generate_gaussians_spiral,
                   diffeqml=D.generate_diffeqml)[k]
        X, y = gen(n_samples=n, **kw)
        seed()
        X2, y2 = ToyDataset().generate(n, k, **kw)
        by = [rows(X2), labels(y2)]
        if y is not None: assert y.dim() == 1 and bool((y == y.round()).all()), "labels are whole numbers"
    assert X.dim() == 2
    return dict(id=s["id"], kind=k, n=n, dim=s["dim"], noise=num(float(s["noise"] or 0)), opt=s["opt"], X=rows(X), y=labels(y), by=by, note=f"{k} n {n} {kw}")


def augment(s, torch):
    from torchdyn.nn import Augmenter
    dt = getattr(torch, s["dtype"])
    g = torch.Generator().manual_seed(s["seed"])
    x = torch.randn(s["shape"], generator=g, dtype=dt).requires_grad_(s["grad"])
    kept = x.detach().clone()
    i, fn, new = s["idx"] % len(s["shape"]), None, []
    if s["func"]:
        shape = list(s["shape"]); shape[i] = s["a"]
        w = torch.randn(shape, generator=g, dtype=torch.float64).to(dt)
        class Fn(torch.nn.Module):
            def forward(self, v): return w + v.mean().detach() * 0.5
        fn = Fn() if s["func"] == "module" else Fn().forward
        new = vec(fn(x))
    kw = dict(augment_idx=s["idx"], order=s["order"])
    if fn is not None: kw["augment_func"] = fn
    else: kw["augment_dims"] = s["a"]
    A = Augmenter(**kw)
    if s["warm"]: A(torch.randn([q + 1 for q in s["shape"]]) if fn is None else x)
    out = A(x)
    assert torch.equal(x.detach(), kept), "the input is modified"
    assert out.dtype == x.dtype
    if s["grad"]:
        gr, = torch.autograd.grad(out.sum(), x)
        assert torch.equal(gr, torch.ones_like(x)), "the data carry no gradient"
    p = lambda q: int(torch.tensor(q).prod()) if len(q) else 1
    sh = s["shape"]
    o = list(out.shape)
    return dict(id=s["id"], kind="augment", sz=[p(sh[:i]), sh[i], p(sh[i + 1:])], a=s["a"], first=s["order"] == "first", x=vec(kept), new=new, out=vec(out), shape=[p(o[:i]), o[i], p(o[i + 1:])],
                other=len(o) == len(sh) and all(o[j] == sh[j] for j in range(len(sh)) if j != i), note=f"augment {sh} at {s['idx']} {s['order']} {s['func']} {s['dtype']}")


def scenarios(chk, n):
    rng, out = chk.rng, []
    kinds = ["spheres", "moons", "spirals", "gaussians", "gaussians_spiral", "augment", "augment"]
    for i in range(n):
        k = kinds[i % len(kinds)]
        if i % 61 == 7: k = "diffeqml"
        if i % 31 == 5: k = "randnsphere"
        s = dict(id=f"{k}-{i}", kind=k, seed=rng.randrange(10 ** 6), dim=2, opt={}, noise=0)
        if k == "augment":
            shape = [rng.randint(1, 4) for _ in range(rng.choice([2, 2, 3, 4]))]
            idx = rng.randrange(-len(shape), len(shape))
            s.update(shape=shape, idx=idx, a=rng.choice([1, 2, 3, 5, 0]), order=rng.choice(["first", "last"]), func=rng.choice(["", "", "module", "plain"]), dtype=rng.choice(["float32", "float64"]), grad=rng.random() < .3,
                     warm=rng.random() < .4)
            out.append(s); continue
        small = rng.random() < .35
        nn = rng.randint(2, 15) if small else rng.choice([60, 61, 75, 100, 121, 150])
        if i in (14, 15, 16): nn = 1001
        noise = rng.choice([0., 1e-4, 1e-3, .01, .05, .2])
        kw = dict(noise=noise)
        if k in ("spheres", "randnsphere"):
            ri, ro = rng.choice([(.5, 1), (.25, 2.), (1., 3), (2, .5), (.5, 1)])
            s["dim"] = rng.choice([1, 2, 3, 3, 4, 6])
            kw.update(dim=s["dim"], inner_radius=ri, outer_radius=ro)
            nn = nn * 2 + rng.randint(0, 1)
        elif k == "moons" and rng.random() < .1: kw["noise"] = None
        elif k in ("gaussians", "gaussians_spiral"):
            kk = rng.choice([1, 2, 3, 4, 5, 7, 9, 12])
            if kk > 5 and rng.random() < .7: nn = rng.choice([20, 30])
            if kk * nn > 420: kk = max(1, 420 // nn)
            s["dim"] = rng.choice([2, 2, 3, 4])
            kw["noise"] = rng.choice([0., 1e-4, 1e-3])
            kw["dim"] = s["dim"]; kw["n_gaussians"] = kk
            if k == "gaussians":
                r0, s0 = rng.choice([.5, 1, 3., 10.]), rng.choice([.1, .01, .5, 1e-3])
                kw.update(radius=r0, std_gaussians=s0); s["opt"] = dict(k=kk, r0=num(r0), std0=num(s0))
            else:
                r0, r1 = rng.choice([(1, .2), (5., 1.), (.5, 4), (2., 2.), (10, 1.)])
                s0, s1 = rng.choice([(.3, .05), (.01, .2), (.1, .1), (1e-3, .1)])
                lp = rng.choice([3, 4, 5, 7])
                kw.update(radius_start=r0, radius_end=r1, std_gaussians_start=s0, std_gaussians_end=s1, n_gaussians_per_loop=lp)
                s["opt"] = dict(k=kk, r0=num(r0), r1=num(r1), std0=num(s0), std1=num(s1), loop=lp)
        if k in ("spheres", "randnsphere"): s["opt"] = dict(inner=num(kw["inner_radius"]), outer=num(kw["outer_radius"]))
        if k == "randnsphere": kw["noise"] = 0
        if k == "spheres" and rng.random() < .15: kw = {}; s["dim"] = 3; s["opt"] = dict(inner=num(.5), outer=num(1))
        if k == "gaussians" and rng.random() < .1: kw = {}; s["dim"] = 2; s["opt"] = dict(k=7, r0=num(.5), std0=num(.1)); nn = min(nn, 60)
        s.update(n=nn, kw=kw, noise=kw.get("noise", dict(gaussians=1e-3, gaussians_spiral=1e-3).get(k, 1e-4)))
        out.append(s)
    return out
