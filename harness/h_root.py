"""Driver of C16: root findings of random polynomial maps, for every iteration limit."""
import vlib, h_poly
from vlib import num, vec
from fractions import Fraction as F


def run(s):
    import torch
    from torchdyn.numerics.solvers.root import root_find
    dt = getattr(torch, s["dtype"])
    f = h_poly.fmap(torch, s["g"])
    g = lambda x: f(0., x)
    z0 = torch.tensor([[float(F(v)) for v in row] for row in s["z0"]], dtype=dt)
    Jm = torch.stack([torch.autograd.functional.jacobian(g, v) for v in z0])
    if float(torch.linalg.cond(Jm.double()).max()) > 200: return []
    kept, pts, cut = z0.clone(), [z0.clone()], False
    for m in range(s["limit"] + 1):
        z, log = root_find(g, z0, alpha=s["alpha"], f_tol=s["ftol"], f_rtol=s["frtol"], x_tol=s["xtol"], x_rtol=s["xrtol"], maxiters=m, method=s["method"],
                           search_method=s["search"], verbose=bool(s["verbose"] >> m & 1))
        assert torch.equal(z0, kept), "the starting point is modified"
        assert z.shape == z0.shape, "the points change their shape"
        if not (torch.isfinite(z).all() and float(z.abs().max()) < 1e4): cut = True; break
        pts.append(z.detach().clone())
    if len(pts) > 2 and torch.equal(pts[0], pts[1]) and not torch.equal(pts[1], pts[2]): pts = pts[1:]       # m rounds rather than m + 1
    if len(pts) < 2: return []
    return dict(id=s["id"], g=s["g"], method=s["method"], search=s["search"], alpha=num(s["alpha"]), ftol=num(s["ftol"]), frtol=num(s["frtol"]), xtol=num(s["xtol"]), xrtol=num(s["xrtol"]),
                eps=num(torch.finfo(dt).eps), linear=s["linear"], cut=cut, pts=[[vec(v) for v in p] for p in pts], note=f"{s['method']} {s['search']} alpha {s['alpha']} {s['dtype']} bs {len(s['z0'])}")


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        d = rng.choice([1, 2, 2, 2, 3])
        linear = rng.random() < .25
        g = []
        for a in range(d):
            p = [h_poly.mono(h_poly.nz(rng, -2, 2), 0, [1 if j == a else 0 for j in range(d)]), h_poly.mono(h_poly.dy(rng, -2, 2), 0, [0] * d)]
            for b in range(d):
                if b != a and rng.random() < .7: p.append(h_poly.mono(h_poly.dy(rng, -1, 1), 0, [1 if j == b else 0 for j in range(d)]))
            if not linear: p += h_poly.poly(rng, d, terms=2, deg=2, tdeg=0, cmax=.5)
            g.append(p)
        bs = rng.choice([1, 1, 2, 3, 4])
        z0 = [[str(h_poly.dy(rng, -2, 2)) for _ in range(d)] for _ in range(bs)]
        if not linear and rng.random() < .4: z0[rng.randrange(bs)] = ["0"] * d     # where the residual is the constant term: often small
        loose, tight = [1e-1, 1e-2, 1., .3], [1e-3, 1e-5, 1e-8, 1e-2]
        tl = [rng.choice(loose) if rng.random() < .7 else rng.choice(tight) for _ in range(4)]
        if rng.random() < .5:                                                      # one tolerance decides
            tl = [10., 10., 10., 10.]; tl[rng.randrange(4)] = rng.choice([1., .3, .1, .03, .01, 1e-3])
        if rng.random() < .15: tl = [rng.choice([1e-12, 0.]) for _ in range(4)]
        out.append(dict(id=f"root-{i}", g=g, linear=linear, z0=z0, alpha=rng.choice([1, 1., .5, .1, 1., .25]), ftol=tl[0], frtol=tl[1], xtol=tl[2], xrtol=tl[3], limit=rng.choice([3, 5, 8]),
                        method=["broyden", "broyden_fast"][i % 2], search=["none", "naive", "none", "armijo"][i // 2 % 4], verbose=rng.randrange(512), dtype=rng.choice(["float64", "float64", "float32"])))
    return out
