"""Driver of C18: hypersolvers, leapfrog, implicit Euler (sequential and parallel in time)."""
import vlib, h_poly
from vlib import num, vec
from fractions import Fraction as F


def run(s):
    import torch
    from torchdyn.numerics import odeint, odeint_symplectic, odeint_mshooting
    from torchdyn.numerics.solvers import ode as S, hyper as H
    dt = getattr(torch, s["dtype"])
    f0 = h_poly.fmap(torch, s["f"])
    def f(t, x): return f0(t, x)
    f.order = 1
    d = len(s["f"])
    x = torch.tensor([[float(F(v)) for v in row] for row in s["x0"]], dtype=dt)
    shape = s["shape"] + [d]
    x = x[0] if not s["shape"] else x.reshape(shape)
    rows = lambda y: y.reshape(-1, y.shape[-1])
    grid = torch.tensor(s["grid"], dtype=dt)
    n = len(rows(x))
    obs = [[] for _ in range(n)]
    tol = "300"
    if s["fam"] == "hyper":
        net0 = h_poly.fmap(torch, s["net"])
        class Net(torch.nn.Module):
            def forward(self, t, x): return net0(t, x)
        net = Net() if s["mod"] else (lambda t, x: net0(t, x))
        cls, base = dict(euler=(H.HyperEuler, S.Euler), midpoint=(H.HyperMidpoint, S.Midpoint), rk4=(H.HyperRungeKutta4, S.RungeKutta4))[s["base"]]
        hs, b = cls(net, dt), base(dt)
        if s["api"] == "step":
            for k in range(len(grid) - 1):
                t, h = grid[k], grid[k + 1] - grid[k]
                k1 = f(t, x) if s["k1"] else None
                y, yb = hs.step(f, x, t, h, k1=k1)[1], b.step(f, x, t, h)[1]
                for i in range(n): obs[i].append(dict(kind="hyper", t=num(t), h=num(h), x=vec(rows(x)[i]), b=vec(rows(yb)[i]), y=vec(rows(y)[i])))
        else:
            te, sol = odeint(f, x, grid, hs)
            assert len(sol) == len(grid), "number of states"
            for i in range(n): obs[i].append(dict(kind="same", x=vec(rows(x)[i]), y=vec(rows(sol[0])[i])))
            for k in range(len(grid) - 1):
                yb = odeint(f, sol[k], grid[k:k + 2], b)[1][-1]
                for i in range(n): obs[i].append(dict(kind="hyper", t=num(grid[k]), h=num(grid[k + 1] - grid[k]), x=vec(rows(sol[k])[i]), b=vec(rows(yb)[i]), y=vec(rows(sol[k + 1])[i])))
    elif s["fam"] == "alf":
        v = f(grid[0], x) if s["consistent"] else torch.tensor([[float(F(q)) for q in row] for row in s["v0"]], dtype=dt).reshape(x.shape)
        xv = torch.cat([x, v], -1)
        solver = S.AsynchronousLeapfrog(dtype=dt)
        if s["api"] == "step":
            for k in range(len(grid) - 1):
                t, h = grid[k], grid[k + 1] - grid[k]
                y = solver.step(f, xv, t, h, k1=None)[1]
                z = solver.step(f, y, t + h, -h, k1=None)[1]
                for i in range(n):
                    a, c = rows(xv)[i], rows(y)[i]
                    obs[i].append(dict(kind="alf", t=num(t), h=num(h), x=vec(a[:d]), v=vec(a[d:]), yx=vec(c[:d]), yv=vec(c[d:])))
                    big = rows(f(t, x)).abs().max() + rows(y).abs().max() + rows(xv).abs().max() + 1
                    obs[i].append(dict(kind="back", x=vec(a), y=vec(rows(z)[i]), size=[num(float(big) ** 2 * 30)] * (2 * d)))
                xv = y
        else:
            name = solver if s["api"] == "obj" else ["alf", "AsynchronousLeapfrog"][s["mod"]]
            te, sol = odeint_symplectic(f, xv, grid, name)
            assert len(sol) == len(grid), "number of states"
            for i in range(n):
                obs[i].append(dict(kind="same", x=vec(rows(xv)[i]), y=vec(rows(sol[0])[i]))); obs[i].append(dict(kind="same", x=vec(te), y=vec(grid)))
            for k in range(len(grid) - 1):
                for i in range(n):
                    a, c = rows(sol[k])[i], rows(sol[k + 1])[i]
                    obs[i].append(dict(kind="alf", t=num(grid[k]), h=num(grid[k + 1] - grid[k]), x=vec(a[:d]), v=vec(a[d:]), yx=vec(c[:d]), yv=vec(c[d:])))
            if s["save"]:
                idx = [q - 1 for q in s["save"] if q <= len(grid)]
                te, so = odeint_symplectic(f, xv, grid, name, save_at=grid[idx].tolist() if s["mod"] else grid[idx])
                for i in range(n): obs[i].append(dict(kind="same", x=vec(torch.stack([rows(sol[q])[i] for q in idx])), y=vec(torch.stack([rows(q)[i] for q in so])))); obs[i].append(dict(kind="same", x=vec(grid[idx]), y=vec(te)))
    else:
        if s["fam"] == "implicit":
            name = s["base"] if s["api"] != "obj" else S.ImplicitEuler(dt)
            te, sol = odeint(f, x, grid, name)
        else:
            B0 = None
            if s["guess"]: B0 = torch.cat([x[None] + 5, torch.stack([x * .5 + .25 for _ in range(len(grid) - 1)])])
            ms = S.ParallelImplicitEuler() if s["api"] == "obj" else s["base"]
            te, sol = odeint_mshooting(f, x, grid, ms, B0=B0)
        sol = sol.detach()
        assert len(sol) == len(grid), "number of states"
        for i in range(n): obs[i].append(dict(kind="same", x=vec(rows(x)[i]), y=vec(rows(sol[0])[i]))); obs[i].append(dict(kind="same", x=vec(te), y=vec(grid)))
        for k in range(len(grid) - 1):
            for i in range(n): obs[i].append(dict(kind="implicit", t=num(grid[k]), h=num(grid[k + 1] - grid[k]), x=vec(rows(sol[k])[i]), y=vec(rows(sol[k + 1])[i])))
    for o in obs:       # nothing is asked of solves that blow up
        for k, e in enumerate(o):
            if e["kind"] == "hyper" and not all(abs(F(v)) < 1000 for v in e["b"] if v not in ("nan", "inf", "-inf")) or e["kind"] == "hyper" and {"nan", "inf", "-inf"} & set(e["b"] + e["x"]): del o[k:]; break
    return [dict(id=f"{s['id']}.{i}", f=s["f"], net=s["net"], zero=s["fam"] == "hyper" and not any(s["net"]), p=dict(euler=1, midpoint=2, rk4=4).get(s["base"], 1), eps=num(torch.finfo(dt).eps), tol=tol,
                 rtol=num(1e-3 if s["dtype"] == "float32" else 1e-4), ones=["1"] * d, obs=obs[i], note=f"{s['fam']} {s['base']} {s['api']} {s['dtype']} {s['shape']}") for i in range(n)]


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        fam = ["hyper", "hyper", "alf", "alf", "implicit", "parallel"][i % 6]
        d = rng.randint(1, 3)
        shape = rng.choice([[], [2], [3], [2, 2]]) if fam != "hyper" or True else []
        B = 1
        for q in shape: B *= q
        grid = [rng.choice([0., .25, -1.5, 2.])]
        top = .4 if fam in ("implicit", "parallel") else 1.
        sgn = -1 if fam in ("alf", "implicit", "parallel") and rng.random() < .35 else 1
        for _ in range(rng.randint(1, 4)): grid.append(grid[-1] + sgn * rng.choice([.0625, .125, .25, .375, min(top, .5)] if fam == "hyper" else [.05, .1, .2, .37, top]))
        net = []
        if fam == "hyper": net = [[] for _ in range(d)] if rng.random() < .3 else h_poly.vfield(rng, d, terms=2, deg=2, tdeg=2)
        if fam in ("hyper", "alf"): f = h_poly.vfield(rng, d, terms=2, deg=2, tdeg=2)
        else:                      # damped linear part, small nonlinearity, forcing in time where allowed
            f = []
            for a in range(d):
                e = [0] * d; e[a] = 1; p = [h_poly.mono(F(-rng.randint(4, 8), 8), 0, e)]
                if d > 1:
                    e = [0] * d; e[(a + 1) % d] = 1; p.append(h_poly.mono(h_poly.nz(rng, -.5, .5), 0, e))
                e = [0] * d; e[a] = 2
                if sgn > 0: p.append(h_poly.mono(F(rng.choice([-1, 1]), 16), 0, e))      # solvable whatever the step
                p.append(h_poly.mono(h_poly.nz(rng, -1, 1), rng.randint(1, 2) if fam == "implicit" and rng.random() < .7 else 0, []))
                f.append(p)
        base = dict(hyper=["euler", "midpoint", "rk4"], alf=["alf"], implicit=["ieuler", "implicit_euler"], parallel=["ieuler", "parallel-implicit-euler"])[fam]
        out.append(dict(id=f"{fam}-{i}", fam=fam, f=f, net=net, base=rng.choice(base), shape=shape, grid=grid, x0=[[str(h_poly.dy(rng, -1, 1)) for _ in range(d)] for _ in range(B)],
                        v0=[[str(h_poly.dy(rng, -1, 1)) for _ in range(d)] for _ in range(B)], dtype=rng.choice(["float64", "float64", "float32"]), api=rng.choice(["step", "ode", "obj"]), k1=rng.random() < .5,
                        mod=rng.random() < .5, consistent=rng.random() < .5, guess=rng.random() < .4, save=rng.sample(range(1, len(grid) + 1), rng.randint(1, len(grid))) if rng.random() < .6 else []))
    return out
