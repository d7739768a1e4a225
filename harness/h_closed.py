"""Driver of C20: whole solves of problems with closed-form solutions or conserved quantities."""
import math, vlib
from vlib import num, vec
ADAPT, FIXED = ["dopri5", "tsit5"], {"euler": 1, "midpoint": 2, "rk4": 4, "alf": 2, "ieuler": 1}
CONS = ("quartic", "pendulum", "rigid", "kepler")


def field(torch, kind, c):
    rot = lambda w, x: w * torch.stack([x[..., 1], -x[..., 0]], -1)
    def kepler(x):
        r3 = (x[..., :1] ** 2 + x[..., 1:2] ** 2) ** 1.5
        return c[0] * torch.cat([x[..., 2:], -x[..., :2] / r3], -1)
    return dict(exp=lambda t, x: c[0] * x,
                rot=lambda t, x: rot(c[0], x),
                spiral=lambda t, x: c[0] * x + rot(c[1], x),
                logistic=lambda t, x: c[0] * x * (1 - x / c[1]),
                riccati=lambda t, x: -c[0] * x * x,
                gauss=lambda t, x: 2 * c[0] * t * x,
                poly=lambda t, x: sum(q * t ** i for i, q in enumerate(c)) + 0 * x,
                relax=lambda t, x: -c[0] * (x - torch.sin(c[1] * t)) + c[1] * torch.cos(c[1] * t),
                jordan=lambda t, x: torch.stack([c[0] * x[..., 0] + c[1] * x[..., 1], c[0] * x[..., 1]], -1),
                quartic=lambda t, x: c[0] * torch.stack([x[..., 1], -x[..., 0] ** 3], -1),
                pendulum=lambda t, x: c[0] * torch.stack([x[..., 1], -torch.sin(x[..., 0])], -1),
                rigid=lambda t, x: c[0] * torch.stack([c[1] * x[..., 1] * x[..., 2], c[2] * x[..., 2] * x[..., 0], -(c[1] + c[2]) * x[..., 0] * x[..., 1]], -1),
                kepler=lambda t, x: kepler(x))[kind]


def run(s):
    import torch
    from torchdyn.numerics import odeint, odeint_symplectic
    from torchdyn.core import NeuralODE, ODEProblem
    dt = getattr(torch, s["dtype"])
    d, f0 = s["d"], field(torch, s["kind"], s["c"])
    calls = [0]
    def f(t, x):
        calls[0] += 1
        return f0(t, x)
    f.order = 1
    x = torch.tensor(s["x0"], dtype=dt).reshape(s["shape"] + [d])
    span = torch.tensor(s["span"], dtype=dt)
    rows = lambda y: y.reshape(-1, d)
    out = dict(id=s["id"], p=dict(kind=s["kind"], c=[num(v) for v in s["c"]]), cons=s["cons"], x0=[vec(v) for v in rows(x)], atol=num(s["atol"]), rtol=num(s["rtol"]), eps=num(torch.finfo(dt).eps),
               span=vec(span), numel=x.numel(), note=f"{s['kind']} {s['solver']} {s['api']} {s['dtype']} ts={s['ts']} mag={s['mag']} tol={s['atol']:.1e},{s['rtol']:.1e}")
    if s["solver"] in ADAPT:
        kw = dict(atol=s["atol"], rtol=s["rtol"])
        it = "4th" if s["api"] == "interp" else None
        if s["api"] in ("odeint", "interp", "all"): te, sol = odeint(f, x, span, s["solver"], interpolator=it, return_all_eval=s["api"] == "all", **kw)
        elif s["api"] == "problem": te, sol = ODEProblem(f, s["solver"], **kw)(x, span)
        else:
            class M(torch.nn.Module):
                def forward(self, t, x, args={}): return f(t, x)
            m = NeuralODE(M(), s["solver"], sensitivity=s["sens"], **kw)
            te, sol = m(x, span) if s["api"] == "node" else (span, m.trajectory(x, span))
        if len(te) != len(sol) or (s["api"] != "all" and len(te) != len(span)): return dict(out, crash=f"{len(te)} times and {len(sol)} states for {len(span)} points")
        n, s_ = calls[0] // 6 + 1, set(span.tolist())
        keep = range(len(te)) if len(te) <= 12 else sorted({round(i * (len(te) - 1) / 11) for i in range(12)} | {k for k in range(len(te)) if float(te[k]) in s_})
        return dict(out, kind="adaptive", solver=s["solver"] + ("/4th" if it else ""), n=n, t=[num(te[k]) for k in keep], sol=[[vec(v) for v in rows(sol[k].detach())] for k in keep])
    order, lev = FIXED[s["solver"]], []
    for k in range(s["levels"]):
        m = 2 ** k * s["sub"]
        ts = [s["span"][0]]
        for a, b in zip(s["span"], s["span"][1:]): ts += [a + (b - a) * j / m for j in range(1, m)] + [b]
        g = torch.tensor(ts, dtype=dt)
        if s["solver"] == "alf":
            y = torch.cat([x, f(g[0], x)], -1)
            sol = odeint_symplectic(f, y, g, "alf")[1][..., :d]
        elif s["api"] == "problem": sol = ODEProblem(f, s["solver"])(x, g)[1]
        elif s["api"] == "node": sol = NeuralODE(f, s["solver"])(x, g)[1].detach()
        elif s["api"] == "save": sol = odeint(f, x, g, s["solver"], save_at=g[::m].clone())[1]
        else: sol = odeint(f, x, g, s["solver"])[1]
        if s["api"] != "save" or s["solver"] == "alf": sol = sol[::m]
        lev.append([[vec(v) for v in rows(q)] for q in sol])
    return dict(out, kind="fixed", solver=s["solver"], order=order, loose=s["solver"] == "ieuler", n=2 ** (s["levels"] - 1) * s["sub"] * (len(s["span"]) - 1), t=vec(span), lev=lev)


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        cons = rng.random() < .25
        adaptive = rng.random() < .65
        solver = rng.choice(ADAPT) if adaptive else rng.choice(["euler", "midpoint", "rk4", "rk4", "alf"] + (["ieuler"] if i % 4 == 0 else []))
        kind = rng.choice(CONS + ("rot",)) if cons else rng.choice(["exp", "rot", "spiral", "logistic", "riccati", "gauss", "poly", "relax", "jordan"])
        dtype = rng.choice(["float64", "float64", "float32"])
        if not adaptive: dtype = "float64"
        if solver == "ieuler" and kind in ("kepler", "rigid"): kind = "pendulum"
        sgn = rng.choice([1, 1, -1]) if solver not in ("alf", "ieuler") else 1
        d = dict(rot=2, spiral=2, jordan=2, quartic=2, pendulum=2, rigid=3, kepler=4).get(kind) or rng.choice([1, 1, 2, 3])
        B = rng.choice([[], [1], [2], [3], [2, 2]]) if kind not in ("kepler",) else rng.choice([[1], [2]])
        if rng.random() < .05: B = [40]
        if solver == "ieuler": B = [1]
        nb = math.prod(B)
        # spans in units of the time scale
        pts = rng.choice([2, 3, 3, 4, 6]); T = rng.uniform(.4, 2.) if not adaptive else rng.choice([rng.uniform(.3, 3.), rng.uniform(2., 8.)])
        cuts = sorted(rng.uniform(.08, .92) for _ in range(pts - 2))
        ts = rng.choice([1e-9, 1e-4, 1e3, 1e6]) if rng.random() < .3 else 1.
        t0 = 0. if ts != 1 or rng.random() < .4 else rng.choice([-1.2, .7, 3.1])
        u = lambda a, b: rng.uniform(a, b)
        mag = rng.choice([1e-6, 1e-3, 1e4]) if kind in ("exp", "rot", "spiral", "jordan", "gauss", "poly") and not cons and solver != "ieuler" and rng.random() < .3 else 1.
        if kind == "rot": c = [rng.choice([-1, 1]) * u(.5, 4.) / ts]
        elif kind == "exp": c = [u(-2, 1.) / ts / max(1, T / 3)] if rng.random() < .7 else [-sgn * u(5, 40) / ts / T]
        elif kind == "spiral": c = [u(-1, .5) / ts / max(1, T / 3), u(1, 4) / ts]
        elif kind == "logistic": c = [u(.3, 1.2) / ts / max(1, T / 3), u(.8, 3)]
        elif kind == "riccati": c = [u(.1, .3) / ts / T]
        elif kind == "gauss": t0 *= .5; c = [u(-1, 1) / ts / ts * 1.5 / max(1, (abs(t0) + T) ** 2)]
        elif kind == "poly": c = [u(-1, 1) * mag / ts / (T * ts) ** q for q in range(rng.randint(1, 6 if ts >= 1 or dtype == "float64" else 3))]
        elif kind == "relax": c = [(u(.2, 2) / T if sgn < 0 or rng.random() < .5 else u(2, 30)) / ts, u(.5, 3) / ts]
        elif kind == "jordan": c = [u(-1.5, .4) / ts / max(1, T / 3), u(-1, 1) / ts / max(1, T / 3)]
        elif kind == "rigid": c = [u(.5, 2) / ts, u(-2, 2), u(-2, 2)]
        else: c = [u(.5, 2) / ts]
        if not adaptive and kind == "relax": c[0] = u(.2, 2) / ts
        if not adaptive and kind == "exp" and abs(c[0] * ts) * T > 3: c[0] = -1 / ts
        x0 = []
        for _ in range(nb):
            if kind in ("logistic",): row = [u(.05, .95 if sgn < 0 else 1.5) * c[1] for _ in range(d)]
            elif kind == "riccati": row = [u(.1, 1.5) for _ in range(d)]
            elif kind == "kepler": a = u(0, 6.28); v = u(.85, 1.15); row = [math.cos(a), math.sin(a), -v * math.sin(a), v * math.cos(a)]
            elif kind == "rigid": row = [u(-1, 1) for _ in range(d)]
            else: row = [u(-2, 2) * mag for _ in range(d)]
            x0.append(row)
        if rng.random() < .05 and kind not in ("kepler", "logistic", "riccati") and adaptive: x0[0] = [0.] * d
        lo = -9.5 if dtype == "float64" else -4.7
        hi = -2.5
        if dtype == "float64" and rng.random() < .35: lo, hi = -11., -8.
        tol = lambda: 10 ** rng.uniform(lo, hi)
        atol, rtol = tol() * mag, tol()
        span = [t0 + sgn * ts * T * v for v in [0.] + cuts + [1.]]
        apis = ["odeint", "odeint", "problem", "node", "traj", "all"] + (["interp"] * 2 if solver == "dopri5" and len(B) == 1 else []) if adaptive else ["odeint", "problem", "node", "save"]
        sub = {"euler": 3, "midpoint": 2, "rk4": 1, "alf": 3, "ieuler": 3}.get(solver, 1)
        if cons: sub *= 2
        out.append(dict(id=f"{kind}-{i}", kind=kind, cons=cons, c=c, d=d, shape=B, x0=x0, span=span, solver=solver, dtype=dtype, ts=ts, mag=mag, atol=atol, rtol=rtol, api=rng.choice(apis) if solver not in ("alf", "ieuler") else "odeint",
                        sens=rng.choice(["autograd", "adjoint", "interpolated_adjoint"]), sub=sub, levels=7 if solver != "ieuler" else 6))
    return out
