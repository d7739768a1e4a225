"""Driver of C09 and C10: solves of triangular polynomial systems behind a change of coordinates, their gradients by every sensitivity method."""
import vlib, h_poly
from vlib import num, vec, frac
from fractions import Fraction as F


def matmul(a, b): return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def shear(rng, d, k):
    "random unimodular integer matrix and its inverse"
    A = [[F(i == j) for j in range(d)] for i in range(d)]; I = [r[:] for r in A]
    for _ in range(k if d > 1 else 0):
        i, j = rng.sample(range(d), 2); c = rng.choice([-1, 1])
        E = [[F(a == b) for b in range(d)] for a in range(d)]; E[i][j] = F(c)
        G = [[F(a == b) for b in range(d)] for a in range(d)]; G[i][j] = F(-c)
        A, I = matmul(A, E), matmul(G, I)
    return A, I


def perm(rng, d, p):
    A = [[F(int(p[i] == j)) for j in range(d)] for i in range(d)]
    return A, [list(c) for c in zip(*A)]


def run(s):
    import torch, torch.nn as nn
    from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingLayer
    from torchdyn.core.problems import MultipleShootingProblem
    from torchdyn.numerics import odeint
    dt = getattr(torch, s["dtype"])
    d, f, order = s["d"], s["f"], s["order"]
    A, Ai = (torch.tensor([[float(F(v)) for v in r] for r in s[k]], dtype=dt) for k in ("A", "Ainv"))
    vs, integral = [], s["integral"]
    def params():
        out = []
        for p in s["params"]:
            t = torch.tensor([float(F(v)) for v in p["val"]], dtype=dt)
            t = t.reshape(p["shape"])
            if p["trans"] and t.dim() > 1: t = t.transpose(0, -1).contiguous().transpose(0, -1)  # not contiguous
            out.append(nn.Parameter(t, requires_grad=not p["frozen"]))
        return out
    def rates(theta, coords, t, x):
        "the given coordinates of the hidden system at rows x"
        y = x @ Ai.to(x).T
        flat = [p.flatten() for p in theta]
        out = []
        for i in coords:
            v = torch.zeros_like(y[..., 0])
            for q, m in enumerate(f[i]):
                where = s["home"][i][q]
                c = float(F(m["c"])) if where is None else flat[where[0]][where[1]].to(x) * float(F(where[2]))
                v = v + c * h_poly.value(torch, [dict(m, c="1")], t, y)
            out.append(v)
        return torch.stack(out, -1)
    def field(theta, t, x):
        dx = rates(theta, range(d), t, x) @ A.to(x).T
        return dx if order == 1 else dx[..., d - d // order:]
    timed = s["timed"]
    class Inner(nn.Module):
        def __init__(self, ps): super().__init__(); self.theta = nn.ParameterList(ps)
    class Field(nn.Module):
        def __init__(self):
            super().__init__()
            ps = params()
            self.late = nn.Parameter(torch.ones((), dtype=dt)) if s["unused"] else None
            self.inner, self.unused = Inner(ps), nn.ParameterList([nn.Parameter(torch.ones(2, 3, dtype=dt))] if s["unused"] else [])
        if timed:
            def forward(self, t, x): return field(self.inner.theta, t, x)
        else:
            def forward(self, x): return field(self.inner.theta, torch.zeros((), dtype=x.dtype), x)
    span = torch.linspace(s["t0"], s["t1"], s["pts"], dtype=dt)
    x0 = torch.tensor([[float(F(v)) for v in r] for r in s["xs"]], dtype=dt)
    idx = s["idx"]
    W = torch.tensor([[[float(F(v)) for v in r] for r in k] for k in s["w"]], dtype=dt)
    B = len(x0)
    for v in s["variants"]:
        torch.manual_seed(0)
        fixed = s["solver"] in ("euler", "midpoint", "rk4", "ieuler", "implicit_euler")
        x = x0.clone()
        auto = v["sens"] == "autograd"
        if integral and auto: x = torch.cat([torch.full((B, 1), s["lead"], dtype=dt), x], 1)
        if s["shape"] == "flat": x = x[0]
        elif s["shape"] == "deep": x = x[None]
        if s["leaf"]: x.requires_grad_(True)
        times = s["times"] and v["sens"] != "interpolated_adjoint"
        sp = span.clone().requires_grad_(times)
        if v["how"] == "fun":
            theta = params()
            if timed: g = lambda t, x: field(theta, t, x)
            else: g = lambda x: field(theta, torch.zeros((), dtype=x.dtype), x)
            unused, kw = [], dict(optimizable_params=theta)
        else:
            g = Field(); theta, unused, kw = list(g.inner.theta), list(g.unused) + ([g.late] if s["unused"] else []), {}
        def loss(t, x): return rates(theta, [d], t, x)[..., 0]
        if v["how"] == "odeint":
            h = g if timed else (lambda t, x: g(x))
            solve = lambda x, sp, sv: odeint(h, x, sp, solver=s["solver"], atol=s["atol"], rtol=s["rtol"], save_at=sv)
        elif v["how"].startswith("shoot"):  # parallel-in-time, with as many rounds as intervals: the sequential solve
            B0 = None if s["guess"] is None else torch.cat([x.detach()[None], torch.stack([x.detach() * .5 + s["guess"]] * (len(span) - 1))])
            m = (MultipleShootingLayer if v["how"] == "shoot layer" else MultipleShootingProblem)(g, s["parallel"], sensitivity=v["sens"], maxiter=len(span) + s["extra"], fine_steps=s["fine"], solver_adjoint=s["backsolver"], atol_adjoint=s["atol"], rtol_adjoint=s["rtol"], seminorm=s["seminorm"])
            solve = lambda x, sp, sv: m(x, sp, B0) if len(sp) == len(span) else m(x, sp)
        else:
            cls = ODEProblem if v["how"] == "problem" else NeuralODE
            tol = {} if fixed and s["backsolver"] in ("rk4", None) else dict(atol=s["atol"], rtol=s["rtol"])
            m = cls(g, solver=s["solver"], sensitivity=v["sens"], solver_adjoint=s["backsolver"], atol_adjoint=s["atol"], rtol_adjoint=s["rtol"], seminorm=s["seminorm"], atol=s["loose"] or s["atol"] if not fixed else 1e-3, rtol=s["loose"] or s["rtol"] if not fixed else 1e-3,
                    integral_loss=loss if integral else None, **(dict(order=order) if cls is NeuralODE else {}), **kw)
            solve = lambda x, sp, sv: m(x, sp, sv)
        if s["saved"]: t_eval, sol = solve(x, sp, span[idx]); pick = sol
        else: t_eval, sol = solve(x, sp, ()); pick = sol[idx]
        if s["interleave"]:  # another solve in between must not matter
            solve(x.detach() * .5, span[: max(2, len(span) // 2)], ())
        if s["shape"] == "flat": pick = pick[:, None]
        elif s["shape"] == "deep": pick = pick[:, 0]
        lead = []
        if integral and auto: lead, pick = pick[..., 0] - s["lead"], pick[..., 1:]
        L = (pick * W).sum()
        if integral and auto: L = L + lead[idx.index(max(idx))].sum()
        if times: L = L + (t_eval[idx] * torch.tensor([float(F(q)) for q in s["tw"]], dtype=dt)).sum() if not s["saved"] else L
        want = ([sp] if times else []) + [p for p in theta if p.requires_grad] + unused + ([x] if s["leaf"] else [])
        # no state after the initial one depends on anything
        lost = "implicit" in s["id"] and all(q is None or not q.any() for q in torch.autograd.grad(pick[idx.index(max(idx))].sum(), [p for p in theta if p.requires_grad] + ([x] if s["leaf"] else []), retain_graph=True, allow_unused=True))
        if s["backward"]:
            L.backward(); gr = [p.grad for p in want]
        else: gr = torch.autograd.grad(L, want, allow_unused=True)
        gr = [torch.zeros_like(p) if q is None else q for p, q in zip(want, gr)]
        assert all(q.shape == p.shape for p, q in zip(want, gr)), "shape of a gradient"
        gx, gt = [], []
        if times:
            gt = gr.pop(0); want.pop(0)
            gt = vec(torch.cat([gt[:1], gt[idx], gt[[j for j in range(1, len(gt)) if j not in idx]]]))
        if s["leaf"]:
            gx = gr.pop().reshape(B, -1)
            gx = [vec(q) for q in (gx[:, 1:] if integral and auto else gx)]
        nt = sum(p.requires_grad for p in theta)
        gp = {id(p): q.flatten() for p, q in zip(want, gr[:nt])}
        gc = [num(gp[id(theta[a])][b]) for a, b in s["order_of_groups"]]
        zero = [z for q in gr[nt:] for z in vec(q)]
        vs.append(dict(name=f"{v['how']} {v['sens']}{', disconnected' if lost else ''}", tol=v["tol"], sol=[[vec(q) for q in k] for k in pick], lead=[vec(k) for k in lead] if len(lead) else [], gx=gx, gc=gc, gt=gt, zero=zero))
    if not all(torch.isfinite(torch.tensor([float(F(z)) for k in v["sol"] for q in k for z in q])).all() for v in vs): return []
    return dict(id=s["id"], f=f, d=d, A=s["A"], Ainv=s["Ainv"], t0=num(span[0]), ts=[num(span[k]) for k in idx], xs=[vec(q) for q in x0], w=s["w"], kappa="1" if integral else "0", last=idx.index(max(idx)) + 1, first=idx.index(0) + 1 if 0 in idx else 0, tw=["0"] * len(idx) if s["saved"] else s["tw"], groups=s["groups"], same=s["same"], vs=vs,
                note=f"d {d} order {order} {s['solver']}/{s['backsolver']} pts {s['pts']} {s['dtype']} [{s['t0']},{s['t1']}] {s['shape']} saved {s['saved']} idx {idx}")


def scenarios(chk, n, integral):
    rng, out = chk.rng, []
    for k in range(n):
        # at rest any forward tolerance gives the exact trajectory, so the adjoint's own tolerances alone decide the gradient
        rest = not integral and k % 12 == 7
        par = not integral and k % 12 == 3  # solved in parallel in time
        newton = par and rng.random() < .5
        implicit = not integral and k % 24 == 11
        order = 1 if rest or par or implicit else rng.choice([1, 1, 1, 2])
        shape = rng.choice(["rows", "rows", "flat", "deep"]) if order == 1 and not integral and not par else "rows"
        if order == 1:
            wiggle = rest and k % 24 == 19  # the adjoint is constant too: only the gradients of the parameters need small steps
            d = 1 if wiggle else rng.choice([3, 4]) if rest else rng.choice([1, 2, 3, 4])
            f = []
            for i in range(d):
                if rest:
                    f.append([h_poly.mono(h_poly.nz(rng, 1, 2) if i else F(0), rng.choice([7, 9, 11]) if wiggle else rng.choice([1, 2]), [0] * max(i - 1, 0) + [1] * (i > 0))])
                    continue
                p = []
                for _ in range(rng.choice([1, 1, 2])):
                    e = [0] * i
                    for _ in range(rng.choice([0, 1, 1, 2]) if i else 0): e[rng.randrange(i)] += 1
                    p.append(h_poly.mono(h_poly.nz(rng, -1, 1), rng.choice([0, 0, 1, 2]), e))
                if len({(q["m"], tuple(q["e"])) for q in p}) < len(p): p = p[:1]
                f.append(p)
            A, Ai = shear(rng, d, rng.choice([0, 2, 3]))
            fixedc = set()
        else:  # y_i'' = polynomial of the earlier coordinates and speeds; hidden order v1 y1 v2 y2
            sz = rng.choice([1, 2]); d = 2 * sz; f, fixedc = [], set()
            for i in range(sz):
                e = [0] * (2 * i)
                for _ in range(rng.choice([0, 1, 2]) if i else 0): e[rng.randrange(2 * i)] += 1
                f.append([h_poly.mono(h_poly.nz(rng, -1, 1), rng.choice([0, 1, 2]), e)])
                f.append([h_poly.mono(F(1), 0, [0] * (2 * i) + [1])]); fixedc.add(2 * i + 1)
            A, Ai = perm(rng, d, [2 * i + 1 for i in range(sz)] + [2 * i for i in range(sz)])
        if integral:
            p = []
            for _ in range(rng.choice([1, 2])):
                e = [0] * d
                for _ in range(rng.choice([0, 1, 2, 2])): e[rng.randrange(d)] += 1
                p.append(h_poly.mono(h_poly.nz(rng, -1, 1), rng.choice([0, 0, 1]), e))
            if len({(q["m"], tuple(q["e"])) for q in p}) < len(p): p = p[:1]
            f.append(p)
        if par or not rest and rng.random() < .4: f = [[dict(q, m=0) for q in p] for p in f]
        f = [p if len({(q["m"], tuple(q["e"])) for q in p}) == len(p) else p[:1] for p in f]
        # parameters: the coefficients, spread over tensors of various shapes; some share a parameter, some are frozen or no parameter at all
        home = [[None for _ in p] for p in f]
        places = [(i, q) for i in range(len(f)) for q in range(len(f[i])) if i not in fixedc and (i < d or rng.random() < .4)]
        rng.shuffle(places)
        entries = []  # value, [(i, q, scale)]
        for i, q in places:
            c = F(f[i][q]["c"])
            if entries and (rng.random() < .15 or i == d) and entries[-1][0] != 0:
                val = entries[-1][0]
                entries[-1][1].append((i, q, c / val))
            else: entries.append((c, [(i, q, F(1))]))
        if not any(i < d for e in entries for i, _, _ in e[1]): continue
        # scales must be exact floats
        entries = [(v, [(i, q, sc) for i, q, sc in u]) for v, u in entries]
        bad = [(i, q) for v, u in entries for i, q, sc in u if sc.denominator & (sc.denominator - 1)]
        entries = [(v, [(i, q, sc) for i, q, sc in u if (i, q) not in bad]) for v, u in entries]
        entries = [e for e in entries if e[1]]
        params, pos = [], []
        j = 0
        while j < len(entries):
            size = min(rng.choice([1, 1, 2, 3, 4]), len(entries) - j)
            shp = {1: rng.choice([[], [1], [1, 1]]), 2: rng.choice([[2], [1, 2], [2, 1]]), 3: rng.choice([[3], [1, 3, 1]]), 4: rng.choice([[2, 2], [4]])}[size]
            params.append(dict(val=[frac(e[0]) for e in entries[j:j + size]], shape=shp, trans=rng.random() < .5, frozen=rng.random() < .1))
            for a in range(size): pos.append((len(params) - 1, a))
            j += size
        if all(p["frozen"] for p in params): params[0]["frozen"] = False
        groups, oog = [], []
        for (v, u), (a, b) in zip(entries, pos):
            for i, q, sc in u: home[i][q] = (a, b, frac(sc))
            if not params[a]["frozen"]: groups.append([dict(i=i + 1, q=q + 1, s=frac(sc)) for i, q, sc in u]); oog.append((a, b))
        timed = any(q["m"] for p in f[:d] for q in p) or rng.random() < .3
        B = 1 if shape == "flat" else rng.choice([1, 2, 3])
        kind = rng.choice(["sparse", "dense", "dense"]) if not par and not implicit else "dense"
        dtype = "float64" if rng.random() < .85 else "float32"
        T = rng.choice([.5, 1., 1., 1.5]); t0 = rng.choice([0., 0., .5, -.75])
        back = rng.random() < .35
        t0, t1 = (t0 + T, t0) if back else (t0, t0 + T)
        if rest: kind, dtype, T = "sparse", "float64", 2.; t0 = 0.; t1 = T; back = False
        if kind == "sparse": solver, pts = rng.choice(["dopri5", "tsit5"]), rng.choice([2, 2, 3, 5] if not rest else [2, 2, 3])
        else: solver, pts = rng.choice(["rk4", "rk4", "midpoint", "euler", "dopri5", "tsit5"] if not par and not implicit else ["rk4"] if par else ["ieuler", "implicit_euler"]), rng.choice([24, 33]) if not newton else 9
        if implicit: dtype = "float64"
        fixed = solver in ("rk4", "midpoint", "euler", "ieuler", "implicit_euler")
        backsolver = rng.choice(["dopri5", "tsit5"]) if kind == "sparse" else rng.choice([None, None, "dopri5", "rk4"]) if not newton else rng.choice([None, "dopri5"])
        atol = 1e-9 if dtype == "float64" else 1e-4
        saved = fixed and not par and rng.random() < .6
        # fixed-step times need not be evenly spaced, but are here
        nread = rng.choice([1, 1, 2, 3])
        idx = sorted(rng.sample(range(pts), min(nread, pts)))
        if integral or rng.random() < .5: idx = sorted(set(idx[:-1] + [pts - 1]))
        if kind == "dense" and max(idx) < 8 and not newton: idx = sorted(set(idx + [rng.randrange(8, pts)]))
        if saved and len(idx) == 1 and rng.random() < .5: idx = sorted({0, idx[0]})
        if saved and rng.random() < .5: rng.shuffle(idx)  # saved states may be asked for in any order
        w = [[[frac(h_poly.dy(rng, -2, 2)) for _ in range(d)] for _ in range(B)] for _ in idx]
        fine = rng.choice([3, 4, 5])
        h = T / (pts - 1) / (fine - 1 if newton else 1)
        acc = 0.
        worst = [sv for sv in (solver,) if sv in ("euler", "midpoint", "rk4")]
        for sv in {solver, backsolver or solver}:
            acc = max(acc, {"euler": 12 * h, "ieuler": 12 * h, "implicit_euler": 12 * h, "midpoint": 40 * h * h, "rk4": 400 * h ** 4 + 1e-8}.get(sv, 1e-6))
        semi = kind == "dense" and rng.random() < .2  # the accumulation of parameter gradients is not error-controlled then
        acc += 1e-4 if semi else 0
        acc += 0 if dtype == "float64" else 2e-2 if not fixed or backsolver in ("dopri5", "tsit5") else 2e-4
        fwd = {"euler": 12 * h, "ieuler": 12 * h, "implicit_euler": 12 * h, "midpoint": 40 * h * h, "rk4": 400 * h ** 4 + 1e-8}.get(solver, 1e-6) + (0 if dtype == "float64" else 2e-2 if not fixed else 2e-4)
        tol = lambda sens: frac(F(fwd if sens == "autograd" else acc if sens == "adjoint" else acc + 20 * h * h).limit_denominator(10 ** 12))
        def how(): return "module" if order > 1 or integral else rng.choice(["module", "module", "problem", "fun"]) if shape == "rows" else "problem"
        senses = ["autograd", "adjoint"] + (["interpolated_adjoint"] if kind == "dense" and not newton else [])
        variants = [dict(how=how(), sens=x, tol=tol(x)) for x in senses]
        if not integral and order == 1 and rng.random() < .3: variants.append(dict(how="odeint", sens="autograd", tol=tol("autograd")))
        same = not integral or fixed
        if rest: variants = [dict(how=how(), sens=x, tol=tol("adjoint")) for x in ("adjoint", "interpolated_adjoint")]
        leaf = rng.random() < .85
        still = order == 1 and shape == "rows" and not any(q["m"] for p in f for q in p)
        shoot = still and not integral and not rest and solver == "rk4" and not saved
        if shoot: variants = [dict(v, how=rng.choice(["shoot layer", "shoot problem"])) for v in variants if v["how"] != "odeint"]
        out.append(dict(id=f"{'il' if integral else 'sens'}-{k}", d=d, f=f, order=order, A=[[frac(v) for v in q] for q in A], Ainv=[[frac(v) for v in q] for q in Ai], home=home, params=params, groups=groups, order_of_groups=oog, timed=timed, shape=shape,
                        t0=t0, t1=t1, pts=pts, idx=idx, saved=saved, loose=1. if rest else 0., xs=[[frac(F(0) if rest else h_poly.dy(rng, -1, 1)) for _ in range(d)] for _ in range(B)], w=w, variants=variants, solver=solver, backsolver=backsolver, atol=atol, rtol=atol, dtype=dtype,
                        seminorm=semi, unused=rng.random() < .5, leaf=leaf, interleave=rng.random() < .3, backward=rng.random() < .5, same=same, integral=integral, parallel='backward' if newton else 'zero', guess=rng.choice([None, None, 0., .25]), extra=rng.choice([-1, 0, 1]), fine=fine, times=not shoot and not implicit and rng.random() < .5, tw=[frac(h_poly.dy(rng, -2, 2)) for _ in idx], lead=rng.choice([0., 0., .5])))
        if implicit:  # direct back-propagation on its own
            a = [v for v in variants if v["sens"] == "autograd"]
            out.append(dict(out[-1], id=f"implicit-{k}", variants=a)); out[-2]["variants"] = [v for v in variants if v not in a]
    return out
