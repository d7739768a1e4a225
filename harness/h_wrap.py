"""Driver of C21: problem and model objects against the functional solvers."""
import vlib
from h_hist import dig

WHAT = ["node"] * 8 + ["problem"] * 4 + ["msl", "msp", "nsde", "sdep"]


def scenarios(c, n):
    out = []
    R = c.rng
    for i in range(n):
        what = WHAT[i % len(WHAT)]
        s = {"id": f"wrap-{what}-{i}", "what": what, "seed": R.randrange(10 ** 6), "opt": [R.randrange(60) for _ in range(12)], "calls": []}
        for _ in range(R.randrange(2, 6)):
            if what in ("node", "nsde") and R.random() < .35: s["calls"].append({"do": "assign", "span": R.choice([0, 1, 2, 3])})
            how = R.choice({"node": ["forward", "forward", "trajectory", "odeint"], "nsde": ["forward", "forward", "trajectory"]}.get(what, ["forward", "odeint"]))
            if what in ("msl", "msp"): how = R.choice(["forward", "odeint"])
            can = what in ("node", "nsde") and how == "forward"
            s["calls"].append({"do": "call", "how": how, "span": R.choice([0, 0, 1, 2, 3]) if can else R.choice([1, 2, 3]), "save": R.choice([0, 0, 1, 2]), "args": R.choice([0, 0, 1, 2])})
        out.append(s)
    return out


def run(s):
    import torch, torch.nn as nn
    from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, MultipleShootingLayer
    from torchdyn.core.problems import MultipleShootingProblem, SDEProblem
    from torchdyn.core.defunc import SDEFunc
    from torchdyn.numerics import odeint, odeint_mshooting, sdeint
    from torchdyn.numerics.solvers.templates import DiffEqSolver
    torch.set_num_threads(1)
    what, opt = s["what"], s["opt"]
    dt = [torch.float64, torch.float32][opt[0] % 2]
    g = torch.Generator().manual_seed(s["seed"])
    rnd = lambda *sh: torch.randint(-16, 17, sh, generator=g).to(dt) / 24
    seen = [0]
    d, order = 1 + opt[1] % 3, 1
    loss = what == "node" and opt[2] % 4 == 0
    sens = ["autograd", "adjoint", "interpolated_adjoint"][opt[3] % 3] if what in ("node", "problem") else "autograd"
    if what == "node" and opt[4] % 3 == 0: order = 2
    aug = loss and sens == "autograd"
    W = rnd(d * order, d)
    core = lambda t, x, u=0: x @ W.to(x) - torch.sin(2 * x[:, :d]) / 4 + t / 8 + u / 8
    form = opt[5] % 7
    takes_t, takes_a = form not in (0, 4), form in (2, 6)
    def val(t, x, args):
        seen[0] += 1
        return core(t if takes_t else 0, x, args.get("u", 0) if takes_a else 0)
    if form == 0: f = lambda x: val(0, x, {})
    elif form == 1: f = lambda t, x: val(t, x, {})
    elif form == 2:
        def f(t, x, args={}): return val(t, x, args)
    else:
        class M(nn.Module):
            def __init__(self): super().__init__(); self.w = nn.Parameter(W.clone())
        if form == 4:
            class F(M):
                def forward(self, x): return val(0, x, {}) + 0 * (x @ self.w.to(x))
        elif form == 6:
            class F(M):
                def forward(self, t, x, args={}): return val(t, x, args) + 0 * (x @ self.w.to(x))
        else:
            class F(M):
                def forward(self, t, x): return val(t, x, {}) + 0 * (x @ self.w.to(x))
        f = F()
    if what in ("msl", "msp"):
        form = takes_t = takes_a = 0
        def val(t, x, args):
            seen[0] += 1
            return x @ W.to(x) - x * x * x / 4 if x.dim() == 3 or x.dim() == 2 else None
        d = 1 + opt[1] % 3; W = rnd(d, d)
        f = [lambda x: val(0, x, {}), lambda t, x: val(t, x, {})][opt[5] % 2]
    lossf = lambda t, x: (x * x).sum(1) + t
    # ---------------------------------------------------------------- the functional solver
    def ref(t, x, args={}):
        "the field the object stands for"
        z = x[:, 1:] if aug else x
        y = val(t, z, args)
        if form > 2: y = y + 0 * (z @ W.to(z))
        if order == 2: y = torch.cat([z[:, d:], y], 1)
        return torch.cat([lossf(t, z)[:, None], y], 1) if aug else y
    class User(DiffEqSolver):
        "a user-defined step, which passes its arguments on"
        def __init__(self): super().__init__(order=2); self.stepping_class, self.dtype = "fixed", dt
        def step(self, f, x, t, dt, k1=None, args=None):
            k = f(t, x, args=args)
            return None, x + dt * f(t + dt / 2, x + dt / 2 * k, args=args), None
    def solver():
        name = ["euler", "midpoint", "rk4", "dopri5", "tsit5", "dopri5", "user"][opt[6] % 7]
        if name == "user" and what == "problem" and form in (3, 5): name = "rk4"  # such a field takes no args
        return User() if name == "user" else name
    tol = dict(atol=[1e-3, 1e-5, 1e-2][opt[7] % 3], rtol=[1e-3, 1e-4, 1e-6][opt[8] % 3])
    interp = "4th" if opt[9] % 3 == 0 else None
    spans = {99: torch.linspace(0, 1, 2)}
    for i in (1, 2, 3):
        t = torch.cumsum(torch.randint(1, 6, (3 + i,), generator=g).to(dt), 0) / 8
        if what in ("msl", "msp"): t = torch.linspace(0, i / 2, 3 + i, dtype=dt)
        elif i == 2 and what in ("node", "problem"): t = t.flip(0).clone()
        spans[i] = t
    save = lambda span, n: () if n == 0 else [spans[span][[0]], spans[span][[-1, 1]]][n - 1]
    args = {0: {}, 1: {"u": torch.tensor(.5, dtype=dt)}, 2: {"u": torch.tensor(-1., dtype=dt)}}
    x = rnd(2, d * order + aug)
    noise = lambda a, b: ((b - a) * (1.5 - a)).to(dt)
    gdiff = [lambda t, x: x / 4 + t / 8, lambda x: x / 4][opt[5] % 2]
    calc = ["ito", "stratonovich"][opt[2] % 2]
    sname = [["euler", "milstein_ito"], ["eulerHeun", "milstein_stratonovich"]][opt[2] % 2][opt[3] % 2]
    ms = dict(fine_steps=2 + opt[7] % 3, maxiter=opt[8] % 4)
    mname = ["zero", "backward", "mszero", "parareal"][opt[6] % 4]
    b0 = lambda span, n: None if n == 0 else torch.cat([x[None], torch.randint(-8, 9, (len(spans[span]) - 1, *x.shape), generator=torch.Generator().manual_seed(n)).to(dt) / 16])
    def functional(span, n, a, how):
        if what in ("msl", "msp"): return odeint_mshooting(lambda t, x: val(t, x, {}), x, spans[span], mname, b0(span, n), ms["fine_steps"], ms["maxiter"])
        if what in ("nsde", "sdep"):
            sde = SDEFunc(f=f, g=gdiff, noise_type="diagonal", sde_type=calc)
            return sdeint(sde, x, spans[span], sname, noise, save_at=save(span, n))
        return odeint(ref, x, spans[span], solver(), **tol, interpolator=interp if how != "trajectory" else None, save_at=save(span, n), args=args[a])
    # ---------------------------------------------------------------- the object
    pairs = True
    if what == "node":
        pairs = opt[10] % 2 == 0
        m = NeuralODE(f, solver(), order=order, **tol, sensitivity=sens, interpolator=interp, integral_loss=lossf if loss else None, return_t_eval=pairs, seminorm=opt[11] % 2 == 0)
        count = lambda: int(m.vf.nfe)
    elif what == "problem":
        m = ODEProblem(f, solver(), interpolator=interp, **tol, sensitivity=sens, integral_loss=lossf if opt[2] % 5 == 0 and sens != "autograd" else None)
        count = None
    elif what in ("msl", "msp"):
        m = (MultipleShootingLayer if what == "msl" else MultipleShootingProblem)(f, mname, sensitivity=["autograd", "adjoint", "interpolated_adjoint"][opt[9] % 3], maxiter=ms["maxiter"], fine_steps=ms["fine_steps"])
        count = None
    elif what == "nsde":
        pairs = opt[10] % 2 == 0
        m = NeuralSDE(f, gdiff, solver=sname, noise_type="diagonal", sde_type=calc, bm=noise, return_t_eval=pairs, **({"t_span": None} if opt[11] % 2 else {}))
        count = None
    else:
        m = SDEProblem(SDEFunc(f=f, g=gdiff, noise_type="diagonal", sde_type=calc), sname)
        count = None
    # ---------------------------------------------------------------- history
    ev, table, assigned = [], {}, 0
    for call in s["calls"]:
        if call["do"] == "assign":
            assigned = call["span"]; m.t_span = spans[assigned] if assigned else None
            ev.append({"ev": "assign", "span": assigned}); continue
        how, sp, n, a = call["how"], call["span"], call["save"], call["args"]
        t = spans[sp] if sp else None
        actual = sp or assigned or 99
        s0, c0 = seen[0], count() if count else 0
        if what in ("msl", "msp"): out, a = getattr(m, how)(x, t, b0(actual, n)), 0
        elif how == "trajectory": out = m.trajectory(x, t)
        elif what in ("nsde", "sdep"):
            if actual == 99 and n == 2: n = 0
            a = 0
            out = m(x, t, save_at=save(actual, n)) if what == "nsde" else m(x, t, noise, save(actual, n)) if how == "forward" else m.sdeint(x, t, noise, save(actual, n))
        else:
            if actual == 99 and n == 2: n = 1
            out = getattr(m, how)(x, t, **({"save_at": save(actual, n)} if n else {}), **({"args": args[a]} if a else {}))
        s1, c1 = seen[0], count() if count else 0
        pair = isinstance(out, tuple)
        ev.append({"ev": "call", "how": how, "span": sp, "save": n, "args": a, "out": "pair" if pair else "states", "t": dig(out[0]) if pair else "", "x": dig(out[1] if pair else out),
                   "seen": s1 - s0, "counted": c1 - c0 if count else s1 - s0})
        key = (actual, 0 if how == "trajectory" else n, 0 if how == "trajectory" else a, "trajectory" if how == "trajectory" else "solve")
        if key not in table:
            ft, fx = functional(*key); table[key] = (dig(ft), dig(fx))
    return {"id": s["id"], "pairs": pairs, "table": [{"span": k[0], "save": k[1], "args": k[2], "how": k[3], "t": v[0], "x": v[1]} for k, v in table.items()], "ev": ev,
            "note": f"{what} {sens} order {order} form {form} {solver() if what in ('node', 'problem') else ''} interp {interp} loss {loss}"}


def backs(c, n):
    return [{"id": f"back-{i}", "opt": [c.rng.randrange(60) for _ in range(8)], "seed": c.rng.randrange(10 ** 6)} for i in range(n)]


def run_back(s):
    "backward passes: which solver makes the steps, and the effect of the options of the adjoint"
    import torch, torch.nn as nn
    from torchdyn.core import NeuralODE, ODEProblem
    from torchdyn.numerics.solvers import ode as O
    torch.set_num_threads(1)
    opt = s["opt"]
    g = torch.Generator().manual_seed(s["seed"])
    rnd = lambda *sh: torch.randint(-16, 17, sh, generator=g).double() / 24
    seen = [0]
    class F(nn.Module):
        "the gradient of the parameter p oscillates, while state and adjoint are smooth"
        def __init__(self): super().__init__(); self.w, self.p = nn.Parameter(rnd(2, 2)), nn.Parameter(torch.zeros(2).double())
        def forward(self, t, x): seen[0] += 1; return x @ self.w - torch.sin(2 * x) / 4 + self.p * torch.sin(40 * t)
    def counting(cls):
        class C(cls):
            steps = 0
            def step(self, *a, **k): self.steps += 1; return super().step(*a, **k)
        return C(dtype=torch.float64)
    model = [NeuralODE, ODEProblem][opt[0] % 2]
    x, t = 1 + rnd(2, 2) / 2, torch.linspace(0, 1, 3 + opt[1] % 3).double()
    if opt[2] % 3 == 0: t = t.flip(0).clone()
    ev = []
    def back(sens, main, own, scale=1., **kw):
        torch.manual_seed(0)
        m = model(F(), solver=main, solver_adjoint=own, sensitivity=sens, **{**dict(atol=1e-5, rtol=1e-5), **kw})
        y = x.clone().requires_grad_(True)
        _, sol = m(y, t)
        n0, c0 = seen[0], m.vf.nfe if model is NeuralODE else 0
        if isinstance(main, nn.Module): main.steps = 0
        if isinstance(own, nn.Module): own.steps = 0
        (scale * (sol ** 2).sum()).backward()
        return seen[0] - n0, int(m.vf.nfe - c0) if model is NeuralODE else seen[0] - n0
    SOL = [O.RungeKutta4, O.DormandPrince45, O.Midpoint, O.Tsitouras45]
    for sens in ("autograd", "adjoint", "interpolated_adjoint"):
        main = counting(SOL[opt[3] % 4]); own = counting(SOL[opt[4] % 4]) if opt[5] % 3 else None
        n, cnt = back(sens, main, own)
        ev.append({"ev": "back", "sens": sens, "own": own is not None, "bymain": main.steps, "byadj": own.steps if own is not None else 0, "seen": n, "counted": cnt})
    for sens in ("adjoint", "interpolated_adjoint"):
        own = ["dopri5", "tsit5", None][opt[6] % 3]
        main = "dopri5" if own is None else ["rk4", "dopri5"][opt[7] % 2]
        for name, loose, tight in (("atol_adjoint", dict(atol_adjoint=1e-2, rtol_adjoint=1e-7), dict(atol_adjoint=1e-8, rtol_adjoint=1e-7)),
                                   ("rtol_adjoint", dict(atol_adjoint=1e-7, rtol_adjoint=1e-1), dict(atol_adjoint=1e-7, rtol_adjoint=1e-8)),
                                   ("rtol_adjoint of large gradients", dict(atol_adjoint=1e-5, rtol_adjoint=1e-2, scale=1e6), dict(atol_adjoint=1e-2, rtol_adjoint=1e-7, scale=1e6)),
                                   ("atol_adjoint of small gradients", dict(atol_adjoint=1e-2, rtol_adjoint=1e-5, scale=1e-4), dict(atol_adjoint=1e-9, rtol_adjoint=1e-2, scale=1e-4)),
                                   ("seminorm", dict(seminorm=True, atol_adjoint=1e-6, rtol_adjoint=1e-6), dict(seminorm=False, atol_adjoint=1e-6, rtol_adjoint=1e-6))):
            if name == "seminorm" and sens != "adjoint": continue
            ev.append({"ev": "tighter", "name": name, "loose": back(sens, main, own, **loose)[0], "tight": back(sens, main, own, **tight)[0]})
    return {"id": s["id"], "pairs": True, "table": [], "ev": ev}
