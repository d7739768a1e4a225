"""Driver of C12: vector fields of every signature behind the wrappers of neural differential equations, recorded evaluation by evaluation."""
import functools
import vlib
from vlib import num, vec


class Enough(Exception): pass


def rows(x, axis=1):
    "rows along an axis"
    x = x.detach()
    if x.dim() == 1: return [vec(x)]
    return [vec(v) for v in x.movedim(axis, -1).reshape(-1, x.shape[axis])]


def run(s):
    import torch, torch.nn as nn
    from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, MultipleShootingLayer
    from torchdyn.models.cnf import CNF
    from torchdyn.nn import DepthCat, DataControl
    from torchdyn.numerics.solvers.templates import DiffEqSolver
    dt = getattr(torch, s["dtype"])
    torch.manual_seed(s["seed"]); g = torch.Generator().manual_seed(s["seed"])
    rnd = lambda *sh: torch.randint(-16, 17, sh, generator=g).to(dt) / 16
    n, size, tail = s["order"], s["size"], tuple(s["tail"])
    skip = int(s["loss"]) + int(s["cnf"])
    ev, live = [], [True]
    def log(**e):
        if live[0]:
            ev.append(e)
            if len(ev) > s["max"]: raise Enough
    def argtag(a): return num(a["u"]) if "u" in a else "none"
    # ------------------------------------------------------------- the user's field
    w = torch.nn.Parameter(rnd(n * size, size) / 2)
    def core(t, x): return torch.tanh(torch.einsum("bi...,ij->bj...", x, w)) + (0 if t is None else torch.sin(3 * t.reshape(()).to(x)))
    def seen(t, x, args, y):
        log(ev="seen", t=[num(t)] if t is not None else [], x=rows(x), args=[argtag(args)] if args is not None else [], y=rows(y)); return y
    def sub(kind, mod, axis=1):
        mod.register_forward_hook(lambda m, i, o: log(ev="sub", kind=kind, x=rows(i[0], axis), y=rows(o, axis))); return mod
    def lin(i, o): return nn.Linear(i, o, dtype=dt)
    form = s["form"]
    if form == "fx": f = lambda x: seen(None, x, None, core(None, x))
    elif form == "ftx": f = lambda t, x: seen(t, x, None, core(t, x))
    elif form == "fargs":
        def f(t, x, args): return seen(t, x, args, core(t, x))
    elif form == "fdef":
        def f(t, x, scale=1., args={}): return seen(t, x, args, core(t, x))
    elif form == "fkw":
        def f(t, x, **kw): return seen(t, x, kw.get("args", {}), core(t, x))
    elif form == "partial":
        def f0(c, t, x): return seen(t, x, None, c * core(t, x))
        f = functools.partial(f0, .5)
    elif form == "bound":
        class Obj:
            def field(self, t, x, args={}): return seen(t, x, args, core(t, x))
        f = Obj().field
    elif form == "callable":
        class Obj:
            def __call__(self, t, x): return seen(t, x, None, core(t, x))
        f = Obj()
    elif form == "fx2":
        def f(x, scale=1., bias=0.): return seen(None, x, None, scale * core(None, x) + bias)
    elif form == "callx":
        class Obj:
            def __call__(self, x): return seen(None, x, None, core(None, x))
        f = Obj()
    elif form == "mx":
        class Field(nn.Module):
            def __init__(self): super().__init__(); self.w = w
            def forward(self, x): return seen(None, x, None, core(None, x))
        f = Field()
    elif form == "mtx":
        class Field(nn.Module):
            def __init__(self): super().__init__(); self.w = w
            def forward(self, t, x): return seen(t, x, None, core(t, x))
        f = Field()
    elif form == "margs":
        class Field(nn.Module):
            def __init__(self): super().__init__(); self.w = w
            def forward(self, t, x, args={}): return seen(t, x, args, core(t, x))
        f = Field()
    elif form == "mkw":
        class Field(nn.Module):
            def __init__(self): super().__init__(); self.w = w
            def forward(self, t, x, **kw): return seen(t, x, kw.get("args", {}), core(t, x))
        f = Field()
    else:  # containers of depth-aware and data-control submodules
        width = n * size
        if form == "conv":
            class Net(nn.Module):
                def __init__(self):
                    super().__init__()
                    self.a, self.b = sub("depth", DepthCat(1)), sub("depth", DepthCat(2), 2)
                    self.l = lin(width + 1, size)
                def forward(self, x): return self.l(self.b(self.a(x)).movedim(1, -1)).movedim(-1, 1)[:, :, :x.shape[2]].contiguous()
            net = Net()
        else:
            layers = []
            control, h = form in ("control", "both"), width
            if control: layers.append(sub("control", DataControl())); h += width
            layers += [lin(h, 3), nn.Tanh()]; h = 3
            if form in ("depth", "both", "shared"):
                d = sub("depth", DepthCat(1))
                layers += [nn.Sequential(nn.Identity(), d), lin(4, 3), nn.Tanh()]
                if form == "shared": layers += [d, lin(4, 3)]
                else: layers += [sub("depth", DepthCat(-1), -1), lin(4, 3)]
            if form == "both": layers += [sub("control", DataControl())]; h += width
            net = nn.Sequential(*layers, lin(h, size))
        if s["wrapm"] == "none":
            f = net; net.register_forward_hook(lambda m, i, o: (seen(None, i[0], None, o), None)[1])
        else:
            class Field(nn.Module):
                def __init__(self): super().__init__(); self.inner = nn.ModuleDict(dict(net=net)); self.t = None
                if s["wrapm"] == "x":
                    def forward(self, x): return seen(None, x, None, self.inner["net"](x))
                else:
                    def forward(self, t, x, args={}):
                        # the field is depth-aware itself
                        log(ev="sub", kind="depth", x=rows(x), y=rows(torch.cat([x, self.t.to(x) * torch.ones_like(x[:, :1])], 1)))
                        return seen(t, x, args, self.inner["net"](x))
            f = Field()
    if s["cnf"]: f = CNF(f)
    # ------------------------------------------------------------- a solver that evaluates where it likes, and knows where
    class Probe(DiffEqSolver):
        def __init__(self, dtype=torch.float32): super().__init__(order=1); self.dtype, self.stepping_class = dtype, "fixed"
        def step(self, f, x, t, dt_, k1=None, args=None):
            for j in range(s["evals"]):
                tq, xq = t + dt_ * float(rnd()), x + rnd(*x.shape) / 4
                a = args if s["pass"] != "none" else None
                log(ev="ask", t=num(tq), x=rows(xq), args=argtag(a or {}), back=probing[0])
                mine[0] = True
                y = f(tq, xq) if a is None else f(tq, xq, a) if s["pass"] == "pos" else f(tq, xq, args=a)
                mine[0] = False
                log(ev="answer", y=rows(y))
            return None, x + dt_ * y, None
    mine, probing = [False], [False]
    def pre(mod, inp, kw):
        if not mine[0]: log(ev="ask", t=num(inp[0]), x=rows(inp[1]), args=argtag(kw.get("args", inp[2] if len(inp) > 2 else {}) or {}), back=False)
    def post(mod, inp, out):
        if not mine[0]: log(ev="answer", y=rows(out))
    def loss(t, x):
        y = (x ** 2).flatten(1).sum(1) + t.reshape(()).to(x)
        log(ev="loss", t=num(t), x=rows(x), y=vec(y)); return y[:, None] if s["losscol"] else y
    solver = Probe() if s["solver"] == "probe" else s["solver"]
    state = lambda b: rnd(b, skip + n * size, *tail)
    kw = dict(order=n) if n > 1 else {}
    try:
        if s["model"] == "sde":
            def diff(t, x): return .1 * torch.ones_like(x)
            model = NeuralSDE(f, (lambda x: .1 * torch.ones_like(x)) if s["seed"] % 2 else diff, solver="euler", bm=lambda a, b: torch.zeros((), dtype=dt))
            inner = model.defunc.f
            def asked(t, x):
                log(ev="ask", t=num(t), x=rows(x), args="none", back=False); y = inner(t, x); log(ev="answer", y=rows(y)); return y
            model.defunc.f = asked
            vf = None
        else:
            if s["model"] == "node":
                model = NeuralODE(f, solver=solver, sensitivity=s["sens"], atol=1e-3, rtol=1e-3, atol_adjoint=1e-2, rtol_adjoint=1e-2, solver_adjoint="rk4",
                                  integral_loss=loss if s["loss"] else None, optimizable_params=[w] if not isinstance(f, nn.Module) and s["optim"] else (), **kw)
            else: model = ODEProblem(f, solver=solver, sensitivity=s["sens"], atol=1e-3, rtol=1e-3, atol_adjoint=1e-2, rtol_adjoint=1e-2, solver_adjoint="rk4")
            vf = model.vf
            vf.register_forward_pre_hook(pre, with_kwargs=True); vf.register_forward_hook(post)
        for a in s["acts"]:
            x = state(a["n"]); args = dict(u=a["u"]) if s["pass"] != "none" else {}
            log(ev="solve", x=rows(x))
            span = torch.linspace(0, a["t1"], a["pts"], dtype=dt) + a["t0"]
            if a["back"] and s["model"] != "sde": span = span.flip(0); probing[0] = True
            else: probing[0] = False
            if a["kind"] == "direct":
                if s["model"] != "node" or not hasattr(model, "_prep_integration"): continue
                model._prep_integration(x, span)
                vf(span[0], state(a["n"]) if not s["cnf"] else x, args=args) if s["pass"] != "none" else vf(span[0], x)
            elif a["kind"] == "trajectory" and s["model"] != "ode": model.trajectory(x, span)
            elif s["model"] == "sde": model(x, span)
            elif s["model"] == "ode": model(x, span, (), args)
            else:
                sol = model(x.requires_grad_(a["grad"]), span, args=args)[1]
                if a["grad"]: sol[-1].sum().backward()
    except Enough: ev = ev[:s["max"]]
    # a cut record ends at an answer
    while ev and ev[-1]["ev"] != "answer": ev.pop()
    return dict(id=s["id"], order=n, skip=skip, loss=s["loss"], ev=ev, note=f"{s['model']} {form} {s['wrapm']} order {n} {s['solver']} {s['sens']} args {s['pass']} cnf {s['cnf']} loss {s['loss']} {[a['kind'] for a in s['acts']]}")


FUNS = ["fx", "fx2", "callx", "ftx", "fargs", "fdef", "fkw", "partial", "bound", "callable", "mx", "mtx", "margs", "mkw"]
TAKES = {"fargs", "fdef", "fkw", "bound", "margs", "mkw"}
NETS = ["depth", "control", "both", "shared", "conv"]


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        model = rng.choice(["node"] * 7 + ["ode", "ode", "sde"])
        form = rng.choice(FUNS) if model == "ode" or rng.random() < .45 else rng.choice(NETS)
        if model == "sde" and form not in ("fx", "fx2", "callx", "ftx", "mx", "mtx", "control"): form = "control"
        node = model == "node"
        cnf = node and form in ("depth", "control", "both", "shared") and rng.random() < .3
        wrapm = rng.choice(["none", "x"]) if cnf or model == "sde" else rng.choice(["none", "x", "tx"])
        order = rng.choice([1, 1, 2, 3]) if node and not cnf else 1
        tail = rng.choice([[2], [3]]) if form == "conv" else rng.choice([[], [], [2]]) if form in FUNS and model != "sde" else []
        loss = node and not tail and rng.random() < .3
        solver = rng.choice(["probe", "probe", "probe", "euler", "midpoint", "rk4", "dopri5", "tsit5"])
        sens = "autograd" if loss else rng.choice(["autograd", "autograd", "adjoint", "interpolated_adjoint"])
        if solver == "probe" and sens == "interpolated_adjoint": sens = "adjoint"
        if form == "conv": wrapm = rng.choice(["none", "x"])
        pas = rng.choice(["none", "pos", "kw"]) if model == "node" else "none" if form not in TAKES or model == "sde" else rng.choice(["none", "pos", "kw"])
        if model == "ode" and form == "mkw" and pas == "pos": pas = "kw"  # not wrapped: takes no positional args
        acts = [dict(kind=rng.choice(["solve", "solve", "solve", "trajectory", "direct"]), n=rng.choice([1, 2, 3]), u=rng.randint(-8, 8) / 4, t0=rng.choice([0., .5, -1.]), t1=rng.choice([.5, 1., .25]), pts=rng.choice([2, 3]),
                     back=rng.random() < .3, grad=rng.random() < .4 and pas == "none") for _ in range(rng.choice([1, 2, 3]))]
        out.append(dict(id=f"vf-{i}", model=model, form=form, wrapm=wrapm, cnf=cnf, order=order, size=rng.choice([1, 2, 3]), tail=tail, loss=loss, losscol=rng.random() < .5, solver=solver, sens=sens, dtype=rng.choice(["float64", "float64", "float32"]),
                        seed=rng.randrange(10 ** 6), evals=rng.choice([1, 2, 3]), optim=rng.random() < .5, acts=acts, max=90, **{"pass": pas}))
    return out
