"""Driver of C11: histories of solves over shared objects, each solve compared with fresh objects."""
import hashlib, json
import vlib


class Boom(Exception): pass


def dig(v):
    "type, shape and all bits"
    import torch
    if isinstance(v, torch.Tensor):
        v = v.detach().contiguous()
        return f"{v.dtype} {tuple(v.shape)} " + hashlib.sha1(v.numpy().tobytes()).hexdigest()[:16]
    if isinstance(v, (list, tuple)): return "[" + ", ".join(dig(u) for u in v) + "]"
    if isinstance(v, dict): return "{" + ", ".join(f"{k}: {dig(u)}" for k, u in sorted(v.items())) + "}"
    return repr(v)


KINDS = ["euler", "midpoint", "rk4", "dopri5", "tsit5", "dopri5", "hyper", "ieuler", "alf", "problem", "node", "adjoint", "cnf", "ms", "msl", "hybrid", "sde", "nsde", "root", "gal"]
LOCAL = {"euler", "midpoint", "rk4", "hyper", "problem", "node", "alf", "ms", "sde", "nsde"}  # samples of a batch do not influence each other, bit for bit


def scenarios(c, n):
    hist = c.scenarios("HistScen.tla", "HistScen.cfg")
    out = []
    for i in range(n):
        kind = KINDS[i % len(KINDS)]
        out.append({"id": f"hist-{kind}-{i}", "kind": kind, "seed": c.rng.randrange(10 ** 6), "hist": c.rng.choice(hist), "opt": [c.rng.randrange(12) for _ in range(8)]})
    return out


def run(s):
    import torch, torch.nn as nn
    from torchdyn.core import NeuralODE, ODEProblem, NeuralSDE, MultipleShootingLayer
    from torchdyn.core.defunc import SDEFunc
    from torchdyn.models import CNF, hutch_trace
    from torchdyn.nn import DepthCat, DataControl, GalLinear
    from torchdyn.nn.galerkin import Fourier, Polynomial
    from torchdyn.numerics import odeint, odeint_symplectic, odeint_mshooting, odeint_hybrid, sdeint
    from torchdyn.numerics.interpolators import FourthOrder
    from torchdyn.numerics.solvers import ode as O, hyper as Hy, sde as S
    from torchdyn.numerics.solvers.root import root_find
    from torchdyn.numerics.utils import EventCallback
    torch.set_num_threads(1)
    kind, opt, seed = s["kind"], s["opt"], s["seed"]
    left = [None]  # evaluations left before the field fails
    def tick():
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0: raise Boom("field")
    def field(t, x):
        tick(); return (0.75 - x * x / 4) * x + t * t / 4 - 0.25
    first = getattr(torch, ["float32", "float64"][opt[0] % 2])

    class Net(nn.Module):
        "elementwise in the samples, aware of depth and of the data"
        def __init__(self):
            super().__init__()
            g = torch.Generator().manual_seed(seed)
            self.w = nn.Parameter(torch.randint(-8, 9, (3,), generator=g).double() / 16)
            self.depth, self.control = DepthCat(1), DataControl()
        def forward(self, t, x, args={}):
            tick(); w = self.w.to(x)
            h, d = self.control(x), x.shape[1]
            return w[0] * h[:, :d] + w[1] * h[:, d:] * x + w[2] * self.depth(x)[:, d:] - x * x * x / 8 + args.get("u", 0) / 8
    class Affine(nn.Module):
        def __init__(self):
            super().__init__()
            g = torch.Generator().manual_seed(seed)
            self.w, self.b = nn.Parameter(torch.randint(-8, 9, (2,), generator=g).double() / 16), nn.Parameter(torch.randint(-8, 9, (1,), generator=g).double() / 16)
        def forward(self, t, x):
            tick(); return self.w[0] * x - self.w[1] * x * x * x / 4 + self.b * t
    class Cb(EventCallback):
        def __init__(self, lim, to): super().__init__(); self.lim, self.to = lim, to
        def check_event(self, t, x): return bool((x > self.lim).any())
        def jump_map(self, t, x): return x - self.to
    noise = lambda a, b: (b - a) * (1.5 - a)
    def sde(): return SDEFunc(f=field, g=lambda t, x: x / 4 + t / 8, noise_type="diagonal", sde_type=["ito", "stratonovich"][opt[1] % 2])
    SDES = [["euler", "milstein_ito"], ["eulerHeun", "milstein_stratonovich"]][opt[1] % 2][opt[2] % 2]

    def make():
        "the objects shared by a history"
        torch.manual_seed(seed)
        if kind in ("euler", "midpoint", "rk4", "dopri5", "tsit5", "ieuler", "alf", "hybrid"):
            cls = {"euler": O.Euler, "midpoint": O.Midpoint, "rk4": O.RungeKutta4, "dopri5": O.DormandPrince45, "tsit5": O.Tsitouras45, "ieuler": O.ImplicitEuler,
                   "hybrid": [O.DormandPrince45, O.Tsitouras45][opt[1] % 2]}.get(kind)
            return {"solver": cls(dtype=first) if cls else O.AsynchronousLeapfrog(dtype=first), "interp": [None, "4th", FourthOrder(torch.float64)][opt[2] % 3], "cbs": [Cb(.75, .5), Cb(1., 1.)]}
        if kind == "hyper":
            return {"solver": [Hy.HyperEuler, Hy.HyperMidpoint, Hy.HyperRungeKutta4][opt[1] % 3](lambda t, x: x / 4 + t / 8, dtype=first)}
        if kind == "problem":
            return {"m": ODEProblem(field, solver=["euler", "midpoint", "rk4"][opt[1] % 3])}
        if kind == "node": return {"m": NeuralODE(Net(), solver=["euler", "midpoint", "rk4"][opt[1] % 3])}
        if kind == "adjoint":
            return {"m": NeuralODE(Affine(), solver=["rk4", "dopri5", "tsit5"][opt[1] % 3], sensitivity=["autograd", "adjoint", "interpolated_adjoint"][opt[2] % 3],
                                   solver_adjoint=[None, "rk4", "dopri5"][opt[3] % 3], integral_loss=(lambda t, x: (x * x).sum(1)) if opt[4] % 3 == 0 and opt[2] % 3 else None)}
        if kind == "cnf":
            net = nn.Sequential(nn.Linear(2, 4), nn.Tanh(), nn.Linear(4, 2)).double()
            return {"m": NeuralODE(CNF(net, trace_estimator=[None, hutch_trace][opt[1] % 2], noise_dist=torch.distributions.MultivariateNormal(torch.zeros(2).double(), torch.eye(2).double())),
                                   solver=["rk4", "dopri5"][opt[2] % 2])}
        if kind == "ms": return {"solver": [O.MSZero, O.MSBackward][opt[1] % 2](*[("euler", "rk4"), ("midpoint", "rk4"), ("euler", "midpoint")][opt[2] % 3])}
        if kind == "msl": return {"m": MultipleShootingLayer(Affine(), solver=["zero", "backward"][opt[1] % 2], sensitivity=["autograd", "adjoint"][opt[2] % 2], maxiter=1 + opt[3] % 3, fine_steps=2 + opt[4] % 3)}
        if kind == "sde": return {"solver": S.SDE_SOLVER_DICT[SDES](sde(), noise, first), "sde": sde()}
        if kind == "nsde":
            d = sde()
            return {"m": NeuralSDE(field, d.g_func, solver=SDES, noise_type="diagonal", sde_type=d.sde_type, bm=noise)}
        if kind == "root": return {}
        if kind == "gal":
            l = GalLinear(2, 2, expfunc=[Fourier, Polynomial][opt[1] % 2](3))
            with torch.no_grad(): l.coeffs.copy_(torch.randint(-8, 9, l.coeffs.shape, generator=torch.Generator().manual_seed(seed)) / 16)
            return {"m": NeuralODE(nn.Sequential(DepthCat(1), l), solver=["rk4", "dopri5"][opt[2] % 2])}
        raise vlib.MachineryError(kind)

    one = kind in ("adjoint", "cnf", "msl", "gal")  # the precision of these is the one of their parameters
    def inputs(letter, batch=None):
        g = torch.Generator().manual_seed(seed + 7 * letter["prec"] + 3 * letter["shape"] + letter["back"])
        dt = torch.float32 if kind == "gal" else torch.float64 if one else getattr(torch, f"float{letter['prec']}")
        b, d = letter["shape"] * 2 - (opt[5] % 2), letter["shape"]
        if kind in ("cnf", "gal"): d = 3 if kind == "cnf" else 2
        if kind == "alf": d = 2 * d
        x = (torch.randint(-16, 17, (b, d), generator=g).to(dt) / 24)
        n = 3 + letter["shape"]
        t = torch.cumsum(torch.randint(1, 5, (n,), generator=g).to(dt), 0) / (10 if letter["prec"] == 64 else 12)
        if kind in ("ms", "msl"): t = torch.linspace(0, 1, n, dtype=dt) + (0.25 if letter["prec"] == 64 else 0)
        if letter["back"] and kind not in ("ms", "msl", "hybrid", "sde", "nsde", "hyper"): t = t.flip(0).clone()
        save = t[[0, 2]].clone() if opt[6] % 3 == 0 and kind in ("euler", "midpoint", "rk4", "problem", "node", "sde", "nsde", "hyper") else ()
        if len(save) and opt[6] % 2: save = [v.item() for v in save] if letter["shape"] == 2 else save
        args = {"u": torch.tensor(float(letter["shape"]), dtype=dt)} if opt[7] % 2 else {}
        if batch is not None: x = x[batch:batch + 1].clone()
        return {"x": x, "t": t, "save": save, "args": args}

    def solve(o, letter, i):
        "results of one solve, a list of tensors whose dimension named first is the one of samples"
        x, t, save, args = i["x"], i["t"], i["save"], i["args"]
        if kind in ("euler", "midpoint", "rk4", "hyper", "ieuler"): return [*odeint(field, x, t, solver=o["solver"], save_at=save)]
        if kind in ("dopri5", "tsit5"):
            return [*odeint(field, x, t, solver=o["solver"], atol=1e-4, rtol=1e-4, interpolator=o["interp"] if kind == "dopri5" else None, return_all_eval=opt[3] % 3 == 0)]
        if kind == "alf":
            f = lambda t, y: field(t, y)
            f.order = 1
            return [*odeint_symplectic(f, x, t, solver=o["solver"])]
        if kind == "problem": return [*o["m"](x, t, save_at=save)]
        if kind == "node":
            if opt[3] % 2 and letter["shape"] == 1: return [o["m"].trajectory(x, t)]
            return [*o["m"](x, t, save_at=save, args=args)]
        if kind == "adjoint":
            y = x.clone().requires_grad_(True)
            m = o["m"]
            te, sol = m(y, t)
            gr = torch.autograd.grad((sol[1:] * torch.arange(1, len(sol), dtype=sol.dtype)[:, None, None]).sum() + sol[0].sum() / 4, [y, *m.vf.parameters()], allow_unused=True)
            return [te, sol, *[q if q is not None else torch.zeros(1) for q in gr]]
        if kind == "cnf":
            torch.manual_seed(seed + letter["prec"] + letter["shape"] + 5 * letter["back"])
            return [*o["m"](x, t)]
        if kind == "ms": return [*odeint_mshooting(field if opt[3] % 2 else (lambda t, y: field(torch.zeros_like(y[..., :1]), y)), x, t, o["solver"], fine_steps=2 + opt[4] % 3, maxiter=2)]
        if kind == "msl":
            y = x.clone().requires_grad_(True)
            te, sol = o["m"](y, t)
            return [te, sol, *[q if q is not None else torch.zeros(1) for q in torch.autograd.grad((sol * sol).sum(), [y, *o["m"].vf.parameters()], allow_unused=True)]]
        if kind == "hybrid": return [*odeint_hybrid(lambda t, y: field(t, y) + 1, x, t, 8, o["solver"], o["cbs"], atol=1e-4, rtol=1e-4)]
        if kind == "sde":
            return [*sdeint(o["sde"], x, t, o["solver"], noise, save_at=save)]
        if kind == "nsde":
            if opt[3] % 2 and letter["shape"] == 1: return [o["m"].trajectory(x, t)]
            return [*o["m"](x, t, save_at=save)]
        if kind == "root":
            def g(z): tick(); return z * z * z / 4 + z - 0.5 * (2 if letter["back"] else 1)
            z, log = root_find(g, x, alpha=[1, .5][opt[1] % 2], f_tol=1e-4, x_tol=1e-3, maxiters=12, method=["broyden", "broyden_fast"][opt[2] % 2], search_method=["naive", "none", "armijo"][opt[3] % 3])
            return [z, torch.tensor(float(len(log.data["z"])))] if hasattr(log, "data") and isinstance(log.data, dict) else [z]
        if kind == "gal": return [*o["m"](x, t)]

    def params(o): return [p for p in o["m"].vf.parameters()] if "m" in o and hasattr(o["m"], "vf") else []
    def once(o, letter, batch=None):
        "one solve: recorded result, inputs before and after"
        i = inputs(letter, batch)
        state = lambda: [dig(i["x"]), dig(i["t"]), dig(i["save"]), dig(i["args"]), dig([p.detach() for p in params(o)])]
        before = state()
        left[0] = 3 + seed % 5 if letter["fails"] else None
        try: res, fails = solve(o, letter, i), False
        except Boom: res, fails = [], True
        finally: left[0] = None
        return res, fails, before, state()

    def train(o, steps):
        "an update of the parameters between solves"
        with torch.no_grad():
            for p in params(o): p.add_(steps / 32)
        return o

    shared, ev, keep, trained = make(), [], [], 0
    again = [l for l in s["hist"] if not l["fails"]][:1]
    for letter in s["hist"] + again:
        res, fails, before, after = once(shared, letter)
        fresh, ff, _, _ = once(train(make(), trained), letter)
        ev.append({"ev": "solve", "key": f"{trained} " + json.dumps(letter, sort_keys=True), "fails": fails, "res": [dig(v) for v in res], "fresh": [dig(v) for v in fresh] if not ff else ["fails"], "before": before, "after": after})
        keep.append(res)
        if opt[5] % 3 == 0: train(shared, 1); trained += 1
    for n, res in enumerate(keep):
        if not ev[n]["fails"]: ev.append({"ev": "old", "at": n + 1, "res": [dig(v) for v in res]})
    if kind in LOCAL:
        letter = again[0]
        trained -= opt[5] % 3 == 0
        whole = keep[-1][-1]
        ax = 1  # time, sample, feature
        for b in range(whole.shape[ax]):
            alone = once(train(make(), trained), letter, b)[0][-1]
            ev.append({"ev": "batch", "rows": dig(whole[:, b]), "alone": dig(alone[:, 0])})
    return {"id": s["id"], "ev": ev}
