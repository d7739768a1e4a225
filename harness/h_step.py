"""Driver of the adaptive controller: scripted solvers and logging subclasses of the real ones."""
import vlib
from vlib import num, vec, frac

RATIOS = [0.0, 0.5, 1.0, 3.0, 100.0]


class Stop(BaseException): pass


def scripted_solver(torch, script, order, minf, maxf, safety, dim, atol, rtol, semi, dtype, limit=250, tail=0.0):
    from torchdyn.numerics.solvers.templates import DiffEqSolver

    class Scripted(DiffEqSolver):
        def __init__(self):
            super().__init__(order=order, stepping_class="adaptive", min_factor=minf, max_factor=maxf, safety=safety)
            self.log, self.n = [], 0

        def step(self, f, x, t, dt, k1=None, args=None):
            self.n += 1
            if self.n > limit: raise vlib.Hang()
            n, ratio = self.n, (RATIOS[script[self.n - 1]] if self.n <= len(script) else tail)
            xn = torch.tensor([(-1) ** (n // 2 + j) * ([1, 5, 2, 7, 3][n % 5] + n / 1024 + 0.25 * j) for j in range(dim)], dtype=dtype)
            fn = torch.tensor([-n - 0.125 * j for j in range(dim)], dtype=dtype)
            mid = torch.tensor([0.5 * n - j for j in range(dim)], dtype=dtype)
            scale = atol + rtol * torch.max(x.abs(), xn.abs())
            sign = torch.tensor([(-1.0) ** (j + n) for j in range(dim)], dtype=dtype)
            err = ratio * sign * scale
            if semi: err[semi:] = 1e4 * (0.01 if n % 2 else 1.)
            self.log.append(dict(t=num(t), dt=num(dt), x=vec(x), k=[] if k1 is None else vec(k1), xn=vec(xn), fn=vec(fn), err=vec(err), mid=vec(mid)))
            return fn, xn, err, (mid,) * 7
    return Scripted()


def finish_log(log, res_t, res_x):
    for i, e in enumerate(log):
        e["last"] = i == len(log) - 1
        nx = log[i + 1] if i + 1 < len(log) else None
        e["pt"], e["px"], e["pk"] = (nx["t"], nx["x"], nx["k"]) if nx else ("0", [], [])
    return [dict(t=num(t), x=vec(x)) for t, x in zip(res_t, res_x)]


def scripted(s):
    import torch
    from torchdyn.numerics import odeint
    dtx = getattr(torch, s["xdtype"]); dtt = getattr(torch, s["tdtype"])
    dim, semi = s["dim"], s["semi"]
    x0 = torch.tensor([0.5 + j for j in range(dim)], dtype=dtx)
    k0 = torch.tensor([s["k0"] * (1. - 0.5 * j) for j in range(dim)], dtype=dtx)
    f = lambda t, x: k0.clone()
    def solver(script): return scripted_solver(torch, script, s["order"], s["minf"], s["maxf"], s["safety"], dim, s["atol"], s["rtol"], semi, dtx)
    kw = dict(atol=s["atol"], rtol=s["rtol"])
    if semi: kw["seminorm"] = (True, semi)
    # first step proposed by the code, from a dry run over a wide span
    dry = solver([])
    class One(BaseException): pass
    orig = dry.step
    def once(*a, **k): orig(*a, **k); raise One()
    object.__setattr__(dry, "step", once)
    try: odeint(f, x0.clone(), torch.tensor([s["t0"], s["t0"] + 1e5], dtype=dtt), dry, **kw)
    except One: pass
    dt0 = torch.tensor(float(eval_num(dry.log[0]["dt"])), dtype=dtt)
    t = torch.tensor(s["t0"], dtype=dtt)
    if s["accum"]:      # requested times reached by summing the steps themselves, so that sums can miss them by rounding
        grid = [t + (dt0 * m) for m in s["mults"]]
    else: grid = [t + m * float(dt0) for m in s["mults"]]
    if s["tiny"]: grid.append(grid[-1] + float(dt0) * 1e-5)
    span = torch.stack([t] + [torch.as_tensor(g, dtype=dtt) for g in grid])
    if not bool((span[1:] > span[:-1]).all()): return []
    so = solver(s["script"])
    x_in, span_in = x0.clone(), span.clone()
    te, sol = odeint(f, x_in, vlib.pieces(span_in, s["id"]), so, interpolator="4th" if s["interp"] else None, return_all_eval=s["all"], **kw)
    res = finish_log(so.log, te, sol)
    c = dict(mode=s["mode"], req=vec(span), interp=s["interp"], all=s["all"], atol=num(s["atol"]), rtol=num(s["rtol"]), order=s["order"],
             safety=num(torch.tensor(s["safety"])), minf=num(torch.tensor(s["minf"])), maxf=num(torch.tensor(s["maxf"])), semi=semi, eps=num(torch.finfo(dtt).eps), tolx=num(max(torch.finfo(dtx).eps, torch.finfo(dtt).eps)),
             dt0=num(dt0), exact=s["rtol"] == 0, checkmid=True)
    return dict(id=s["id"], c=c, x0=vec(x0), k0=vec(k0), ev=so.log, res=res, note=f"scripted {s['script']} grid {s['mults']} interp={s['interp']} all={s['all']}")


def eval_num(q):
    from fractions import Fraction
    return Fraction(q)


FIELDS = {
    "decay": lambda torch: (lambda t, x: -x),
    "osc": lambda torch: (lambda t, x: torch.stack([x[1] * 3, -x[0] * 3] + list(torch.zeros_like(x[2:])))),
    "vdp": lambda torch: (lambda t, x: torch.stack([x[1], 4 * (1 - x[0] ** 2) * x[1] - x[0]] + [torch.sin(t).reshape(()) * torch.ones_like(x[i]) for i in range(2, len(x))])),
    "stiffish": lambda torch: (lambda t, x: -40 * (x - torch.cos(t))),
    "quad": lambda torch: (lambda t, x: t * t * torch.ones_like(x)),
    "step": lambda torch: (lambda t, x: torch.where(t > 0.6, 25., 0.2) * torch.ones_like(x) - x),
    "zero": lambda torch: (lambda t, x: torch.zeros_like(x)),
}


def real(s):
    "A run of the real adaptive solver, observed by a logging subclass"
    import torch
    from torchdyn.numerics import odeint
    from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
    dtx = getattr(torch, s["xdtype"]); dtt = getattr(torch, s["tdtype"])
    base = {"dopri5": DormandPrince45, "tsit5": Tsitouras45}[s["solver"]]
    log = []

    class Logged(base):
        def step(self, f, x, t, dt, k1=None, args=None):
            self.n += 1
            if self.n > 40000: raise vlib.Hang()
            out = super().step(f, x, t, dt, k1=k1, args=args)
            if self.n > 1500: return out
            log.append(dict(t=num(t), dt=num(dt), x=vec(x), k=[] if k1 is None else vec(k1), xn=vec(out[1]), fn=vec(out[0]), err=vec(out[2]), mid=vec(out[0])))
            return out
    torch.manual_seed(s["seed"])
    x0 = torch.randn(s["dim"], dtype=dtx) * s["mag"]
    f = FIELDS[s["field"]](torch)
    fd = lambda t, x: f(t, x).to(dtx)
    span = torch.tensor(s["span"], dtype=dtt)
    so = Logged(dtx)
    so.n = 0
    kw = {}
    if s["semi"]: kw["seminorm"] = (True, s["semi"])
    k0 = fd(span[0], x0)
    te, sol = odeint(fd, x0.clone(), vlib.pieces(span.clone(), s["id"]), so, atol=s["atol"], rtol=s["rtol"], interpolator="4th" if s["interp"] else None, return_all_eval=s["all"], **kw)
    if so.n > 1500: return []       # stiff: too long to judge, and it did end
    res = finish_log(log, te, sol)
    interp = s["interp"] and s["solver"] == "dopri5"
    c = dict(mode=s["mode"], req=vec(span), interp=interp, all=s["all"], atol=num(s["atol"]), rtol=num(s["rtol"]), order=5,
             safety=num(torch.tensor(.9)), minf=num(torch.tensor(.2)), maxf="10", semi=s["semi"], eps=num(torch.finfo(dtt).eps), tolx=num(max(torch.finfo(dtx).eps, torch.finfo(dtt).eps)),
             dt0="", exact=False, checkmid=False)
    return dict(id=s["id"], c=c, x0=vec(x0), k0=vec(k0), ev=log, res=res, note=f"{s['solver']} {s['field']} span {s['span']}")


def scenarios(chk, mode, n_scripted, n_real):
    comp = chk.scenarios("StepScen.tla", "StepScen.cfg")
    rng, out = chk.rng, []
    grids, scripts = sorted(comp["grids"]), sorted(comp["scripts"])
    for i in range(n_scripted):
        # stratify: short scripts over all grids first, then everything at random
        script = rng.choice(scripts)
        flags = [(False, False), (True, False), (False, True), (True, True)][i % 4]
        rtol = 0.0 if rng.random() < .7 else 0.5
        dim = rng.choice([1, 2, 3])
        out.append(dict(id=f"scripted-{i}", kind="scripted", mode=mode, script=script, mults=[m / 4 for m in rng.choice(grids)], interp=flags[0], all=flags[1],
                        xdtype=rng.choice(["float64", "float64", "float32"]), tdtype=rng.choice(["float64", "float64", "float32"]), dim=dim,
                        semi=rng.choice([0, 0, 0, 1, 2]) if dim == 3 else 0, t0=rng.choice([0., 0.1, -0.3, 7.7, -2.0]), tiny=rng.random() < .15, accum=rng.random() < .5,
                        atol=rng.choice([1.0, 0.25]), rtol=rtol, k0=rng.choice([1., 8.]), order=rng.choice([1, 2, 5]),
                        minf=rng.choice([0.5, 0.2]), maxf=rng.choice([2.0, 10.0]), safety=rng.choice([1.0, 0.9, 0.5])))
        if i % 9 == 4: out[-1].update(t0=rng.choice([1e5, -3e4, 1e6]), xdtype="float64", tdtype="float64")   # far from time zero
    for i in range(n_real):
        n = rng.randint(1, 7); t0 = rng.choice([0., -1., 0.3]); T = t0 + rng.choice([0.5, 1., 2.])
        pts = sorted({round(rng.uniform(t0, T), 3) for _ in range(n - 1)} - {t0, T})
        out.append(dict(id=f"real-{i}", kind="real", mode=mode, solver=rng.choice(["dopri5", "tsit5"]), field=rng.choice(sorted(FIELDS)), span=[t0] + pts + [T],
                        xdtype=rng.choice(["float64", "float64", "float32"]), tdtype=rng.choice(["float64", "float32"]), dim=rng.choice([2, 3]), semi=0, mag=rng.choice([.1, 1., 10.]),
                        atol=rng.choice([1e-3, 1e-5, 1e-7]), rtol=rng.choice([1e-3, 1e-5, 0.]), interp=rng.random() < .4, all=rng.random() < .4, seed=rng.randrange(10 ** 6)))
        if i % 6 == 5: far = rng.choice([1e5, -3e4]); out[-1].update(span=[far + z for z in out[-1]["span"]], xdtype="float64", tdtype="float64")
    return out


def run(s): return scripted(s) if s["kind"] == "scripted" else real(s)
