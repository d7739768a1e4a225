"""Drivers of C03 and C04: the real methods on the tree systems written by TLC."""
import vlib
from vlib import num, vec, frac
from fractions import Fraction as F

NAMES = {"euler": (1, False), "midpoint": (2, False), "rk4": (4, False), "rk-4": (4, False), "RungeKutta4": (4, False),
         "dopri5": (5, True), "DormandPrince45": (5, True), "DormandPrince5": (5, True), "tsit5": (5, True), "Tsitouras45": (5, True), "Tsitouras5": (5, True)}


def field(torch, sys, axis=-1):
    "The torch vector field of a system (coordinates along the last axis)"
    cs = [float(F(q["c"])) for q in sys]
    def f(t, x):
        out = []
        for q, c in zip(sys, cs):
            v = torch.full_like(x[..., 0], c)
            if q["m"]: v = v * (t.reshape(()) if torch.is_tensor(t) else t) ** q["m"]
            for j, k in enumerate(q["e"]):
                if k: v = v * (x[..., j] ** k if k > 1 else x[..., j])
            out.append(v)
        return torch.stack(out, -1)
    return f


def dyadic(rng, lo, hi, den=16): return F(rng.randint(int(lo * den), int(hi * den)), den)


def observe(s):
    import torch
    from torchdyn.numerics import odeint
    from torchdyn.numerics.solvers.ode import str_to_solver
    from torchdyn.numerics.interpolators import str_to_interp
    dt = getattr(torch, s["dtype"])
    sys = s["sys"]; n = len(sys)
    perm = s["perm"]; inv = [perm.index(i) for i in range(n)]
    f0 = field(torch, sys)
    f = lambda t, x: f0(t, x[..., inv])[..., perm]          # coordinates permuted in the code's state
    B = len(s["y0"])
    y0 = torch.tensor([[float(F(v)) for v in row] for row in s["y0"]], dtype=dt)[:, perm]
    shape = lambda x: x.reshape(s["shape"] + [n]) if s["shape"] else x[0]
    x0 = shape(y0)
    flat = lambda x: (x.reshape(-1, n) if s["shape"] else x[None])[:, inv]
    t0, hs = F(s["t0"]), [F(h) for h in s["h"]]
    obs = [[] for _ in range(B if s["shape"] else 1)]
    order, adaptive = NAMES[s["solver"]]
    dtt = getattr(torch, s["tdtype"])
    if s["mode"] == "solve":
        pts = [t0]
        for h in hs: pts.append(pts[-1] + h)
        span = torch.tensor([float(p) for p in pts], dtype=dtt)
        solver = s["solver"] if s["byname"] else str_to_solver(s["solver"], dt)
        kw = dict(atol=1e-3, rtol=1e-3) if adaptive else {}
        te, sol = odeint(f, x0, span, solver, interpolator=s["interp"], **kw)
        if len(te) == len(pts):
            for k in range(len(pts)):
                for b, row in enumerate(flat(sol[k])): obs[b].append(dict(kind="interp" if s["interp"] else "solve", s=frac(pts[k] - t0), y=vec(row)))
        else: raise AssertionError("number of returned times")
    elif s["mode"] == "step":
        solver = str_to_solver(s["solver"], dt)
        h = hs[0]
        t = torch.tensor([float(t0)], dtype=dtt); d = torch.tensor([float(h)], dtype=dtt)
        solver.sync_device_dtype(x0, t)
        k1 = f(t, x0) if s["withk1"] else None
        out = solver.step(f, x0, t, d, k1=k1)
        xs = flat(out[1])
        for b, row in enumerate(xs): obs[b].append(dict(kind="solve", s=frac(h), y=vec(row)))
        if adaptive:
            for b, row in enumerate(flat(out[2])): obs[b].append(dict(kind="err", s=frac(h), y=vec(row)))
            for b, row in enumerate(flat(out[0])): obs[b].append(dict(kind="slope", s=frac(h), x=vec(xs[b]), y=vec(row)))
    elif s["mode"] == "dense":
        # one step of the adaptive method, requested times strictly inside it
        h = hs[0]; ths = [F(q) for q in s["th"]]
        pts = [t0] + [t0 + h * q for q in ths] + [t0 + h]
        span = torch.tensor([float(p) for p in pts], dtype=dtt)
        te, sol = odeint(f, x0, span, s["solver"], atol=1e9, rtol=1e-3, interpolator="4th")
        assert len(te) == len(pts), "number of returned times"
        for k in range(len(pts)):
            for b, row in enumerate(flat(sol[k])): obs[b].append(dict(kind="interp", s=frac(pts[k] - t0), y=vec(row)))
    elif s["mode"] == "quartic":
        g = torch.Generator().manual_seed(s["seed"])
        v = [torch.randn(4, generator=g, dtype=torch.float64).to(dt) for _ in range(5)]
        it = str_to_interp("4th", dt)
        h = hs[0]
        co = it.fit(torch.tensor([float(h)], dtype=dtt), v[0], v[1], v[2], v[3], v[4])
        ta, tb = torch.tensor([float(t0)], dtype=dtt), torch.tensor([float(t0 + h)], dtype=dtt)
        vals = [vec(it.evaluate(co, ta, tb, torch.tensor(float(t0 + h * F(q)), dtype=dtt))) for q in s["th"]]
        obs[0].append(dict(kind="quartic", dt=frac(h), f0=vec(v[0]), f1=vec(v[1]), x0=vec(v[2]), x1=vec(v[3]), xm=vec(v[4]), th=s["th"], v=vals))
    eps = max(torch.finfo(dt).eps, torch.finfo(dtt).eps)
    hmax = sum((abs(h) for h in hs), F(0))
    return [dict(id=f"{s['id']}.{b}", sys=sys, order=order, emb=4, emberr=s["mode"] == "step" and s["rich"] and s["dtype"] == s["tdtype"] == "float64", eps=num(eps), tol=s["tol"], t0=s["t0"], hmax=frac(hmax),
                 y0=vec(flat(x0)[b]), obs=o, note=f"{s['solver']} {s['mode']} {s['dtype']}") for b, o in enumerate(obs) if o]


def same(s):
    "Interpolated solves of a general field: the same steps whatever is asked for in between"
    import torch, h_step
    from torchdyn.numerics import odeint
    from torchdyn.numerics.solvers.ode import DormandPrince45
    dt = getattr(torch, s["dtype"])
    f = h_step.FIELDS[s["field"]](torch)
    fd = lambda t, x: f(t, x).to(dt)
    torch.manual_seed(s["seed"])
    x0 = torch.randn(3, dtype=dt)
    def go(span, interp):
        log = []
        class Logged(DormandPrince45):
            def step(self, f, x, t, d, k1=None, args=None):
                if len(log) > 4000: raise vlib.Hang()
                out = super().step(f, x, t, d, k1=k1, args=args)
                log.extend([num(t), num(d), *vec(x), *vec(out[1])])
                return out
        te, sol = odeint(fd, x0.clone(), torch.tensor(span, dtype=torch.float64), Logged(dt), atol=s["atol"], rtol=s["rtol"], interpolator=interp)
        return log, sol
    ends = [s["pts"][0], s["pts"][-1]]
    base, sb = go(ends, None)
    obs = []
    for span, interp in ((ends, "4th"), (s["pts"], "4th"), (s["pts2"], "4th")):
        lg, so = go(span, interp)
        obs.append(dict(kind="same", s="0", x=lg[:4000], y=base[:4000]))
        obs.append(dict(kind="same", s="0", x=vec(so[-1]), y=vec(sb[-1])))
        obs.append(dict(kind="same", s="0", x=vec(so[0]), y=vec(sb[0])))
    one = [dict(c="1", m=0, e=[])]
    return dict(id=s["id"], sys=one, order=5, emb=4, emberr=False, eps=num(torch.finfo(dt).eps), tol="2000", t0="0", hmax="0", y0=["0"], obs=obs, note=f"steps {s['field']}")


def run(s): return same(s) if s["mode"] == "same" else observe(s)


def scenarios(chk, pid, n):
    rng = chk.rng
    systems = chk.scenarios("TreeScen.tla", "TreeScen.cfg")["sys"]
    out = []
    def scen(i, **kw):
        dtype = rng.choice(["float64", "float64", "float32"])
        full = rng.random() < .35
        sys = [dict(q) for q in systems[4 if full else rng.choice([1, 2, 3])]]
        for q in sys: q["c"] = frac(rng.choice([F(1), F(-1), F(1, 2), F(3, 4), F(-3, 2)]))
        perm = list(range(len(sys)))
        if rng.random() < .5: rng.shuffle(perm)
        shape = rng.choice([[], [1], [2], [3], [2, 2]])
        B = 1
        for k in shape: B *= k
        zero = rng.random() < .25
        y0 = [[frac(F(0) if zero else dyadic(rng, -2, 2, 8)) for _ in sys] for _ in range(B)]
        t0 = F(0) if zero and rng.random() < .5 else dyadic(rng, -2, 3, 8)
        h = [frac(rng.choice([F(1, 4), F(1, 2), F(1), F(3, 8), F(1, 8), F(1, 16)])) for _ in range(rng.choice([1, 1, 2, 4]))]
        d = dict(id=f"{kw['mode']}-{i}", sys=sys, perm=perm, shape=shape, y0=y0, t0=frac(t0), h=h, dtype=dtype, tdtype=rng.choice([dtype, "float64"]), withk1=rng.random() < .5, tol="2000",
                 byname=rng.random() < .5, interp=None, solver=rng.choice(sorted(NAMES)), rich=full, seed=rng.randrange(10 ** 6))
        d.update(kw)
        if d["interp"] is None and not NAMES[d["solver"]][1] and len(h) == 1 and d["mode"] == "solve": pass
        return d
    if pid == "C03":
        for i, name in enumerate(sorted(NAMES)):          # every name on the whole system, both modes
            for dtype in ("float64", "float32"):
                for mode in ("solve", "step"):
                    d = scen(f"{name}-{dtype}", mode=mode, solver=name, dtype=dtype, tdtype=dtype)
                    d["sys"] = [dict(q) for q in systems[4]]; d["perm"] = list(range(len(d["sys"]))); d["rich"] = True
                    d["y0"] = [[frac(dyadic(rng, -1, 1, 8)) for _ in d["sys"]] for _ in d["y0"]]
                    out.append(d)
        for i in range(n): out.append(scen(i, mode=rng.choice(["solve", "step"])))
    else:
        dop = ["dopri5", "DormandPrince45"]
        for i in range(n):
            k = i % 8
            ths = sorted({frac(F(rng.randint(1, 63), 64)) for _ in range(rng.randint(1, 5))}, key=F)
            if k < 4: out.append(scen(i, mode="dense", solver=rng.choice(dop), th=ths))
            elif k == 4: out.append(scen(i, mode="solve", solver=rng.choice(dop), interp="4th", byname=True))
            elif k == 5: out.append(scen(i, mode="quartic", solver="dopri5", th=["0", "1", "1/2", "1/4"] + ths, shape=[], tol="64"))
            else:
                t0 = rng.choice([0., -1.]); T = t0 + rng.choice([1., 2.])
                pts = lambda: [t0] + sorted({round(rng.uniform(t0, T), 4) for _ in range(rng.randint(1, 9))} - {t0, T}) + [T]
                out.append(dict(id=f"same-{i}", mode="same", field=rng.choice(["decay", "osc", "stiffish", "quad", "step", "vdp"]), pts=pts(), pts2=pts(), dtype=rng.choice(["float64", "float32"]),
                                atol=rng.choice([1e-3, 1e-5]), rtol=rng.choice([1e-3, 1e-5]), seed=rng.randrange(10 ** 6)))
    return out
