"""Driver of C22: the benchmark systems, evaluated directly and inside solves, before and after their parameters are drawn again."""
import vlib
from vlib import num, vec

NAMES = ["Lorenz", "VanDerPol", "ODEProblem2", "ODEProblem3", "ODEProblem4", "SineSystem", "LTISystem", "FourierSystem", "StiffFourierSystem", "CoupledFourierSystem", "MatMulSystem", "MatMulBoundedSystem"]
FORCED = ("FourierSystem", "StiffFourierSystem", "CoupledFourierSystem")


def run(s):
    import torch, torch.nn as nn
    import torchdyn.numerics.systems as Y
    from torchdyn.numerics import odeint
    from torch.distributions import Uniform
    name, d = s["name"], s["dim"]
    torch.manual_seed(s["seed"])
    dt = getattr(torch, s["dtype"])
    kw = {}
    if name == "VanDerPol" and s["alpha"] is not None: kw["alpha"] = s["alpha"]
    if name in FORCED and s["dists"]: kw = dict(A_dist=Uniform(*s["dists"][0]), phi_dist=Uniform(*s["dists"][1]), w_dist=Uniform(*s["dists"][2]))
    if name in FORCED or name in ("LTISystem", "MatMulSystem", "MatMulBoundedSystem"): kw["dim"] = d
    if name.startswith("MatMul"): kw["hdim"] = s["hdim"]
    m = getattr(Y, name)(**kw)
    ranges = s["dists"] or [(-10, 10), (-1, 1), (-20, 20)]
    ev, seen = [], [0]

    def state():
        "the current parameters"
        lin = lambda q: dict(w=[vec(v) for v in q.weight], b=vec(q.bias))
        p = dict(none=0)
        if name == "VanDerPol": p["alpha"] = num(float(m.alpha))
        if name in FORCED: p["banks"] = [[dict(a=vec(m.A[i, :, k]), phi=vec(m.phi[i, :, k]), w=vec(m.w[i, :, k])) for k in (0, 1)] for i in range(m.A.shape[0])]
        if name == "LTISystem": p["lin"] = lin(m.l)
        if name == "CoupledFourierSystem": p["lin"] = lin(m.mixing_l)
        if name.startswith("MatMul"):
            ls = [q for q in m.modules() if isinstance(q, nn.Linear)]
            p["layers"] = [lin(q) for q in ls]
            g = 1.
            for q in ls: g = g * (1 + q.weight.abs().sum(1).max().item()) + (q.bias.abs().max().item())
            p["tol"] = num(float(f"{20 * g:.6g}"))
        return p

    def shape(p): return [[len(b[k][z]) for b in p.get("banks", []) for k in (0, 1) for z in ("a", "phi", "w")], len(p.get("lin", {}).get("w", [])), [len(q["w"]) for q in p.get("layers", [])]]
    old = [None]

    def draw():
        p = state()
        fresh = old[0] is None or p != old[0]
        if old[0] is not None and fresh:
            for k in p.get("banks", [[]])[0] and ("a", "phi", "w") or ():
                fresh = fresh and p["banks"][0][0][k] != old[0]["banks"][0][0][k]
            for k in ("lin",):
                if k in p: fresh = fresh and p[k] != old[0][k]
        ev.append(dict(ev="draw", p=p, sameshape=old[0] is None or shape(p) == shape(old[0]), fresh=fresh,
                       ranges=dict(a=[num(float(v)) for v in ranges[0]], phi=[num(float(v)) for v in ranges[1]], w=[num(float(v)) for v in ranges[2]])))
        old[0] = p

    def record(t, x, y):
        seen[0] += 1
        many = t.dim() > 0
        rows = lambda z: [vec(v) for v in z.reshape(-1, z.shape[-1])]
        assert torch.is_tensor(y) and (name in FORCED or y.shape == x.shape), "shape of the answer"
        ev.append(dict(ev="call", ts=vec(t.reshape(-1)), many=many, x=rows(x), y=rows(y.detach()), count=int(getattr(m, "nfe", -1)), evals=seen[0]))

    def call(t, x):
        kept = (t.clone(), x.clone())
        y = m(t, x)
        assert torch.equal(t, kept[0]) and torch.equal(x, kept[1]), "an argument is modified"
        record(t, x, y)
        return y
    if dt == torch.float64: m = m.double()
    D = {"Lorenz": 3, "ODEProblem4": 3, "VanDerPol": 2}.get(name, d)
    draw()
    for step in s["plan"]:
        if step["do"] == "again":
            m.randomize_parameters()
            if dt == torch.float64: m = m.double()
            draw()
            continue
        x = (torch.randn(*step["shape"], D) * step["mag"]).to(dt)
        tdt = torch.float32 if name in FORCED else dt
        if step["do"] == "solve":
            n = len(ev)
            odeint(lambda t, x: call(t, x).to(x), x, torch.linspace(0, .5, 3, dtype=dt), solver=step["solver"])
            if len(ev) > n + 40: del ev[n + 40:]
        elif step["do"] == "many": call(torch.tensor(step["ts"], dtype=tdt), x[:1].expand(len(step["ts"]), D).clone() if step["rowwise"] else x)
        else: call(torch.tensor(step["ts"][0], dtype=tdt), x)
    # forcings are kept in single precision whatever the state
    eps = torch.finfo(torch.float32 if name in FORCED and name != "CoupledFourierSystem" else dt).eps
    return dict(id=s["id"], name=name, eps=num(max(eps, torch.finfo(torch.float32).eps) if name in FORCED else eps), ev=ev, note=f"{name} {kw} {s['dtype']}")


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        name = NAMES[i % len(NAMES)]
        forced = name in FORCED
        plan = []
        for _ in range(rng.choice([1, 2, 3])):
            do = rng.choice(["one", "one", "many" if forced else "one", "solve"])
            if do == "solve" and (forced and (name == "StiffFourierSystem" or name == "CoupledFourierSystem")): do = "many"
            shape = rng.choice([[], [1], [3], [2, 2]]) if do == "one" else [rng.choice([1, 2, 3])]
            if do == "solve" and forced: shape = [1]
            plan.append(dict(do=do, shape=shape, mag=rng.choice([.1, 1., 1., 5.]) if do != "solve" else .5, solver=rng.choice(["euler", "midpoint", "rk4"]), rowwise=rng.random() < .5,
                             ts=[rng.choice([0., round(rng.uniform(-3, 5), 3)]) for _ in range(rng.choice([1, 2, 4]) if name != "StiffFourierSystem" else rng.choice([1, 2]))]))
            if (forced or name == "LTISystem" or name.startswith("MatMul")) and rng.random() < .5: plan.append(dict(do="again"))
        dists = None
        if forced and rng.random() < .6:
            dists = [sorted(round(rng.uniform(-c, c), 2) for _ in "ab") for c in (20, 3, 9)]
            if any(a == b for a, b in dists): dists = None
        out.append(dict(id=f"sys-{i}", name=name, dim=rng.choice([1, 2, 2, 3, 4]), seed=rng.randrange(10 ** 6), dtype="float32" if name == "CoupledFourierSystem" else rng.choice(["float64", "float32"]), alpha=rng.choice([None, 10, 1, .5, 3.]),
                        dists=dists, hdim=rng.choice([4, 6]), plan=plan))
    return out
