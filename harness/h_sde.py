"""Driver of C17: SDE solves on scripted noise paths."""
import math, vlib, h_poly
from vlib import num, vec
from fractions import Fraction as F
NAMES = {"euler": "euler", "heun": "eulerHeun", "milito": "milstein_ito", "milstr": "milstein_stratonovich"}


def parts(s, dt):
    import torch
    from torchdyn.core.defunc import SDEFunc
    f0, g0 = h_poly.fmap(torch, s["f"]), h_poly.fmap(torch, s["g"])
    auton = not any(q["m"] for p in s["f"] + s["g"] for q in p)
    if auton and s["form"] % 2: f, g = (lambda x: f0(0., x)), (lambda x: g0(0., x))
    else: f, g = (lambda t, x: f0(t, x)), (lambda t, x: g0(t, x))
    ito = s["scheme"] in ("euler", "milito")
    typ = dict(noise_type=s["noise"], sde_type="ito" if ito else "stratonovich")
    if s["form"] < 2: return f, g, SDEFunc(f=f, g=g, **typ), typ
    class Mod(torch.nn.Module):
        def __init__(self, fn): super().__init__(); self.fn = fn
        def forward(self, t, x): return self.fn(t, x)
    class Mod1(torch.nn.Module):
        def __init__(self, fn): super().__init__(); self.fn = fn
        def forward(self, x): return self.fn(x)
    W = Mod1 if auton and s["form"] % 2 else Mod
    return W(f), W(g), SDEFunc(f=W(f), g=W(g), **typ), typ


def run(s):
    import torch
    from torchdyn.numerics.sdeint import sdeint
    from torchdyn.numerics.solvers import sde as S
    from torchdyn.core.neuralde import NeuralSDE
    if s["kind"] == "types":
        combos = []
        for key, name in NAMES.items():
            for ty in ("ito", "stratonovich", "other", None):
                for noise in ("general", "diagonal", "scalar", "additive", "other", None):
                    for by in ("str", "cls"):
                        class D: sde_type, noise_type = ty, noise; f = staticmethod(lambda t, x: x); g = staticmethod(lambda t, x: x)
                        bm = lambda a, b: torch.zeros(1)
                        try:
                            if by == "str": sdeint(D(), torch.zeros(1, 1), torch.linspace(0, 1, 3), name, bm)
                            else: S.SDE_SOLVER_DICT[name](D(), bm)
                            ref = False
                        except ValueError: ref = True
                        combos.append(dict(scheme=key, sde=str(ty), noise=str(noise), refused=ref))
        return dict(id=s["id"], kind="types", combos=combos)
    dt = getattr(torch, s["dtype"])
    n, B = len(s["f"]), s["batch"]
    fm, gm, sde, typ = parts(s, dt)
    # an additive path on dyadic values, one component per entry of the state (or one for all of them)
    coef = [[s["seed"] * .37 + 1.1 * b + .7 * i for i in range(n)] for b in range(B)]
    unit = 2. ** round(math.log2(s["ts"]) / 2)
    def W(t):
        t = float(t) / s["ts"]  # on the time scale of the grid
        v = [[unit * round((math.sin(3 * t + c) + .5 * math.sin(17 * t + 2 * c)) * 2 ** 16) / 2 ** 16 for c in row] for row in coef]
        w = torch.tensor(v, dtype=dt)
        return w[:, :1] if s["scalar"] else w
    logs = []
    def path():
        log = []; logs.append(log)
        def bm(a, b):
            w = W(b) - W(a)
            log.append((num(a), num(b), w.expand(B, n)))
            return w
        return bm
    grid = torch.tensor(s["grid"], dtype=dt)
    x = torch.tensor([[float(F(v)) for v in row] for row in s["x0"]], dtype=dt)
    idx = s["save"] or list(range(1, len(grid) + 1))
    want = grid[[i - 1 for i in idx]].clone()
    if s["off"]: want[s["off"] % len(idx)] += .4 * s["mingap"]; idx = []
    sv = want if s["savekind"] else want.tolist()
    def solve(bm, **kw):
        if s["api"] == "str": return sdeint(sde, x, vlib.pieces(grid, s["id"]), NAMES[s["scheme"]], bm, **kw)
        if s["api"] == "obj": return sdeint(sde, x, grid, S.SDE_SOLVER_DICT[NAMES[s["scheme"]]](sde, bm, dt), bm, **kw)
        if s["api"] == "plain":
            class P: f = staticmethod(fm) if not isinstance(fm, torch.nn.Module) else fm; g = staticmethod(gm) if not isinstance(gm, torch.nn.Module) else gm; noise_type, sde_type = typ["noise_type"], typ["sde_type"]
            return sdeint(P(), x, grid, NAMES[s["scheme"]], bm, **kw)
        m = NeuralSDE(fm, gm, solver=NAMES[s["scheme"]], t_span=grid, bm=bm, return_t_eval=True, **typ)
        if s["api"] == "span": return m(x, grid, **kw)
        if s["api"] == "traj" and not kw: return grid, m.trajectory(x, grid)
        return m(x, **kw)
    x_, g_ = x.clone(), grid.clone()
    te, sol = solve(path())
    refused, te2, sol2 = False, [], None
    try: te2, sol2 = solve(path(), save_at=sv)
    except Exception:
        if idx: raise
        refused = True
    kept = torch.equal(x, x_) and torch.equal(grid, g_)
    out = []
    for b in range(B):
        q = [[dict(a=a, b=c, w=vec(w[b])) for a, c, w in log] for log in logs]
        out.append(dict(id=f"{s['id']}.{b}", kind="solve", scheme=s["scheme"], f=s["f"], g=s["g"], grid=vec(grid), allt=vec(te), save=idx, want=vec(want), x0=vec(x_[b]), eps=num(torch.finfo(dt).eps), q=q[0], q2=q[1] if not refused else q[0],
                        all=[vec(v[b]) for v in sol], res=[] if refused else [dict(t=num(t), x=vec(v[b])) for t, v in zip(te2, sol2)], refused=refused, kept=kept, note=f"{s['scheme']} {s['api']} {s['dtype']}"))
        if not refused and len(te2) != len(sol2): out[-1]["crash"] = "times and states differ in number"
    return out


def scenarios(chk, n):
    rng, out = chk.rng, [dict(id="types", kind="types")]
    comp = chk.scenarios("GridScen.tla", "GridScen.cfg")
    gaps, saves = sorted(comp["gaps"]), [sorted(q) for q in comp["saves"]]
    for i in range(n):
        d = rng.randint(1, 3); B = rng.randint(1, 2)
        gp = rng.choice(gaps); m = len(gp) + 1
        t0, sc = (rng.choice([0., .1, -1.5, 2.3]), rng.choice([1 / 16, .013, .1])) if rng.random() < .85 else (0., rng.choice([1e-9, 1e-6, 1e-4]))
        ts = 1. if sc >= .01 else sc * 16
        grid = [t0]
        for q in gp: grid.append(grid[-1] + q * sc)
        auton = rng.random() < .4
        scheme = ["euler", "heun", "milito", "milstr"][i % 4]
        add = rng.random() < .1
        g = h_poly.vfield(rng, d, terms=2, deg=0 if add else 2, tdeg=0 if auton else 1)
        out.append(dict(id=f"{scheme}-{i}", kind="solve", scheme=scheme, ts=ts, f=h_poly.vfield(rng, d, terms=2, deg=2, tdeg=0 if auton else 2), g=g, grid=grid, mingap=min(gp) * sc, batch=B,
                        x0=[[str(h_poly.dy(rng, -1, 1)) for _ in range(d)] for _ in range(B)], dtype=rng.choice(["float64", "float64", "float32"]), scalar=rng.random() < .15,
                        noise="additive" if add else rng.choice(["diagonal", "diagonal", "general", "scalar"]), form=rng.randrange(4), api=rng.choice(["str", "str", "obj", "plain", "span", "self", "traj"]),
                        save=rng.choice([None] + [rng.choice(saves[m - 2])] * 3), off=rng.randint(1, 5) if rng.random() < .1 else 0, savekind=rng.random() < .7, seed=rng.randrange(1000)))
    return out
