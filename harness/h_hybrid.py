"""Driver of C07: hybrid solves of exactly solvable systems, conditions that are intersections of half spaces."""
import vlib, h_rk
from vlib import num, vec, frac
from fractions import Fraction as F
RATIOS = [0., .5, 3., 50.]


def run(s):
    import torch
    from torchdyn.numerics import odeint_hybrid
    from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
    from torchdyn.numerics.utils import EventCallback
    dt = torch.float64
    f0 = h_rk.field(torch, s["sys"])
    x0 = torch.tensor([float(F(v)) for v in s["x0"]], dtype=dt)
    B = s["batch"]
    jumps = []
    shape = (lambda x: x[None]) if B else (lambda x: x)
    flat = lambda x: x.reshape(-1)

    class CB(EventCallback):
        def __init__(self, i):
            super().__init__()
            self.i = i
            self.w = [(torch.tensor([float(F(v)) for v in h["w"]], dtype=dt), float(F(h["wt"])), float(F(h["c"]))) for h in s["cond"][i]]
            self.a = torch.tensor([float(F(v)) for v in s["maps"][i]["a"]], dtype=dt); self.d = torch.tensor([float(F(v)) for v in s["maps"][i]["d"]], dtype=dt)
        def check_event(self, t, x):
            return all(bool((flat(x) * w).sum() + wt * float(t) - c > 0) for w, wt, c in self.w)
        def jump_map(self, t, x):
            y = x * self.a + self.d
            jumps.append(dict(i=self.i + 1, t=num(t), x=vec(x), y=vec(y)))
            return y

    base = {"dopri5": DormandPrince45, "tsit5": Tsitouras45}[s["solver"]]
    calls = [0]
    class Scripted(base):
        "the method itself (exact on these systems) with scripted error estimates"
        def step(self, f, x, t, d, k1=None, args=None):
            calls[0] += 1
            if calls[0] > 3000: raise vlib.Hang()
            out = super().step(f, x, t, d, k1=k1, args=args)
            n = calls[0] - 1
            if s["radius"] is not None:      # exact up to a length, wrong (and saying so) beyond it
                far = float(d) > s["radius"]
                x1 = x + 7 * (out[1] - x) if far else out[1]
                return out[0] + 1 if far else out[0], x1, torch.full_like(out[2], (4. if far else s["tail"]) * s["atol"]), out[3]
            ratio = RATIOS[s["script"][n]] if n < len(s["script"]) else s["tail"]
            err = torch.full_like(out[2], ratio * s["atol"])
            if semi: err[semi:] = 50 * s["atol"]
            return out[0], out[1], err, out[3]
    # only the leading entries are error-controlled: the others claim a large error all the time
    semi = 1 if s["script"] is not None and s["radius"] is None and not B and len(x0) > 1 and sum(map(ord, s["id"])) % 3 == 0 else 0
    kw = dict(seminorm=(True, semi)) if semi else {}
    solver = Scripted(dt) if s["script"] is not None else s["solver"]
    span = torch.tensor([float(F(v)) for v in s["span"]], dtype=dt)
    cbs = [CB(i) for i in range(len(s["cond"]))]
    te, sol = odeint_hybrid(f0, shape(x0), span, s["jspan"], solver, cbs, atol=s["atol"], rtol=0. if s["script"] is not None else s["atol"], event_tol=float(F(s["etol"])), priority=s["prio"], **kw)
    assert len(te) == len(sol), "times and states differ in number"
    return dict(id=s["id"], sys=s["sys"], cond=s["cond"], maps=s["maps"], etol=s["etol"], jspan=s["jspan"], prio=s["prio"], span=vec(span), eps=num(torch.finfo(dt).eps), tol="4000", x0=vec(x0),
                res=[dict(t=num(t), x=vec(x)) for t, x in zip(te, sol)], jumps=jumps, note=f"{s['fam']} jspan {s['jspan']} {s['prio']} {s['solver']}")


def one(c, m=0, e=()): return dict(c=frac(c), m=m, e=list(e))


def scenarios(chk, n):
    rng, out = chk.rng, []
    q = lambda lo, hi, d=8: F(rng.randint(int(lo * d), int(hi * d)), d)
    for i in range(n):
        fam = ["ball", "drift", "window", "two", "nonlinear", "same"][i % 6]
        T = rng.choice([F(1), F(2), F(3)]); t0 = rng.choice([F(0), F(0), F(-1), F(1, 2)])
        if fam == "ball":        # (v, h): floor, sometimes also a ceiling
            sys = [one(-rng.choice([F(2), F(8), F(10)])), one(1, 0, [1])]
            x0 = [q(-2, 4), q(0, 2) + F(1, 8)]
            floor = [dict(w=["0", "-1"], wt="0", c="0")] + ([dict(w=["-1", "0"], wt="0", c="0")] if rng.random() < .6 else [])
            cond = [floor]; maps = [dict(a=[frac(-rng.choice([F(1), F(1, 2), F(3, 4)])), rng.choice(["1", "1", "0", "-1"])], d=["0", "0"])]
            if rng.random() < .4: cond.append([dict(w=["0", "1"], wt="0", c=frac(x0[1] + q(0, 1)))]); maps.append(dict(a=["-1", "1"], d=["0", "0"]))
        elif fam == "drift":     # thresholds that reset or shift
            sys = [one(rng.choice([F(1), F(2), F(1, 2)])), one(1, 1)]
            x0 = [q(-1, 1), q(-1, 1)]
            cond, maps = [], []
            for _ in range(rng.randint(1, 3)):
                cond.append([dict(w=["1", rng.choice(["0", "0", "1"])], wt="0", c=frac(q(-1, 2)))])
                maps.append(dict(a=[rng.choice(["1", "0"]), "1"], d=[frac(q(-2, 1)), frac(q(-1, 1))]))
        elif fam == "window":    # conditions on time alone, persisting ones included
            sys = [one(rng.choice([F(1), F(-1)])), one(1, 0, [1])]
            x0 = [q(-1, 1), q(-1, 1)]
            cond, maps = [], []
            for _ in range(rng.randint(1, 3)):
                a = t0 + q(0, float(T)); c = [dict(w=["0", "0"], wt="1", c=frac(a + F(1, 1000)))]
                if rng.random() < .4: c.append(dict(w=["0", "0"], wt="-1", c=frac(-(a + rng.choice([F(1, 2), F(1)])))))
                cond.append(c); maps.append(dict(a=[rng.choice(["1", "-1", "1/2"]), "1"], d=[frac(q(-1, 1)), "0"]))
        elif fam == "two":       # a clock that triggers and a state threshold reached through the jump of the other
            sys = [one(1), one(rng.choice([F(1, 2), F(-1, 2)]))]
            x0 = [F(0), q(-1, 1)]
            thr = q(0, 2)
            cond = [[dict(w=["0", "1"], wt="0", c=frac(thr))], [dict(w=["1", "0"], wt="0", c=frac(q(0, float(T)) / 2))]]
            maps = [dict(a=["1", rng.choice(["0", "-1", "1"])], d=["0", frac(q(-1, 0))]), dict(a=[rng.choice(["0", "1"]), "1"], d=[rng.choice(["0", "-1"]), frac(q(0, 3))])]
            if rng.random() < .5: cond.reverse(); maps.reverse()
        elif fam == "nonlinear":
            sys = [one(1), one(rng.choice([F(1), F(-1)]), 0, [1]), one(rng.choice([F(2), F(-1)]), 1, [1, 1]), one(1, 0, [0, 2])][:rng.randint(2, 4)]
            x0 = [q(-1, 1) for _ in sys]
            cond, maps = [], []
            for _ in range(rng.randint(1, 2)):
                j = rng.randrange(len(sys)); w = ["0"] * len(sys); w[j] = rng.choice(["1", "-1"])
                cond.append([dict(w=w, wt="0", c=frac(q(-1, 2)))]); d = ["0"] * len(sys); d[j] = frac(-q(0, 2) if w[j] == "1" else q(0, 2)); maps.append(dict(a=["1"] * len(sys), d=d))
        else:                    # simultaneous conditions
            sys = [one(1), one(1, 0, [1])]
            x0 = [q(-1, 0), q(-1, 1)]
            h = [dict(w=["1", "0"], wt="0", c=frac(q(0, 1)))]
            cond = [h] * rng.randint(2, 3); maps = [dict(a=[rng.choice(["1", "0"]), "1"], d=[rng.choice(["0", "-1", "-1/2"]), frac(q(-1, 1))]) for _ in cond]
        for mp in maps:          # no identity: a step's end and an event right there are told apart by the jump
            if set(mp["a"]) == {"1"} and set(mp["d"]) == {"0"}: mp["d"][0] = "-1/4"
        m = rng.randint(0, 5)
        pts = sorted({t0 + q(0, float(T), 16) for _ in range(m)} | {t0, t0 + T})
        if rng.random() < .3:    # a requested time exactly where something happens
            for c in cond:
                if c[0]["wt"] == "1" and t0 < F(c[0]["c"]) < t0 + T: pts = sorted(set(pts) | {F(c[0]["c"])})
        script = None if rng.random() < .3 else [rng.choice([0, 1, 1, 2, 3]) for _ in range(rng.randint(0, 25))]
        out.append(dict(id=f"{fam}-{i}", fam=fam, sys=sys, x0=[frac(v) for v in x0], cond=cond, maps=maps, span=[frac(p) for p in pts], jspan=rng.choice([1, 2, 3, 6, 20]), prio=rng.choice(["jump", "jump", "flow"]),
                        etol=rng.choice(["1/10000", "1/1000000", "1/100"]), atol=rng.choice([1e-3, 1e-5]), script=script, radius=rng.choice([.05, .2, .6]) if script is not None and rng.random() < .5 else None, tail=rng.choice([0., .5]), batch=rng.random() < .3, solver=rng.choice(["dopri5", "tsit5"])))
    return out
