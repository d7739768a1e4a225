"""Driver of C15: Galerkin layers with arbitrary coefficients, called at several depths, and the basis modules themselves."""
import vlib
from vlib import num, vec

NAMES = ["Fourier", "Polynomial", "Chebychev", "GaussianRBF", "VanillaRBF", "MultiquadRBF"]


def run(s):
    import torch, torchdyn.nn as N
    g = torch.Generator().manual_seed(s["seed"])
    rnd = lambda *sh: torch.randn(*sh, generator=g)
    kw = {}
    radial = s["name"].endswith("RBF")
    if radial and s["rbf"]: kw = dict(centers=s["rbf"][0], eps_scales=s["rbf"][1])
    if s["adaptive"]: kw["adaptive"] = True
    b = getattr(N, s["name"])(s["deg"], **kw)
    if radial and s["adaptive"] and s["train"]:
        with torch.no_grad(): b.centers.add_(rnd(s["deg"]) * .3); b.eps_scales.add_(torch.rand(s["deg"], generator=g))
    if radial:
        per = lambda v: vec(v) if torch.is_tensor(v) else [num(float(v))] * s["deg"]
        bb = dict(name=s["name"], centers=per(b.centers), scales=per(b.eps_scales))
    else: bb = dict(name=s["name"], centers=[], scales=[])
    base = dict(id=s["id"], b=bb, adaptive=s["adaptive"], eps=num(torch.finfo(torch.float32).eps), note=f"{s['kind']} {s['name']} deg {s['deg']} {kw}")
    ts = s["ts"]
    if s["kind"] == "basis":
        n = torch.linspace(0, s["deg"], s["deg"]) if s["name"] == "Chebychev" else torch.tensor(s["ns"], dtype=torch.float32)
        calls = []
        for t in ts:
            y = b(n, torch.tensor([t]))
            calls.append(dict(t=num(t), y=[vec(v) for v in y], x=[]))
        return dict(base, kind="basis", ns=vec(n) if s["name"] != "Chebychev" else ["0"] * s["deg"], den=2, dil="1", shift="0", calls=calls)
    kw = dict(bias=s["bias"], expfunc=b, dilation=s["dil"] is not None, shift=s["shift"] is not None)
    lin = s["kind"] == "linear"
    L = N.GalLinear(s["ni"], s["no"], **kw) if lin else N.GalConv2d(s["ni"], s["no"], s["ks"], s["stride"], s["pad"], **kw)
    with torch.no_grad():
        L.coeffs.copy_(rnd(*L.coeffs.shape))
        if s["dil"] is not None: L.dilation.fill_(s["dil"])
        if s["shift"] is not None: L.shift.fill_(s["shift"])
    dc = N.DepthCat(1)
    calls = []
    for t, bs in zip(ts, s["bs"]):
        x = rnd(bs, s["ni"]) if lin else rnd(bs, s["ni"], s["hw"][0], s["hw"][1])
        if s["cat"]: dc.t = torch.tensor(t); xin = dc(x)
        else: xin = torch.cat([x, torch.full([bs, 1] + list(x.shape[2:]), t)], 1)
        kept = xin.clone()
        y = L(xin).detach()
        assert torch.equal(xin, kept), "the input is modified"
        cv = (lambda z: [vec(v) for v in z]) if lin else (lambda z: [[[vec(row) for row in ch] for ch in v] for v in z])
        calls.append(dict(t=num(float(torch.tensor(t))), x=cv(x), y=cv(y)))
    co = L.coeffs.detach()
    return dict(base, kind=s["kind"], deg=s["deg"], coeffs=[[vec(co[i, d]) for d in range(co.shape[1])] for i in range(co.shape[0])], hasbias=s["bias"],
                dil=num(float(torch.tensor(s["dil"]))) if s["dil"] is not None else "1", shift=num(float(torch.tensor(s["shift"]))) if s["shift"] is not None else "0",
                calls=calls, ni=s["ni"], no=s["no"], g=dict(none=0) if lin else dict(ks=s["ks"], pad=s["pad"], stride=s["stride"]))


def scenarios(chk, n):
    rng, out = chk.rng, []
    for i in range(n):
        name = NAMES[i % 6]
        kind = ["linear", "linear", "conv", "basis"][i // 6 % 4]
        deg = rng.choice([1, 2, 3, 4, 5, 7])
        s = dict(id=f"{kind}-{i}", kind=kind, name=name, deg=deg, seed=rng.randrange(10 ** 6), adaptive=name.endswith("RBF") and rng.random() < .3, train=rng.random() < .6,
                 rbf=rng.choice([None, (0, 2), (.5, 2.), (-1., .5), (1, 3.), (.25, 1)]), bias=rng.random() < .65, dil=rng.choice([None, 1., .5, 2., 1.3]), shift=rng.choice([None, 0., .25, 1.]),
                 ni=rng.randint(1, 4), no=rng.randint(1, 4), cat=rng.random() < .5)
        calls = rng.choice([1, 2, 3])
        hi = 1.5 if name == "Chebychev" or (name == "Polynomial" and deg > 4) else 3.
        ts = [round(rng.uniform(0, hi), 3) if rng.random() < .8 else rng.choice([0., 1.]) for _ in range(calls)]
        if name != "Polynomial" and rng.random() < .4:
            ts = [-t for t in ts]
            if s["shift"]: s["shift"] = -s["shift"]
        if name == "GaussianRBF": ts = [t / 4 for t in ts]
        s["ts"] = [float(t) for t in ts]; s["bs"] = [rng.randint(1, 4) for _ in ts]
        s["ns"] = [rng.randint(0, 8) / 2 for _ in range(deg)]
        if kind == "conv": s.update(ni=rng.randint(1, 2), no=rng.randint(1, 2), ks=rng.choice([1, 2, 3, 3]), stride=rng.choice([1, 1, 2]), pad=rng.choice([0, 1, 1]), hw=[rng.randint(3, 4), rng.randint(3, 5)], bs=[rng.randint(1, 2) for _ in ts])
        out.append(s)
    return out
