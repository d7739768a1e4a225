"""Random polynomial maps, as torch callables and as specification data (see spec/Poly.tla)."""
from vlib import frac
from fractions import Fraction as F


def dy(rng, lo, hi, den=8): return F(rng.randint(int(lo * den), int(hi * den)), den)


def nz(rng, lo, hi, den=8):
    while True:
        v = dy(rng, lo, hi, den)
        if v: return v


def mono(c, m=0, e=()): return dict(c=frac(c), m=m, e=list(e))


def poly(rng, n, terms=2, deg=2, tdeg=1, cmax=1):
    p = []
    for _ in range(rng.randint(1, terms)):
        e = [0] * n
        for _ in range(rng.randint(0, deg)): e[rng.randrange(n)] += 1
        p.append(mono(nz(rng, -cmax, cmax), rng.randint(0, tdeg), e))
    return p


def vfield(rng, n, **kw): return [poly(rng, n, **kw) for _ in range(n)]


def value(torch, p, t, x):
    "polynomial p at t and x (coordinates along the last axis)"
    s = torch.zeros_like(x[..., 0])
    for q in p:
        v = torch.full_like(x[..., 0], float(F(q["c"])))
        if q["m"]: v = v * (t.reshape(()) if torch.is_tensor(t) and t.numel() == 1 else t) ** q["m"]
        for j, k in enumerate(q["e"]):
            for _ in range(k): v = v * x[..., j]
        s = s + v
    return s


def fmap(torch, f): return lambda t, x: torch.stack([value(torch, p, t, x) for p in f], -1)
