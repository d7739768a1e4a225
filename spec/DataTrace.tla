------------------------------ MODULE DataTrace ------------------------------
(* Judges recorded datasets and augmentations (C19).  Dataset runs: kind, n, dim, noise, opt (options), X, y and by (rows and labels by name, from the
   same random state).  Augmentation runs: kind "augment", sz, a, first, x, new, out, shape (of the output around the dimension). *)
EXTENDS Data, FiniteSets, Json, IOUtils, TLC
Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES r, verdict
vars == <<r, verdict>>
R == Runs[r]
NR == Len(R.X)
Class(c) == {i \in 1..NR : R.y[i] = c}
Labels == {R.y[i] : i \in 1..NR}
Tiny == "1/100000"
Root(n) == RSqrt(n, 40)
SetSum(f, S) == VSum([k \in 1..Len(f) |-> IF k \in S THEN f[k] ELSE "0"])
Mean(f, S) == RDiv(SetSum(f, S), Cardinality(S))
\* ---- spheres: labels and radii in some correspondence
Nu == RAdd(RMul(RMul(7, Root(R.dim)), R.noise), Tiny)
Enough(S) == Cardinality(S) >= 60
RadDev(S, rad) == Mean([k \in 1..NR |-> IF k \in S THEN RPow(RSub(Len2(R.X[k]), rad), 2) ELSE "0"], S)
Noisy(S, rad) == ~Enough(S) \/ REq(R.noise, 0) \/ R.dim < 2 \/ RLt(rad, RMul(5, R.noise)) \/ RLe(RMul(RMul(R.noise, R.noise), "1/9"), RadDev(S, rad))
\* moments of the uniform distribution on the sphere, within seven standard deviations
Uniform(S, rad) == Enough(S) /\ RLe(RMul(20, R.noise), rad) => \A d \in 1..R.dim :
   LET m == Mean([k \in 1..NR |-> RDiv(R.X[k][d], rad)], S) q == Mean([k \in 1..NR |-> RPow(RDiv(R.X[k][d], rad), 2)], S) n == Cardinality(S) IN
   /\ RLe(RAbs(m), RAdd(RDiv(7, Root(R.dim * n)), RDiv(R.noise, rad)))
   /\ R.dim = 1 \/ RLe(RAbs(RSub(q, RDiv(1, R.dim))), RAdd(RDiv(RMul(7, Root(3)), Root(R.dim * (R.dim + 2) * n)), RDiv(R.noise, rad)))
Sphere(c, rad) == LET S == Class(c) IN /\ \A k \in S : OnSphere(R.X[k], rad, Nu)
                                       /\ Noisy(S, rad) /\ Uniform(S, rad)
SpheresClause ==
  LET n2 == R.n \div 2 IN
  CASE ~(NR = R.n /\ Len(R.y) = R.n) -> "the number of points or labels"
    [] Cardinality(Labels) # 2 -> "the labels"
    [] OTHER -> 
       IF \E i, o \in Labels : i # o /\ Cardinality(Class(i)) \in {n2, R.n - n2} /\ Sphere(i, R.opt.inner) /\ Sphere(o, R.opt.outer) THEN "" ELSE "the spheres"
RandSphereClause == IF NR = R.n /\ \A k \in 1..NR : Len(R.X[k]) = R.dim /\ OnSphere(R.X[k], R.opt.outer, RMul(Tiny, RAdd(1, R.opt.outer))) /\ Uniform(1..NR, R.opt.outer) THEN "" ELSE "the sphere"
\* ---- moons: noise is uniform up to its magnitude in each coordinate
MoonNu == RAdd(RMul("3/2", R.noise), Tiny)
MoonDev == Mean([k \in 1..NR |-> LET q == IF R.y[k] = 0 THEN R.X[k] ELSE VSub(R.X[k], <<"1", "1/2">>) IN RPow(RSub(Len2(q), 1), 2)], 1..NR)
Reach(c) == LET S == Class(c) q(k) == IF c = 0 THEN R.X[k] ELSE VSub(<<"1", "1/2">>, R.X[k]) lim == RSub("9/10", R.noise) IN
            Cardinality(S) < 12 \/ /\ \E k \in S : RLe(lim, q(k)[1])
                                   /\ \E k \in S : RLe(q(k)[1], RNeg(lim))
                                   /\ \E k \in S : RLe(lim, q(k)[2])
MoonsClause ==
  LET n2 == R.n \div 2 IN
  CASE ~(NR = R.n /\ Len(R.y) = R.n) -> "the number of points or labels"
    [] ~(Labels \subseteq {0, 1} /\ Cardinality(Class(0)) \in {n2, R.n - n2}) -> "the labels"
    [] ~\A k \in 1..NR : OnMoon(R.y[k], R.X[k], MoonNu) -> "the half circles"
    [] ~(Reach(0) /\ Reach(1)) -> "the extent of the half circles"
    [] ~(NR < 60 \/ REq(R.noise, 0) \/ RLe(RMul("1/25", RMul(R.noise, R.noise)), MoonDev)) -> "the noise"
    [] OTHER -> ""
\* ---- spirals
SpiralTol(p) == RAdd(RMul(RMul("3/2", R.noise), RAdd(2, Len2(p))), RMul(Tiny, RMul(10, RAdd(1, Len2(p)))))
SpiralsClause ==
  CASE ~(NR = 2 * R.n /\ Len(R.y) = NR) -> "the number of points or labels"
    [] ~(Labels = {0, 1} /\ Cardinality(Class(0)) = R.n) -> "the labels"
    [] ~(\/ \A k \in 1..NR : RLe(SpiralGap(R.y[k], R.X[k]), SpiralTol(R.X[k]))) -> "the spirals"
    [] ~(\A k \in 1..NR : LET g == RSub(Len2(R.X[k]), 0) IN RLe(g, RAdd(RMul(2, R.noise), "69/5"))) -> "the extent of the spirals"
    [] ~(NR < 60 \/ REq(R.noise, 0) \/ RLe(RMul("1/100", RMul(R.noise, R.noise)), Mean([k \in 1..NR |-> RPow(SpiralGap(R.y[k], R.X[k]), 2)], 1..NR))) -> "the noise"
    [] OTHER -> ""
\* ---- Gaussians: the noise moves a whole cluster
K == R.opt.k
Rows(c) == {i \in 1..NR : R.y[i] = c}
Centre(c) == LET S == Rows(c) IN [d \in 1..R.dim |-> Mean([k \in 1..NR |-> R.X[k][d]], S)]
StdOf(c) == IF R.kind = "gaussians" THEN R.opt.std0 ELSE Lin(R.opt.std0, R.opt.std1, c, K)
RadOf(c) == IF R.kind = "gaussians" THEN R.opt.r0 ELSE Lin(R.opt.r0, R.opt.r1, c, K)
Off(c) == RAdd(RAdd(RDiv(RMul(7, StdOf(c)), Root(R.n)), RMul(7, R.noise)), Tiny)
Flat(c) == [d \in 1..2 |-> Centre(c)[d]]
Dist(c, e) == Len2(VSub(Flat(c), Flat(e)))
Planar(c) == \A d \in 3..R.dim : RLe(RAbs(Centre(c)[d]), Off(c))
OnRing(c) == RLe(RAbs(RSub(Len2(Flat(c)), RAbs(RadOf(c)))), RMul(2, Off(c)))
Cs == 0..(K - 1)
Neighbours(c) == K = 1 \/ LET m == VMaxAbs(<<Chord(R.opt.r0, K)>>) t == RMul(4, Off(c)) IN
   /\ \A e \in Cs \ {c} : RLe(RSub(m, t), Dist(c, e))
   /\ \E e \in Cs \ {c} : RLe(RAbs(RSub(Dist(c, e), m)), t)
Arc(c) == \A j \in 1..2 : c + j <= K - 1 => RLe(RAbs(RSub(Dist(c, c + j), ArcGap(RadOf(c), RadOf(c + j), j, R.opt.loop))), RMul(2, RAdd(Off(c), Off(c + j))))
Var(c, d) == LET m == Centre(c)[d] IN Mean([k \in 1..NR |-> RPow(RSub(R.X[k][d], m), 2)], Rows(c))
Within(v, s, lo, hi) == RLe(RMul(lo, RMul(s, s)), v) /\ RLe(v, RMul(hi, RMul(s, s)))
Spread == /\ R.n * R.dim < 150 \/ \A c \in Cs : Within(RDiv(VSum([d \in 1..R.dim |-> Var(c, d)]), R.dim), StdOf(c), "3/10", "2")
          /\ R.n * K < 150 \/ \A d \in 1..R.dim : LET q == RDiv(VSum([c \in 1..K |-> RDiv(Var(c - 1, d), RMul(StdOf(c - 1), StdOf(c - 1)))]), K) IN RLe("3/10", q) /\ RLe(q, 2)
GaussClause ==
  CASE ~(NR = R.n * K /\ Len(R.y) = NR) -> "the number of points or labels"
    [] ~(Labels = Cs /\ \A c \in Cs : Cardinality(Rows(c)) = R.n) -> "the labels"
    [] ~\A c \in Cs : Planar(c) -> "the plane of the centres"
    [] ~\A c \in Cs : OnRing(c) -> "the radius of the centres"
    [] ~\A c \in Cs : (IF R.kind = "gaussians" THEN Neighbours(c) ELSE Arc(c)) -> "the angles of the centres"
    [] ~Spread -> "the standard deviation"
    [] OTHER -> ""
LogoClause ==
  LET t == RMul(8, RAdd("1/100", R.noise)) IN
  CASE NR # R.n \/ R.y # <<>> -> "the number of points"
    [] ~\A k \in 1..NR : Len(R.X[k]) = 2 /\ RLe(Len2(R.X[k]), RAdd("401/200", t)) /\ RLe(RSub("199/200", t), Len2(R.X[k])) -> "the logo"
    [] OTHER -> ""
AugClause ==
  CASE R.shape # <<R.sz[1], R.sz[2] + R.a, R.sz[3]>> \/ ~R.other -> "the shape of the augmented data"
    [] Len(R.out) # AugLen(R.sz, R.a) -> "the number of entries"
    [] \E i \in 1..Len(R.out) : LET e == AugAt(R.sz, R.a, R.first, i - 1) IN e[1] = "data" /\ R.out[i] # R.x[e[2] + 1] -> "the data are changed"
    [] \E i \in 1..Len(R.out) : LET e == AugAt(R.sz, R.a, R.first, i - 1) IN e[1] = "new" /\ R.out[i] # (IF R.new = <<>> THEN "0" ELSE R.new[e[2] + 1]) -> "the added coordinates"
    [] OTHER -> ""
Clause ==
  IF R.kind = "augment" THEN AugClause
  ELSE IF \E k \in 1..NR : Len(R.X[k]) # R.dim THEN "the dimension of the points"
  ELSE IF R.by # <<>> /\ R.by # <<R.X, R.y>> THEN "generating by name gives something else"
  ELSE CASE R.kind = "spheres" -> SpheresClause [] R.kind = "randnsphere" -> RandSphereClause [] R.kind = "moons" -> MoonsClause [] R.kind = "spirals" -> SpiralsClause
         [] R.kind \in {"gaussians", "gaussians_spiral"} -> GaussClause [] R.kind = "diffeqml" -> LogoClause
Init == r \in 1..Len(Runs) /\ verdict = ""
Judge == verdict = "" /\ (LET c == Clause IN verdict' = IF c = "" THEN "ok" ELSE c) /\ UNCHANGED r
Report == verdict \notin {"", "reported"} /\ PrintT(<<"VERDICT", R.id, verdict, 0>>) /\ verdict' = "reported" /\ UNCHANGED r
Next == Judge \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
