----------------------------- MODULE GalerkinMC -----------------------------
(* A layer asked at a sequence of depths: its map depends on the depth alone; coefficients at frequency zero make it constant; the rows of all small
   layers are met once each; a convolution with a one-point kernel is the linear layer at every pixel; identities of the bases. *)
EXTENDS Galerkin, FiniteSets, TLC
CONSTANTS Depth, Bases
VARIABLES b, deg, hist
vars == <<b, deg, hist>>
Bs(n) == [name |-> n, centers |-> <<"0", "0", "0">>, scales |-> <<"2", "2", "2">>]
S == {"0", "1/2", "1", "3/2"}
Coef(row, d, e) == ToString(((row * 7 + d * 3 + e * 5) % 11) - 5)
Ne(n) == IF n = "Fourier" THEN 2 ELSE 1
Rows(s) == LET bs == Basis(Bs(b), Grid(deg), IF deg = 1 THEN 1 ELSE deg - 1, s, FALSE) IN
           [row \in 1..6 |-> Entry([d \in 1..deg |-> [e \in 1..Ne(b) |-> Coef(row, d, e)]], bs)]
X == <<"1", "-2">>
Call(s) == LET w == Rows(s) IN Linear(w, <<w[5], w[6]>>, X, 2)
Init == b \in Bases /\ deg \in 1..3 /\ hist = <<>>
Ask == Len(hist) < Depth /\ \E s \in S : hist' = Append(hist, <<s, Call(s)>>) /\ UNCHANGED <<b, deg>>
Spec == Init /\ [][Ask]_vars
Memoryless == \A i, j \in 1..Len(hist) : hist[i][1] = hist[j][1] => hist[i][2] = hist[j][2]
Constant == deg = 1 /\ b \in {"Fourier", "Polynomial", "Chebychev", "VanillaRBF", "MultiquadRBF"} => \A i, j \in 1..Len(hist) : hist[i][2] = hist[j][2]
\* a 1x1 convolution is the linear layer at each pixel
OneByOne == \A i \in 1..Len(hist) : LET w == Rows(hist[i][1]) IN
  Conv(w, <<w[5], w[6]>>, <<<<<<X[1]>>>>, <<<<X[2]>>>>>>, [ks |-> 1, pad |-> 0, stride |-> 1]) = <<<<<<hist[i][2][1]>>>>, <<<<hist[i][2][2]>>>>>>
ASSUME \A ni, no \in 1..4 : {LinRow(j, i, ni) : j \in 1..no, i \in 1..ni} = 1..(ni * no)
ASSUME \A nc, no, ks \in 1..3 : {ConvRow(o, c, u, v, nc, ks) : o \in 1..no, c \in 1..nc, u \in 1..ks, v \in 1..ks} = 1..(no * nc * ks * ks)
ASSUME \A m, n \in 0..3 : \A s \in {"1/2", "-3/4", "2"} : Cheb(m, Cheb(n, s)) = Cheb(m * n, s)
\* a 3x3 kernel with a one in the middle and padding one is the identity
ASSUME LET x == <<<<<<"1", "2">>, <<"3", "5">>>>>> IN Conv(<<"0", "0", "0", "0", "1", "0", "0", "0", "0">>, <<"0">>, x, [ks |-> 3, pad |-> 1, stride |-> 1]) = x
=============================================================================
