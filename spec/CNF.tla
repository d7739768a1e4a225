-------------------------------- MODULE CNF --------------------------------
(* Field of a continuous normalizing flow for data dynamics f (a polynomial map): first coordinate minus the trace of its Jacobian, or
   minus e . J e for a noise vector e; then f itself.  Again a polynomial map. *)
EXTENDS Poly
Scaled(p, c) == [k \in 1..Len(p) |-> [p[k] EXCEPT !.c = RMul(c, @)]]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
MinusTrace(f) == Cat([i \in 1..Len(f) |-> Scaled(PDiff(f[i], i), "-1")])
MinusQuad(f, e) == Cat([i \in 1..Len(f) |-> Cat([j \in 1..Len(f) |-> Scaled(PDiff(f[i], j), RNeg(RMul(e[i], e[j])))])])
Field(f, e) == <<IF e = <<>> THEN MinusTrace(f) ELSE MinusQuad(f, e)>> \o f
=============================================================================
