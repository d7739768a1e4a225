---- MODULE RatTest ----
EXTENDS Rat, TLC
ASSUME RLoaded
ASSUME RAdd("1/3","1/6") = "1/2"
ASSUME RSub(1,"3/2") = "-1/2"
ASSUME RMul("2/3","3/4") = "1/2" /\ RDiv("1/2","-1/4") = "-2" /\ RDiv(1,0) = "nan"
ASSUME RLt("1/3","1/2") /\ ~RLt("nan",1) /\ RLe("inf","inf") /\ REq("2","4/2")
ASSUME RPow("-2/3",3) = "-8/27" /\ RPow("2",-2) = "1/4"
ASSUME RRound("1/3",10) = "341/1024" \/ PrintT(RRound("1/3",10))
ASSUME RSqrt("2",20) # "nan" /\ RLe(RMul(RSqrt("2",20),RSqrt("2",20)),"2")
ASSUME RRoot("32",5,20) = "2" /\ RLt(RAbs(RSub(RPow(RRoot("1/7",10,60),10),"1/7")),RTwo(-55))
ASSUME RFloor("-3/2") = -2 /\ RTwo(-3) = "1/8"
ASSUME VAdd(<<1,"1/2">>,<<"1/2","1/2">>) = <<"3/2","1">> /\ VSum([i \in 1..3 |-> "1/3"]) = "1"
ASSUME VMaxAbs(<<"-3","2">>) = "3"
ASSUME PMul(<<1,1>>,<<1,2>>) = <<"1","3","2">> /\ PMulT(<<1,1>>,<<1,2>>,2) = <<"1","3">> /\ PAdd(<<1>>,<<0,2>>) = <<"1","2">>
ASSUME PInt(<<1,1>>) = <<"0","1","1/2">> /\ PDer(<<5,1,"1/2">>) = <<"1","1">> /\ PEval(<<1,2,1>>,"1/2") = "9/4"
\* exp, cos, sin against their partial Taylor sums, and identities at other arguments
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE RMul(n, Fact(n - 1))
Ser(x, lo, step, alt) == VSum([k \in 1..20 |-> LET i == lo + step * (k - 1) IN RMul(IF alt /\ k % 2 = 0 THEN -1 ELSE 1, RDiv(RPow(x, i), Fact(i)))])
Near(a, b) == RLt(RAbs(RSub(a, b)), RTwo(-50))
ASSUME \A x \in {"0", "1/3", "-3/4", "1", "-1/2"} : /\ Near(RExp(x, 70), Ser(x, 0, 1, FALSE)) /\ Near(RCos(x, 70), Ser(x, 0, 2, TRUE))
                                                   /\ (x = "0" \/ Near(RSin(x, 70), Ser(x, 1, 2, TRUE))) /\ Near(RMul(RExp(x, 70), RExp(RNeg(x), 70)), 1)
ASSUME \A x \in {"7/2", "-11", "100/7", "1000"} : /\ Near(RAdd(RPow(RCos(x, 70), 2), RPow(RSin(x, 70), 2)), 1)
                                                   /\ Near(RCos(RAdd(x, 1), 70), RSub(RMul(RCos(x, 70), RCos(1, 70)), RMul(RSin(x, 70), RSin(1, 70))))
                                                   /\ Near(RDiv(RExp(RDiv(x, 10), 70), RPow(RExp(RDiv(x, 20), 70), 2)), 1)
ASSUME Near(RSin(RPi(70), 70), 0) /\ Near(RCos(RPi(70), 70), -1) /\ RLt(RAbs(RSub(RPi(70), "355/113")), "1/1000000")
ASSUME PrintT(<<"ok", RShow("1/3")>>)
====
