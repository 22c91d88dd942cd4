------------------------------- MODULE MC_Num -------------------------------
(* Self test of the arithmetic override: field and order laws, conversions. *)
EXTENDS Num, Integers, Sequences, TLC
V == {N(s) : s \in {"0", "1", "-1", "1/2", "-3/4", "12/44", "273.15", "1e3", "1e-9", "2147483648", "-7/3"}}
ASSUME N("12/44") = "3/11" /\ N("0.25") = "1/4" /\ N(7) = "7" /\ N("1e3") = "1000"
ASSUME \A a, b \in V : NAdd(a, b) = NAdd(b, a) /\ NMul(a, b) = NMul(b, a)
ASSUME \A a, b, c \in V : /\ NAdd(a, NAdd(b, c)) = NAdd(NAdd(a, b), c)
                          /\ NMul(a, NMul(b, c)) = NMul(NMul(a, b), c)
                          /\ NMul(a, NAdd(b, c)) = NAdd(NMul(a, b), NMul(a, c))
ASSUME \A a, b \in V : NSub(NAdd(a, b), b) = a /\ (b # "0" => NMul(NDiv(a, b), b) = a)
ASSUME \A a, b \in V : (NLe(a, b) \/ NLt(b, a)) /\ ~(NLe(a, b) /\ NLt(b, a)) /\ (NEq(a, b) <=> a = b)
ASSUME \A a \in V : NLe(NFloor(a), a) /\ NLt(a, NAdd(NFloor(a), 1))
ASSUME NFloor("-7/3") = "-3" /\ NInt("-3") = -3 /\ NSum(<<"1/2", "1/3">>) = "5/6" /\ NMaxAbs(<<"1", "-2">>) = "2"
ASSUME NDiv("1", "0") = "inf" /\ NDiv("0", "0") = "nan" /\ NAdd("nan", "1") = "nan" /\ ~NLe("nan", "1")
ASSUME NClose("1", "1.0000000001", 0, "1e-9") /\ ~NClose("1", "1.00000001", 0, "1e-9")
ASSUME NLog2("8") = "3" /\ NLog2("1/4") = "-2" /\ NDouble("1/3") = "6004799503160661/18014398509481984"
ASSUME Chars("a|b") = <<97, 124, 98>> /\ Str(<<97, 124, 98>>) = "a|b" /\ Cat("a", "b") = "ab"
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
