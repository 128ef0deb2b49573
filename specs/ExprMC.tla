------------------------------ MODULE ExprMC ------------------------------
\* Every program of a few operations over three registers: the constructions on terms have the declared meaning,
\* and the meaning is what the values at every point of a grid say.
EXTENDS Expr, TLC, Json
CONSTANTS Depth, Wide
N == 2
VARIABLES reg, prog, seen
vars == <<reg, prog, seen>>
Lits == {Zero, [c |-> 1, a |-> <<<<2, 0>>>>, q |-> <<>>], [c |-> -1, a |-> <<<<1, 1>>, <<-3, 0>>, <<1, 1>>>>, q |-> <<>>],
         [c |-> 0, a |-> <<<<0, 1>>, <<1, 0>>>>, q |-> <<>>]}
QLits == {[c |-> 2, a |-> <<<<1, 1>>>>, q |-> <<<<1, 0, 1>>, <<2, 1, 0>>, <<-1, 1, 1>>>>]}
Regs == {"a0", "a1", "q0"}
AReg(r) == r \in {"a0", "a1"}
Ks == {-2, 0, 3}
TypeOf(r) == IF AReg(r) THEN "a" ELSE "q"
Rec(f, d, x, y, k) == [f |-> f, d |-> d, x |-> x, y |-> y, k |-> k]
Init == reg \in [{"a0", "a1"} -> Lits] \X QLits /\ prog = <<>> /\ seen = 0
R(r) == IF r = "q0" THEN reg[2] ELSE reg[1][r]
Write(d, e) == IF d = "q0" THEN <<reg[1], e>> ELSE <<[reg[1] EXCEPT ![d] = e], reg[2]>>
Do(f, d, x, y, k) == /\ reg' = Write(d, TApply(f, k, R(x), R(y)))
                     /\ prog' = Append(prog, Rec(f, d, x, y, k)) /\ seen' = 0
Next == /\ Len(prog) < Depth
        /\ \/ \E d \in Regs, x \in Regs, y \in Regs, f \in {"add", "sub"} : (AReg(d) => AReg(x) /\ AReg(y)) /\ Do(f, d, x, y, 0)
           \/ \E d \in Regs, x \in Regs, k \in Ks : (AReg(d) => AReg(x)) /\ Do("scale", d, x, x, k)
           \/ \E x \in {"a0", "a1"}, y \in {"a0", "a1"} : Do("mul", "q0", x, y, 0)
           \/ \E x \in {"a0", "a1"} : Do("square", "q0", x, x, 0)
Spec == Init /\ [][Next]_vars
Pts == [1..N -> (IF Wide THEN -2..2 ELSE {-1, 0, 2})]
\* the meaning of a register is its value everywhere
MeaningIsValue == \A r \in Regs : \A x \in Pts : Eval(NF(R(r), N), x) = EvalRaw(R(r), x)
AffStaysAff == \A r \in {"a0", "a1"} : R(r).q = <<>> /\ IsAff(NF(R(r), N))
\* the constructions compute the operation on meanings
StepMeans == [][LET p == prog'[Len(prog')] IN
   /\ NF(IF p.d = "q0" THEN reg'[2] ELSE reg'[1][p.d], N) = Apply(p.f, p.k, NF(R(p.x), N), NF(R(p.y), N))
   /\ \A r \in Regs \ {p.d} : (IF r = "q0" THEN reg'[2] ELSE reg'[1][r]) = R(r)]_vars
\* and the operation on meanings is the operation on values
ValueLaws == [][LET p == prog'[Len(prog')] X == NF(R(p.x), N) Y == NF(R(p.y), N) IN
   \A x \in Pts : LET v == Eval(Apply(p.f, p.k, X, Y), x) a == Eval(X, x) b == Eval(Y, x) IN
      v = (CASE p.f = "add" -> a + b [] p.f = "sub" -> a - b [] p.f = "scale" -> p.k * a [] p.f = "mul" -> a * b [] OTHER -> a * a)]_vars
Bound == \A r \in Regs : \A m \in Mons(N) : Abs(NF(R(r), N)[m]) < 5000
PrintScn == PrintT(<<"SCN", ToJson([a0 |-> reg[1]["a0"], a1 |-> reg[1]["a1"], q0 |-> reg[2], op |-> prog'[Len(prog')]])>>)
Gen == PrintScn
=============================================================================
