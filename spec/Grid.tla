-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Integer helpers and the grid topology shared by all stages.             *)
(* A grid of w x h columns is a sequence indexed by Col(w,x,z) (1-based).   *)
(* Directions are numbered 0..3: -x, +z, +x, -z.                            *)
(* Force(v) evaluates v once; TLC would otherwise re-evaluate functions.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Force(v) == TLCEval(v)
IfNot(ok, name) == IF ok THEN {} ELSE {name}

Mn(a, b) == IF a <= b THEN a ELSE b
Mx(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

\* floor and ceiling of n/d for d > 0 (TLA+ \div already rounds down)
FloorDiv(n, d) == n \div d
CeilDiv(n, d) == -((-n) \div d)

Dirs == 0..3
DX(d) == <<-1, 0, 1, 0>>[d + 1]
DZ(d) == <<0, 1, 0, -1>>[d + 1]
CW(d) == (d + 1) % 4
CCW(d) == (d + 3) % 4
Opp(d) == (d + 2) % 4

Col(w, x, z) == 1 + x + z * w
ColX(w, c) == (c - 1) % w
ColZ(w, c) == (c - 1) \div w
InGrid(w, h, x, z) == x >= 0 /\ x < w /\ z >= 0 /\ z < h

\* sum of a sequence of integers
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* the set of elements of a sequence
Elems(s) == {s[i] : i \in DOMAIN s}
=============================================================================
