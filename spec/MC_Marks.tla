------------------------------- MODULE MC_Marks ------------------------------
(***************************************************************************)
(* C10 over histories: volumes of different height ranges and areas mark and  *)
(* remove floors of a stack in any order.  Every history is emitted.          *)
(***************************************************************************)
EXTENDS Volume, TLC, Json
CONSTANTS Tops, Cuts, Areas, Depth, Den
VARIABLES ar, hist
vars == <<ar, hist>>
\* two cells: the whole stack, and every second floor of it
Floors == [i \in 1..Len(Tops) |-> <<Tops[i] - 2, Tops[i], 1 + (i % 2)>>]
Second == [i \in 1..(Len(Tops) \div 2) |-> Floors[2 * i]]
Chf == ToCompact(2, 1, <<Floors, Second>>, 3, 1)
Co == Force(ColOfSpans(Chf))
Box == <<<<-Den, -Den>>, <<-Den, 3 * Den>>, <<3 * Den, 3 * Den>>, <<3 * Den, -Den>>>>
Half == <<<<-Den, -Den>>, <<-Den, 3 * Den>>, <<Den, 3 * Den>>, <<Den, -Den>>>>
Init == ar = Chf.ar /\ hist = <<>>
Mark(v, lo, hi, a) ==
  ar' = [i \in DOMAIN ar |-> IF ar[i] # 0 /\ (v = Box \/ Co[i] = 1) /\ Chf.sp[i][1] * Den >= lo /\ Chf.sp[i][1] * Den <= hi THEN a ELSE ar[i]]
Next ==
  /\ Len(hist) < Depth
  /\ \E v \in {Box, Half}, lo \in Cuts, hi \in Cuts, a \in Areas :
       /\ lo < hi
       /\ Mark(v, lo * Den, hi * Den, a)
       /\ hist' = Append(hist, [a |-> "vol", v |-> v, den |-> Den, lo |-> lo * Den, hi |-> hi * Den, ar |-> a])
  /\ (Len(hist') = Depth => PrintT("OPS " \o ToJson([id |-> "marks", ops |->
        <<[a |-> "cols", w |-> 2, h |-> 1, cols |-> <<Floors, Second>>], [a |-> "compact", h |-> 3, c |-> 1]>> \o hist'])))
Spec == Init /\ [][Next]_vars
\* the marking rule agrees with the definition, and what is removed stays removed
RuleAgrees == [][\A e \in {hist'[Len(hist')]} : MarkBad([Chf EXCEPT !.ar = ar], e.v, e.den, e.lo, e.hi, e.ar, ar') = {}]_vars
RemovedStays == [][\A i \in DOMAIN ar : ar[i] = 0 => ar'[i] = 0]_vars
=============================================================================
