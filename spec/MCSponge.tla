------------------------------ MODULE MCSponge -----------------------------
(* Exhaustive exploration of the sponge object with symbolic data: every      *)
(* interleaving of absorb, last-bits and squeeze calls up to the bounds.      *)
EXTENDS Sponge, SymPrim, TLC, FiniteSets
CONSTANTS MaxM, MaxO, Delims
VARIABLES I, last
vars == <<I, last>>

Init == /\ \E rb \in 1..SymWidth : I = SpNew(24, rb)
        /\ last = [rc |-> 0]
Do(r) == I' = r.i /\ last' = [rc |-> r.e.rc]
Absorb == \E n \in 0..MaxM : Len(I.m) + n <= MaxM /\ Do(SpCallAbsorb(I, SData([s |-> 1, o |-> Len(I.m), n |-> n])))
Last == \E d \in Delims : Do(SpCallLast(I, d))
Squeeze == \E n \in 0..MaxO : Len(I.o) + n <= MaxO /\ Do(SpCallSqueeze(I, n))
Next == Absorb \/ Last \/ Squeeze
Spec == Init /\ [][Next]_vars

Inv == SpInv(I)
(* after the phase change the message is sealed: absorbing is refused and changes nothing *)
Refused == [][(last'.rc = 1) => I' = I]_vars
Sealed == [][I.sq => (I'.m = I.m /\ I'.sq)]_vars

(* pad10*1 with the suffix is injective: different (message, suffix) pairs    *)
(* are different block sequences.                                             *)
Alphabet == {SByt(0), SByt(1), SByt(128)}
Msgs == UNION {[1..n -> Alphabet] : n \in 0..3}
PadInjective ==
    \A rb \in 1..2 : LET P == {<<m, d>> : m \in Msgs, d \in Delims \ {0}}
                     IN  Cardinality({Padded(x[1], x[2], rb) : x \in P}) = Cardinality(P)
ASSUME PadInjective
=============================================================================
