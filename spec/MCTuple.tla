------------------------------ MODULE MCTuple ------------------------------
EXTENDS SP800185, SymPrim, TLC, FiniteSets
CONSTANTS Rb, Outs, MaxCalls, MaxElem, MaxBits
VARIABLES I, last, calls
vars == <<I, last, calls>>
S9(n) == SData([s |-> 90, o |-> 0, n |-> CeilDiv(n, 8)])
Init == calls = 0 /\ last = 0 /\ \E sn \in {0, 8, 19}, fl \in {0, 13, 16} : I = ThNew(Rb, fl, BitsMask(S9(sn), sn), sn)
Do(r) == I' = r.i /\ last' = r.e.rc /\ calls' = calls + 1
X(k, n) == SData([s |-> calls + 1, o |-> 16 * k, n |-> n])
Next == calls < MaxCalls /\
    (\/ \E k \in 0..2, a \in 0..MaxElem, b \in 0..MaxElem, bad \in BOOLEAN :
            Do(ThCallUpdate(I, SubSeq(<<X(1, a), X(2, b)>>, 1, k), bad))
     \/ Do(ThCallFinal(I))
     \/ \E l \in Outs : I.cs.l + l <= MaxBits /\ Do(CsCallSqueezeIn(I, l)))
Spec == Init /\ [][Next]_vars
Inv == ThInv(I)
Refused == [][last' = 1 => I' = I]_vars
(* no two tuples have the same encoding, whatever the split                   *)
Str(S, k) == UNION {[1..j -> S] : j \in 0..k}
ASSUME LET E == Str({0, 1, 8}, 2)
           T == Str(E, 2)
           F == [t \in T |-> TupleEnc([j \in 1..Len(t) |-> ByteSeq(t[j])], 1)]
       IN  Cardinality({F[t] : t \in T}) = Cardinality(T)
=============================================================================
