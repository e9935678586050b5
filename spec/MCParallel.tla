----------------------------- MODULE MCParallel ----------------------------
(* ParallelHash with every pattern of updates, block sizes and widths        *)
EXTENDS SP800185, SymPrim, TLC, FiniteSets
CONSTANTS Rb, Outs, MaxCalls, MaxIn, MaxBits
VARIABLES I, last, calls
vars == <<I, last, calls>>
S9(n) == SData([s |-> 90, o |-> 0, n |-> CeilDiv(n, 8)])
Init == /\ calls = 0 /\ last = 0
        /\ \E sn \in {0, 11}, fl \in {0, 13}, blk \in {1, 2, 4}, pw \in {<<>>, <<2>>, <<4, 2>>, <<8, 4, 2>>} :
              I = PhNew(Rb, blk, fl, BitsMask(S9(sn), sn), sn, pw)
Do(r) == I' = r.i /\ last' = r.e.rc /\ calls' = calls + 1
X(n) == SData([s |-> 1, o |-> I.tot, n |-> n])          \* the same message whatever the calls
Next == calls < MaxCalls /\
    (\/ \E n \in 0..MaxIn : I.tot + n <= MaxIn /\ Do(PhCallUpdate(I, X(n), 8 * n))
     \/ Do(PhCallUpdate(I, X(2), 11))
     \/ Do(PhCallFinal(I))
     \/ \E l \in Outs : I.cs.l + l <= MaxBits /\ Do(CsCallSqueezeIn(I, l)))
Spec == Init /\ [][Next]_vars
Inv == PhInv(I)
Refused == [][last' = 1 => I' = I]_vars
ASSUME \A e \in 0..30 : LeftEncPow(e) = LeftEnc(2^e)
=============================================================================
