------------------------------- MODULE MCPRG -------------------------------
EXTENDS PRG, SymPrim, TLC
CONSTANTS MaxIn, MaxOut, MaxCalls
VARIABLES I, last, calls
vars == <<I, last, calls>>
Init == /\ \E cap \in 0..(8 * SymWidth - 10) : I = PrgNew(cap)
        /\ last = 0 /\ calls = 0
Do(r) == I' = r.i /\ last' = r.e.rc /\ calls' = calls + 1
Next == calls < MaxCalls /\
    (\/ \E n \in 0..MaxIn : Do(PrgCallFeed(I, SData([s |-> Len(I.h) + 1, o |-> Len(I.m), n |-> n])))
     \/ \E n \in 0..MaxOut : Do(PrgCallFetch(I, n))
     \/ Do(PrgCallForget(I)))
Spec == Init /\ [][Next]_vars
Inv == PrgInv(I)
Refused == [][last' = 1 => I' = I]_vars
(* after a forget the outer part of the last permutation input was a          *)
(* constant: the state is a permutation of a value that has lost rho bytes    *)
Forgets == [][(last' = 0 /\ Len(I'.h) > Len(I.h) /\ I'.h[Len(I'.h)].forget) =>
    \E s \in {DuDuplexing(I.du, <<>>, 1).st} :
        I'.du.st = PBlock(s, I.du.rate, Zero(Rho(I.du.rate)), TRUE)]_vars
=============================================================================
