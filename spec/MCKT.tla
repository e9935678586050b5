-------------------------------- MODULE MCKT -------------------------------
EXTENDS KT, SymPrim, TLC
CONSTANTS Rb, MaxIn, MaxC, MaxO, MaxCalls, Widths
VARIABLES I, last, calls, pw
vars == <<I, last, calls, pw>>
Pws == [none |-> <<>>, two |-> <<2>>, four |-> <<4, 2>>, eight |-> <<8, 4, 2>>]
Init == calls = 0 /\ last = 0 /\ (\E fl \in {0, 3} : I = KtNew(Rb, fl)) /\ \E w \in Widths : pw = Pws[w]
Do(r) == I' = r.i /\ last' = r.e.rc /\ calls' = calls + 1 /\ pw' = pw
X(o, n) == [s |-> 1, o |-> o, n |-> n]
Next == calls < MaxCalls /\
    (\/ \E n \in 0..MaxIn : Total(I.d) + n <= MaxIn /\ Do(KtCallUpdate(I, X(Total(I.d), n), pw))
     \/ \E n \in 0..MaxC : Do(KtCallFinal(I, X(Total(I.d), n), pw))
     \/ \E n \in 0..MaxO : Len(I.o) + n <= MaxO /\ Do(KtCallSqueeze(I, n)))
Spec == Init /\ [][Next]_vars
Inv == KtInv(I)
Refused == [][last' = 1 => I' = I]_vars
(* message and customization are separated although they share the stream     *)
ASSUME \A m1, c1, m2, c2 \in 0..9 : LET x == [i \in 1..20 |-> Byt(i % 2)] IN
    (<<m1, c1>> # <<m2, c2>> /\ m1 + c1 = m2 + c2) => LenEnc(c1) # LenEnc(c2)
ASSUME \A a, b \in 0..300 \cup {65535, 65536, 16777216} : a # b => LenEnc(a) # LenEnc(b)
=============================================================================
