------------------------------- MODULE MCDeck -------------------------------
(* All short call sequences on a deck object with a symbolic permutation:     *)
(* whatever the pieces, the object computes Farfalle of the strings.           *)
EXTENDS Deck, SymPrim, TLC
CONSTANTS MaxS,     \* bits per piece
          MaxT,     \* bytes per string
          MaxStr, MaxO, MaxCalls
VARIABLES I, last, calls
vars == <<I, last, calls>>
SRollC(k, s) == SPerm("rc", 0, s)
SRollE(k, s) == SPerm("re", 0, s)
X(o, n) == Data([s |-> 1, o |-> o, n |-> CeilDiv(n, 8)])
Init == calls = 0 /\ last = 0 /\ \E kn \in {0, 3, 8, 8 * SymWidth - 1} : I = DkNew("X", BStr(Data([s |-> 2, o |-> 0, n |-> CeilDiv(kn, 8)]), kn))
Do(r) == I' = r.i /\ last' = r.e.rc /\ calls' = calls + 1
Off == 10 * Len(I.ss) + Len(I.c)      \* strings use different atoms
Next == calls < MaxCalls /\
    (\/ \E n \in 0..MaxS, ini, fin \in BOOLEAN : Len(I.c) + CeilDiv(n, 8) <= MaxT /\ Len(I.ss) < MaxStr /\ Do(DkCallComp(I, X(Off, n), n, ini, fin))
     \/ \E n \in 0..(8 * MaxO), short, fin \in BOOLEAN : (I.c = <<>> \/ I.q # <<>>) /\ Len(I.o) + CeilDiv(n, 8) <= MaxO
                                                        /\ (n % 8 \in {0, 3}) /\ Do(DkCallExp(I, n, short, fin)))
Spec == Init /\ [][Next]_vars
Inv == DkInv(I)
Refused == [][last' = 1 => I' = I]_vars
(* padding is injective *)
Strs == {BStr([i \in 1..2 |-> Byt(v[i])], n) : v \in [1..2 -> {0, 1, 2, 4, 128, 129, 255}], n \in 0..16}
ASSUME \A a, b \in Strs : a # b => BitPad(a, 3) # BitPad(b, 3)
=============================================================================
