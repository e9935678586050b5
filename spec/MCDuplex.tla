------------------------------ MODULE MCDuplex -----------------------------
(* Exhaustive: all rates, all interleavings of calls, symbolic data.          *)
EXTENDS Duplex, SymPrim, TLC
CONSTANTS MaxH, MaxCalls, Delims
VARIABLES I, prev, last, calls
vars == <<I, prev, last, calls>>
Init == /\ \E rate \in 3..(8 * SymWidth) : I = DuNew(rate)
        /\ prev = I /\ calls = 0
        /\ last = [op |-> "init", rc |-> 0, x |-> <<>>, n |-> 0, out |-> <<>>]
X(n) == SData([s |-> Len(I.h) + 1, o |-> I.ii, n |-> n])
Y(n) == SData([s |-> 100, o |-> 0, n |-> n])
Do(op, x, n, r) ==
    /\ I' = r.i /\ prev' = I /\ calls' = calls + 1
    /\ last' = [op |-> op, rc |-> r.e.rc, x |-> x, n |-> n, out |-> IF "out" \in DOMAIN r.e THEN r.e.out ELSE <<>>]
Ns == 0..(SymWidth + 1)
Next ==
    /\ calls < MaxCalls
    /\ \/ \E n \in Ns : \/ Do("du.feed", X(n), n, DuCallFeed(I, X(n)))
                        \/ Do("du.feedz", <<>>, n, DuCallFeedZeroes(I, n))
                        \/ Do("du.over", X(n), n, DuCallOver(I, X(n)))
                        \/ Do("du.overz", <<>>, n, DuCallOverZeroes(I, n))
                        \/ Do("du.get", <<>>, n, DuCallGet(I, n))
                        \/ Do("du.getadd", Y(n), n, DuCallGetAdd(I, Y(n)))
       \/ /\ Len(I.h) < MaxH
          /\ \E n \in 0..SymWidth, z \in {0, 1, RateBytes(I.rate), RateBytes(I.rate) + 1}, d \in Delims :
                Do("du.duplexing", X(n), z, DuCallDuplexing(I, X(n), z, d))
Spec == Init /\ [][Next]_vars
Inv == DuInv(I)
Outputs == (last.rc = 0 /\ last.op \in {"du.duplexing", "du.get", "du.getadd"}) => DuOutOK(prev, I, last.op, last.x, last.n, last.out)
(* the inner part never reaches an output: no atom of a bit at or above the   *)
(* rate in the last byte                                                      *)
Masked == (last.rc = 0 /\ last.op \in {"du.duplexing", "du.get"} /\ last.n > 0 /\ 8 * I.oi > I.rate) =>
             \A a \in last.out[Len(last.out)] : a[1] < I.rate % 8
Refused == [][last'.rc = 1 => I' = I]_vars
=============================================================================
