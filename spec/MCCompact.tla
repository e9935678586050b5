------------------------------ MODULE MCCompact ----------------------------
(* The procedures of module Compact against the definitions of the standards, *)
(* for all small rates, lengths, suffixes and output lengths, on free terms:   *)
(* whatever the data and the permutation.                                     *)
EXTENDS Compact, SymPrim, TLC
CONSTANTS MaxM, MaxO, MaxC, Delims
VARIABLE p
X(n) == SData([s |-> 1, o |-> 0, n |-> n])
Y(n) == SData([s |-> 2, o |-> 0, n |-> n])
Init == p \in [t : {"co"}, rb : 1..SymWidth, m : 0..MaxM, d : Delims, n : 0..MaxO, c : {0}]
          \cup [t : {"tw"}, rb : 1..SymWidth, m : 0..MaxM, d : {d \in Delims : d < 128}, n : 0..MaxO, c : {0}]
          \cup [t : {"ru"}, rb : 1..(SymWidth - 1), m : 0..MaxC, d : {0}, n : 1..MaxO, c : 0..MaxC]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
Agrees ==
    CASE p.t = "co" -> CoKeccak(p.rb, X(p.m), p.d, p.n) = SpongeFn(24, p.rb, X(p.m), p.d, p.n)
      [] p.t = "tw" -> TwKeccak(p.rb, X(p.m), p.d, p.n) = SpongeFn(24, p.rb, X(p.m), p.d, p.n)
      [] p.t = "ru" -> RuKT(p.rb, X(p.m), Y(p.c), p.n) = KtFn(p.rb, X(p.m), Y(p.c), p.n)
=============================================================================
