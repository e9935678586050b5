------------------------------ MODULE ConPrim ------------------------------
(* Concrete binding of Prim: kind "K" is Keccak-p[1600], kind "X" is Xoodoo. *)
EXTENDS KeccakP, Xoodoo
CWidth(k) == IF k = "K" THEN 200 ELSE 48
CPerm(k, nr, s) == IF k = "K" THEN KeccakP(nr, s) ELSE XoodooP(nr, s)
CByt(v) == v
CLow(b, n) == b % Pow2(n)
CData(d) == Gen(d.s, d.o, d.n)
=============================================================================
