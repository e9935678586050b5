-------------------------------- MODULE Rolls -------------------------------
(* The rolling functions of Kravatte ("The design of Xoodoo and Xoofff" and   *)
(* "Farfalle" papers): lanes are sequences of 8 (or 4) bytes, little-endian.  *)
EXTENDS Bytes, Integers, TLC

(* lane rotated left, shifted left, shifted right by n bits *)
RotL(l, n) == LET w == Len(l)  q == n \div 8  r == n % 8
                  B(i) == l[1 + ((i + 2 * w) % w)]
              IN  [i \in 1..w |-> ((B(i - 1 - q) * Pow2(r)) % 256) + (B(i - 2 - q) \div Pow2(8 - r))]
ShL(l, n) == LET w == Len(l)  q == n \div 8  r == n % 8
                 B(i) == IF i < 0 THEN 0 ELSE l[1 + i]
             IN  [i \in 1..w |-> ((B(i - 1 - q) * Pow2(r)) % 256) + (B(i - 2 - q) \div Pow2(8 - r))]
ShR(l, n) == LET w == Len(l)  q == n \div 8  r == n % 8
                 B(i) == IF i >= w THEN 0 ELSE l[1 + i]
             IN  [i \in 1..w |-> (B(i - 1 + q) \div Pow2(r)) + ((B(i + q) * Pow2(8 - r)) % 256)]
Ln(s, j, w) == Slice(s, w * j, w)
X3(a, b, c) == CXorS(CXorS(a, b), c)

(* Kravatte: lanes 20..24 for the mask, 15..24 for the output state *)
KRollC(s) == LET x0 == Ln(s, 20, 8)  x1 == Ln(s, 21, 8)
             IN  Slice(s, 0, 160) \o Slice(s, 168, 32) \o X3(RotL(x0, 7), x1, ShR(x1, 3))
KRollE(s) == LET x0 == Ln(s, 15, 8)  x1 == Ln(s, 16, 8)  x2 == Ln(s, 17, 8)
             IN  Slice(s, 0, 120) \o Slice(s, 128, 72) \o X3(RotL(x0, 7), RotL(x1, 18), CAndS(x2, ShR(x1, 1)))
(* Xoofff: planes of four 32-bit lanes; the first plane, rotated by a lane    *)
(* and with one lane updated, becomes the last                                 *)
XRoll(s, x) == Slice(s, 16, 32) \o Slice(s, 4, 12) \o x
XRollC(s) == LET x0 == Ln(s, 0, 4)  x4 == Ln(s, 4, 4) IN XRoll(s, X3(x0, ShL(x0, 13), RotL(x4, 3)))
XRollE(s) == LET x0 == Ln(s, 0, 4)  x4 == Ln(s, 4, 4)  x8 == Ln(s, 8, 4)
             IN  XRoll(s, CXorS(X3(RotL(x0, 5), RotL(x4, 13), CAndS(x8, x4)), <<7, 0, 0, 0>>))
CRollC(k, s) == IF k = "K" THEN KRollC(s) ELSE XRollC(s)                \* (J)
CRollE(k, s) == IF k = "K" THEN KRollE(s) ELSE XRollE(s)                \* (J)
=============================================================================
