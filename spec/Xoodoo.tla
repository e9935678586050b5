------------------------------- MODULE Xoodoo ------------------------------
(* Xoodoo[nr] of "The design of Xoodoo and Xoofff" / the Xoodyak document, on *)
(* bit arrays: bit z of lane (x, plane y) is a[32(4y+x)+z].                   *)
EXTENDS Bytes, Integers, TLC

XBits(s) == TLCEval([i \in 0..383 |-> (s[(i \div 8) + 1] \div Pow2(i % 8)) % 2])
RECURSIVE XSumBits(_, _, _)
XSumBits(a, base, k) == IF k = 8 THEN 0 ELSE a[base + k] * Pow2(k) + XSumBits(a, base, k + 1)
XBytes(a) == TLCEval([i \in 1..48 |-> XSumBits(a, 8 * (i - 1), 0)])

XI(x, y, z) == 32 * (4 * y + ((x + 8) % 4)) + ((z + 64) % 32)
XX(i) == (i \div 32) % 4
XY(i) == i \div 128
XZ(i) == i % 32
(* round constants for rounds -11 .. 0, first round of Xoodoo[12] first *)
XRC == <<88, 56, 960, 208, 288, 20, 96, 44, 896, 240, 416, 18>>

XTheta(a) ==
    LET P == TLCEval([i \in 0..127 |-> (a[i] + a[128 + i] + a[256 + i]) % 2])
        Pb(x, z) == P[32 * ((x + 8) % 4) + ((z + 64) % 32)]
        E == TLCEval([i \in 0..127 |-> (Pb((i \div 32) - 1, (i % 32) - 5) + Pb((i \div 32) - 1, (i % 32) - 14)) % 2])
    IN  TLCEval([i \in 0..383 |-> (a[i] + E[i % 128]) % 2])
XRhoWest(a) == TLCEval([i \in 0..383 |->
    CASE XY(i) = 0 -> a[i] [] XY(i) = 1 -> a[XI(XX(i) - 1, 1, XZ(i))] [] OTHER -> a[XI(XX(i), 2, XZ(i) - 11)]])
XIota(a, c) == TLCEval([i \in 0..383 |-> IF i < 31 THEN (a[i] + (c \div Pow2(i))) % 2 ELSE a[i]])
XChi(a) == TLCEval([i \in 0..383 |->
    LET y == XY(i)  c == i % 128
    IN  (a[i] + (1 - a[128 * ((y + 1) % 3) + c]) * a[128 * ((y + 2) % 3) + c]) % 2])
XRhoEast(a) == TLCEval([i \in 0..383 |->
    CASE XY(i) = 0 -> a[i] [] XY(i) = 1 -> a[XI(XX(i), 1, XZ(i) - 1)] [] OTHER -> a[XI(XX(i) - 2, 2, XZ(i) - 8)]])
XRound(a, c) == XRhoEast(XChi(XIota(XRhoWest(XTheta(a)), c)))
RECURSIVE XRounds(_, _)
XRounds(a, r) == IF r > 12 THEN a ELSE XRounds(XRound(a, XRC[r]), r + 1)

XoodooP(nr, s) == XBytes(XRounds(XBits(s), 13 - nr))                    \* (J)
=============================================================================
