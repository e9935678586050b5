----------------------------- MODULE KeccakHash ----------------------------
(* lib/high/Keccak/FIPS202: the incremental hash interface with message       *)
(* lengths in bits (KeccakHash), and the one-shot functions (SimpleFIPS202).  *)
EXTENDS Sponge

(* A. FIPS 202: n bits of message, then the suffix bits, then pad10*1.        *)
(* m has ceil(n/8) bytes; the unused high bits of its last byte do not count. *)
PaddedBits(m, n, delim, rb) ==
    LET len == rb * CeilDiv(n + SuffixBits(delim) + 2, 8 * rb)
        k == n % 8
        v == delim * 2^k
        z == BitsMask(m, n) \o Zero(len - Len(m))
        y == XorAt(z, n \div 8, Bytes1(v % 256))
        x == IF v \div 256 = 0 THEN y ELSE XorAt(y, (n \div 8) + 1, Bytes1(v \div 256))
    IN  XorAt(x, len - 1, Bytes1(128))
SpongeBitsFn(nr, rb, m, n, delim, out) ==
    StreamFrom(nr, AbsorbBlocksFrom(nr, Zero(Width("K")), rb, PaddedBits(m, n, delim, rb), 0), rb, out)

(* the FIPS 202 functions: rate in bytes, suffix, digest bytes (0: any)       *)
FipsF == <<[rb |-> 168, d |-> 31, n |-> 0], [rb |-> 136, d |-> 31, n |-> 0],
           [rb |-> 144, d |-> 6, n |-> 28], [rb |-> 136, d |-> 6, n |-> 32],
           [rb |-> 104, d |-> 6, n |-> 48], [rb |-> 72, d |-> 6, n |-> 64]>>
FipsFn(f, m, n) == SpongeFn(24, FipsF[f].rb, m, FipsF[f].d, IF FipsF[f].n = 0 THEN n ELSE FipsF[f].n)

(* B. sp: the sponge; fl: output bits at Final; b, hi: the suffix byte still  *)
(* to be absorbed and whether its delimiter is the most significant bit.      *)
(* m, n: message so far (bytes, bits); d: suffix; o: output; fin: finalized.  *)
KhNew(rb, fl, delim) == [ty |-> "kh", sp |-> SpNew(24, rb), fl |-> fl, b |-> Byt(delim), v |-> delim,
                         m |-> <<>>, n |-> 0, d |-> delim, o |-> <<>>]
KhCallInit(I, rate, cap, fl, delim) ==
    IF delim # 0 /\ SpRateOK(rate, cap) THEN Res(KhNew(rate \div 8, fl, delim), 0) ELSE Res(I, 1)

KhAbs(I, x) == [I EXCEPT !.sp = [SpAbsLoop(I.sp, x, 0) EXCEPT !.m = <<>>]]
(* x: data of ceil(n/8) bytes.  Precondition: the bits so far are whole bytes *)
KhCallUpdate(I, x, n) ==
    LET k == n % 8
        J == [KhAbs(I, Cut(x, 0, n \div 8)) EXCEPT !.m = I.m \o x, !.n = I.n + n]
        v == I.d * 2^k
        low == Low(x[Len(x)], k)
        byte == XorS(<<low>>, Bytes1(v % 256))[1]
    IN  IF I.sp.sq THEN Res(I, 1)
        ELSE IF k = 0 THEN Res(J, 0)
        ELSE IF v < 256 THEN Res([J EXCEPT !.b = byte, !.v = v], 0)
        ELSE Res([KhAbs(J, <<byte>>) EXCEPT !.b = Byt(v \div 256), !.v = v \div 256], 0)
KhCallFinal(I) ==
    IF I.sp.sq THEN ResO(I, 1, <<>>)
    ELSE LET r == SpSqz([SpPadB(I.sp, I.b, I.v >= 128) EXCEPT !.o = <<>>], I.fl \div 8)
         IN  ResO([I EXCEPT !.sp = r.i, !.o = r.o], 0, r.o)
(* Precondition: finalized *)
KhCallSqueeze(I, nbits) ==
    IF nbits % 8 # 0 THEN ResO(I, 1, <<>>)
    ELSE LET r == SpSqz(I.sp, nbits \div 8) IN ResO([I EXCEPT !.sp = r.i, !.o = I.o \o r.o], 0, r.o)

KhInv(I) == /\ SpTypeOK(I.sp)
            /\ I.sp.sq => I.o = SpongeBitsFn(24, I.sp.rb, I.m, I.n, I.d, Len(I.o))
=============================================================================
