------------------------------ MODULE SP800185 -----------------------------
(* NIST SP 800-185: lib/high/Keccak/SP800-185.  cSHAKE, KMAC, TupleHash and   *)
(* ParallelHash with rate rb bytes (168 or 136 in the standard).              *)
EXTENDS KeccakHash

(* ---- encodings (values as integers; bytes through Byt) ---- *)
RECURSIVE EncNat(_)
EncNat(v) == IF v < 256 THEN <<v>> ELSE EncNat(v \div 256) \o <<v % 256>>
LeftEnc(v) == ByteSeq(<<Len(EncNat(v))>> \o EncNat(v))
RightEnc(v) == ByteSeq(EncNat(v) \o <<Len(EncNat(v))>>)
(* a bit string is b: bytes and n: bits; only whole-byte strings can be       *)
(* followed by something                                                      *)
EncString(b, n) == LeftEnc(n) \o BitsMask(b, n)
Bytepad(x, w) == LET y == LeftEnc(w) \o x IN y \o Zero((w - (Len(y) % w)) % w)
NameKMAC == ByteSeq(<<75, 77, 65, 67>>)
NameTuple == ByteSeq(<<84, 117, 112, 108, 101, 72, 97, 115, 104>>)
NameParallel == ByteSeq(<<80, 97, 114, 97, 108, 108, 101, 108, 72, 97, 115, 104>>)

(* ------------------------------------------------------------------------ *)
(* A. The functions.  x, n: message; l: output bits; nm: name (whole bytes);  *)
(* s, sn: customization                                                       *)
(* ------------------------------------------------------------------------ *)
Prefix(rb, nm, s, sn) == IF nm = <<>> /\ sn = 0 THEN <<>> ELSE Bytepad(EncString(nm, 8 * Len(nm)) \o EncString(s, sn), rb)
CDelim(nm, sn) == IF nm = <<>> /\ sn = 0 THEN 31 ELSE 4
OutBits(o, l) == BitsMask(o, l)
CShakeFn(rb, x, n, l, nm, s, sn) ==
    LET p == Prefix(rb, nm, s, sn)
    IN  OutBits(SpongeBitsFn(24, rb, p \o x, 8 * Len(p) + n, CDelim(nm, sn), CeilDiv(l, 8)), l)
(* lx: the encoded length, 0 for the XOF variants *)
KmacFn(rb, k, kn, x, l, lx, s, sn) ==
    LET m == Bytepad(EncString(k, kn), rb) \o x \o RightEnc(lx) IN CShakeFn(rb, m, 8 * Len(m), l, NameKMAC, s, sn)
RECURSIVE TupleEnc(_, _)
TupleEnc(t, k) == IF k > Len(t) THEN <<>> ELSE EncString(t[k], 8 * Len(t[k])) \o TupleEnc(t, k + 1)
TupleFn(rb, t, l, lx, s, sn) ==
    LET m == TupleEnc(t, 1) \o RightEnc(lx) IN CShakeFn(rb, m, 8 * Len(m), l, NameTuple, s, sn)
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(rb, x, off, blk) ==
    IF off >= Len(x) THEN <<>>
    ELSE LET b == Cut(x, off, MinOf(blk, Len(x) - off))
         IN  CShakeFn(rb, b, 8 * Len(b), 8 * (Width("K") - rb), <<>>, <<>>, 0) \o ChainFrom(rb, x, off + blk, blk)
Blocks(n, blk) == (n \div blk) + (IF n % blk = 0 THEN 0 ELSE 1)
(* le: the encoded block size; block sizes of 2^30 and more count as infinite *)
LeftEncPow(e) == ByteSeq(<<(e \div 8) + 1, 2^(e % 8)>>) \o Zero(e \div 8)
ParFnE(rb, x, le, blk, l, lx, s, sn) ==
    LET m == le \o ChainFrom(rb, x, 0, blk) \o RightEnc(Blocks(Len(x), blk)) \o RightEnc(lx)
    IN  CShakeFn(rb, m, 8 * Len(m), l, NameParallel, s, sn)
ParFn(rb, x, blk, l, lx, s, sn) == ParFnE(rb, x, LeftEnc(blk), blk, l, lx, s, sn)

(* ------------------------------------------------------------------------ *)
(* B. cSHAKE object.  lb, lv: bits of the last partial byte; em: no name and  *)
(* no customization; ph: "abs", "sqz", "fin"; fl: fixed output bits.          *)
(* history: nm, s, sn; m, n: message; o, l: output, bits of output            *)
(* ------------------------------------------------------------------------ *)
CsNew(rb, fl, nm, s, sn) ==
    LET em == nm = <<>> /\ sn = 0
        J == [sp |-> SpNew(24, rb)]
        a == LeftEnc(rb) \o LeftEnc(8 * Len(nm)) \o nm \o LeftEnc(sn) \o BitsMask(s, sn)
        s1 == SpAbs(SpNew(24, rb), a)
        s2 == IF s1.ix = 0 THEN s1 ELSE SpAbsLoop([s1 EXCEPT !.ix = rb - 1], Zero(1), 0)
    IN  [ty |-> "cs", sp |-> [(IF em THEN J.sp ELSE s2) EXCEPT !.m = <<>>], fl |-> fl, em |-> em, lb |-> 0, lv |-> Byt(0), ph |-> "abs",
         nm |-> nm, s |-> s, sn |-> sn, m |-> <<>>, n |-> 0, o |-> <<>>, l |-> 0]
CsAbsRaw(I, x) == [I EXCEPT !.sp = [SpAbsLoop(I.sp, x, 0) EXCEPT !.m = <<>>]]
CsUpd(I, x, n) ==
    LET J == [CsAbsRaw(I, Cut(x, 0, n \div 8)) EXCEPT !.m = I.m \o x, !.n = I.n + n, !.lb = n % 8]
    IN  IF n % 8 = 0 THEN J ELSE [J EXCEPT !.lv = Low(x[Len(x)], n % 8)]
CsUpdOK(I) == I.ph = "abs" /\ I.lb = 0
CsSqz(I, l) ==
    LET r == SpSqz(I.sp, CeilDiv(l, 8))
    IN  [i |-> [I EXCEPT !.sp = [r.i EXCEPT !.o = <<>>], !.ph = IF l % 8 = 0 THEN "sqz" ELSE "fin",
                         !.o = I.o \o OutBits(r.o, l), !.l = I.l + l], o |-> OutBits(r.o, l)]
CsFin(I) ==
    LET d == IF I.em THEN 31 ELSE 4
        v == d * 2^I.lb
        b == XorS(<<I.lv>>, Bytes1(v % 256))
        J == IF I.lb = 0 THEN [I EXCEPT !.sp = SpPadB(I.sp, Byt(d), d >= 128)]
             ELSE IF v < 256 THEN [I EXCEPT !.sp = SpPadB(I.sp, b[1], v >= 128)]
             ELSE LET K == CsAbsRaw(I, b) IN [K EXCEPT !.sp = SpPadB(K.sp, Byt(v \div 256), (v \div 256) >= 128)]
    IN  [J EXCEPT !.ph = "sqz"]
CsFinal(I) ==
    LET J == CsFin(I) r == CsSqz(J, I.fl)
    IN  IF I.fl = 0 THEN [i |-> J, o |-> <<>>] ELSE [i |-> [r.i EXCEPT !.ph = "fin"], o |-> r.o]

CsCallInit(I, rb, fl, nm, nmbits, s, sn) == IF nmbits % 8 # 0 THEN Res(I, 1) ELSE Res(CsNew(rb, fl, nm, s, sn), 0)
CsCallUpdate(I, x, n) == IF CsUpdOK(I) THEN Res(CsUpd(I, x, n), 0) ELSE Res(I, 1)
CsCallFinal(I) == IF I.ph # "abs" THEN ResO(I, 1, <<>>) ELSE LET r == CsFinal(I) IN ResO(r.i, 0, r.o)
CsCallSqueeze(I, l) == IF I.ph # "sqz" THEN ResO(I, 1, <<>>) ELSE LET r == CsSqz(I, l) IN ResO(r.i, 0, r.o)
CsCallOne(I, rb, x, n, l, nm, nmbits, s, sn) ==
    IF l = 0 \/ nmbits % 8 # 0 THEN ResO(I, 1, <<>>) ELSE ResO(I, 0, CShakeFn(rb, x, n, l, nm, s, sn))
(* what the message amounts to, and the invariant *)
CsOutOK(I, x, n) == I.l > 0 => I.o = CShakeFn(I.sp.rb, x, n, I.l, I.nm, I.s, I.sn)
CsTypeOK(I) == SpTypeOK(I.sp) /\ I.ph \in {"abs", "sqz", "fin"} /\ (I.ph # "abs" <=> I.sp.sq) /\ I.lb = I.n % 8
CsInv(I) == CsTypeOK(I) /\ CsOutOK(I, I.m, I.n) /\ (I.fl # 0 => I.ph # "sqz")

(* ---- KMAC: cs: the cSHAKE object; k, kn: key; x: message ---- *)
KmNew(rb, k, kn, fl, s, sn) ==
    LET a == LeftEnc(rb) \o LeftEnc(kn) \o BitsMask(k, kn)
        z == Zero((rb - (Len(a) % rb)) % rb)
    IN  [ty |-> "km", cs |-> [CsUpd(CsNew(rb, fl, NameKMAC, s, sn), a \o z, 8 * Len(a \o z)) EXCEPT !.m = <<>>, !.n = 0], k |-> k, kn |-> kn, x |-> <<>>]
KmCallInit(I, rb, k, kn, fl, s, sn) == Res(KmNew(rb, k, kn, fl, s, sn), 0)
KmCallUpdate(I, x, n) ==
    IF n % 8 # 0 \/ ~CsUpdOK(I.cs) THEN Res(I, 1)
    ELSE Res([I EXCEPT !.cs = [CsUpd(I.cs, x, n) EXCEPT !.m = <<>>, !.n = 0], !.x = I.x \o x], 0)
KmCallFinal(I) ==
    IF ~CsUpdOK(I.cs) THEN ResO(I, 1, <<>>)
    ELSE LET e == RightEnc(I.cs.fl) r == CsFinal([CsUpd(I.cs, e, 8 * Len(e)) EXCEPT !.m = <<>>, !.n = 0])
         IN  ResO([I EXCEPT !.cs = r.i], 0, r.o)
CsCallSqueezeIn(I, l) == LET r == CsCallSqueeze(I.cs, l) IN [r EXCEPT !.i = [I EXCEPT !.cs = r.i]]
KmCallOne(I, rb, k, kn, x, n, l, s, sn) == IF l = 0 \/ n % 8 # 0 THEN ResO(I, 1, <<>>) ELSE ResO(I, 0, KmacFn(rb, k, kn, x, l, l, s, sn))
KmInv(I) == /\ CsTypeOK(I.cs)
            /\ I.cs.l > 0 => I.cs.o = KmacFn(I.cs.sp.rb, I.k, I.kn, I.x, I.cs.l, I.cs.fl, I.cs.s, I.cs.sn)

(* ---- TupleHash: t: the elements so far ---- *)
ThNew(rb, fl, s, sn) == [ty |-> "th", cs |-> CsNew(rb, fl, NameTuple, s, sn), t |-> <<>>]
RECURSIVE ThFold(_, _, _)
ThFold(c, t, k) ==
    IF k > Len(t) THEN c
    ELSE LET e == LeftEnc(8 * Len(t[k]))
             d == CsUpd(c, e, 8 * Len(e))
         IN  ThFold([CsUpd(d, t[k], 8 * Len(t[k])) EXCEPT !.m = <<>>, !.n = 0], t, k + 1)
ThCallInit(I, rb, fl, s, sn) == Res(ThNew(rb, fl, s, sn), 0)
(* bad: the first element has a number of bits that is not a multiple of 8 *)
ThCallUpdate(I, t, bad) ==
    IF t # <<>> /\ (~CsUpdOK(I.cs) \/ bad) THEN Res(I, 1)
    ELSE Res([I EXCEPT !.cs = ThFold(I.cs, t, 1), !.t = I.t \o t], 0)
ThCallFinal(I) == KmCallFinal(I)
ThCallOne(I, rb, t, bad, l, s, sn) == IF l = 0 \/ (bad /\ t # <<>>) THEN ResO(I, 1, <<>>) ELSE ResO(I, 0, TupleFn(rb, t, l, l, s, sn))
ThInv(I) == /\ CsTypeOK(I.cs)
            /\ I.cs.l > 0 => I.cs.o = TupleFn(I.cs.sp.rb, I.t, I.cs.l, I.cs.fl, I.cs.s, I.cs.sn)

(* ---- ParallelHash: q: node of the current block (absorbed qn bytes), or    *)
(* none; f: final node (as a cSHAKE object); pw: widths handled at once       *)
IsPow2(v) == \E k \in 0..30 : v = 2^k
PhNewE(rb, e, blk, fl, s, sn, pw) ==
    LET c == CsNew(rb, fl, NameParallel, s, sn)
    IN  [ty |-> "ph", cs |-> [CsUpd(c, e, 8 * Len(e)) EXCEPT !.m = <<>>, !.n = 0], q |-> SpNew(24, rb), qn |-> 0, tot |-> 0, blk |-> blk,
         le |-> e, pw |-> pw, x |-> <<>>]
PhNew(rb, blk, fl, s, sn, pw) == PhNewE(rb, LeftEnc(blk), blk, fl, s, sn, pw)
Cv(rb, b) == SpongeFn(24, rb, b, 31, Width("K") - rb)
CsRaw(c, e) == [CsUpd(c, e, 8 * Len(e)) EXCEPT !.m = <<>>, !.n = 0]
(* w blocks of x at offset off, at once *)
RECURSIVE Cvs(_, _, _, _, _)
Cvs(rb, x, off, blk, w) == IF w = 0 THEN <<>> ELSE Cv(rb, Cut(x, off, blk)) \o Cvs(rb, x, off + blk, blk, w - 1)
CloseQ(I) ==
    LET r == SpSqz(SpPad(I.q, 31), Width("K") - I.q.rb)
    IN  [I EXCEPT !.cs = CsRaw(I.cs, r.o), !.q = SpNew(24, I.q.rb), !.qn = 0]
RECURSIVE PhBulk(_, _, _, _)
PhBulk(I, x, off, k) ==     \* gives [i, off]
    IF k > Len(I.pw) THEN [i |-> I, off |-> off]
    ELSE LET w == I.pw[k]
         IN  IF (Len(x) - off) \div w >= I.blk
             THEN PhBulk([I EXCEPT !.cs = CsRaw(I.cs, Cvs(I.q.rb, x, off, I.blk, w))], x, off + w * I.blk, k)
             ELSE PhBulk(I, x, off, k + 1)
RECURSIVE PhTail(_, _, _)
PhTail(I, x, off) ==
    IF off = Len(x) THEN I
    ELSE LET n == MinOf(Len(x) - off, I.blk)
             J == [I EXCEPT !.q = [SpAbs(SpNew(24, I.q.rb), Cut(x, off, n)) EXCEPT !.m = <<>>], !.qn = n]
         IN  PhTail(IF n = I.blk THEN CloseQ(J) ELSE J, x, off + n)
PhCallInit(I, rb, blk, fl, s, sn, pw) == IF blk < 8 \/ ~IsPow2(blk) THEN Res(I, 1) ELSE Res(PhNew(rb, blk, fl, s, sn, pw), 0)
PhCallInitE(I, rb, ex, fl, s, sn, pw) == Res(PhNewE(rb, LeftEncPow(ex), 2^MinOf(ex, 30), fl, s, sn, pw), 0)
PhUpd(I, x) ==
    LET n == IF I.qn = 0 THEN 0 ELSE MinOf(Len(x), I.blk - I.qn)
        J == IF n = 0 THEN I ELSE [I EXCEPT !.q = [SpAbs(I.q, Cut(x, 0, n)) EXCEPT !.m = <<>>], !.qn = I.qn + n]
        K == IF J.qn = J.blk THEN CloseQ(J) ELSE J
        B == PhBulk(K, x, n, 1)
        T == IF n = Len(x) THEN K ELSE PhTail(B.i, x, B.off)
    IN  [T EXCEPT !.tot = I.tot + Len(x), !.x = I.x \o x]
PhCallUpdate(I, x, n) == IF I.cs.ph # "abs" \/ n % 8 # 0 THEN Res(I, 1) ELSE Res(PhUpd(I, x), 0)
PhCallFinal(I) ==
    IF I.cs.ph # "abs" THEN ResO(I, 1, <<>>)
    ELSE LET J == IF I.qn # 0 THEN CloseQ(I) ELSE I
             e == RightEnc(Blocks(I.tot, I.blk)) \o RightEnc(I.cs.fl)
             r == CsFinal(CsRaw(J.cs, e))
         IN  ResO([J EXCEPT !.cs = r.i], 0, r.o)
PhCallOne(I, rb, x, n, blk, l, s, sn) ==
    IF l = 0 \/ blk < 8 \/ ~IsPow2(blk) \/ n % 8 # 0 THEN ResO(I, 1, <<>>) ELSE ResO(I, 0, ParFn(rb, x, blk, l, l, s, sn))
PhInv(I) == /\ CsTypeOK(I.cs) /\ I.qn < I.blk
            /\ I.cs.ph = "abs" => I.qn = I.tot % I.blk
            /\ I.cs.l > 0 => I.cs.o = ParFnE(I.cs.sp.rb, I.x, I.le, I.blk, I.cs.l, I.cs.fl, I.cs.s, I.cs.sn)
=============================================================================
