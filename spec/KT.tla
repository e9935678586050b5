--------------------------------- MODULE KT --------------------------------
(* KangarooTwelve: KT128 (rate 168) and KT256 (rate 136).                     *)
(* lib/high/KangarooTwelve, on TurboSHAKE.                                    *)
EXTENDS Sponge
CONSTANTS Chunk,        \* 8192
          Lane          \* 8: what follows the first chunk is a whole number of lanes

RECURSIVE KNat(_)
KNat(v) == IF v = 0 THEN <<>> ELSE KNat(v \div 256) \o <<v % 256>>
LenEnc(v) == ByteSeq(KNat(v) \o <<Len(KNat(v))>>)
(* a message is a sequence of descriptors *)
RECURSIVE Bytes(_)
Bytes(ds) == IF ds = <<>> THEN <<>> ELSE Bytes(SubSeq(ds, 1, Len(ds) - 1)) \o Data(ds[Len(ds)])

(* ------------------------------------------------------------------------ *)
(* A. RFC 9861: tree hash over x = message || customization || length         *)
(* ------------------------------------------------------------------------ *)
KCv(rb, b) == SpongeFn(12, rb, b, 11, Width("K") - rb)
RECURSIVE KChain(_, _, _)
KChain(rb, x, off) ==
    IF off >= Len(x) THEN <<>> ELSE KCv(rb, Cut(x, off, MinOf(Chunk, Len(x) - off))) \o KChain(rb, x, off + Chunk)
FF == Bytes1(255) \o Bytes1(255)
KtTree(rb, x, l) ==
    IF Len(x) <= Chunk THEN SpongeFn(12, rb, x, 7, l)
    ELSE SpongeFn(12, rb, Cut(x, 0, Chunk) \o Bytes1(3) \o Zero(Lane - 1) \o KChain(rb, x, Chunk)
                          \o LenEnc(CeilDiv(Len(x), Chunk) - 1) \o FF, 6, l)
KtFn(rb, m, c, l) == KtTree(rb, m \o c \o LenEnc(Len(c)), l)

(* ------------------------------------------------------------------------ *)
(* B. The object: f: final node; q: node of the current leaf; qn: bytes in the *)
(* current chunk; bn: complete chunks; ph: "abs", "sqz", "fin".               *)
(* d: message so far, as descriptors; c: customization; o: output             *)
(* ------------------------------------------------------------------------ *)
Bare(s) == [s EXCEPT !.m = <<>>]
KtNew(rb, fl) == [ty |-> "kt", f |-> SpNew(12, rb), q |-> SpNew(12, rb), qn |-> 0, bn |-> 0, fl |-> fl, ph |-> "abs",
                  d |-> <<>>, c |-> <<>>, o |-> <<>>]
KtCallInit(I, sec, fl) == IF sec \notin {128, 256} THEN Res(I, 1) ELSE Res(KtNew(Width("K") - (sec \div 4), fl), 0)
FAbs(I, x) == [I EXCEPT !.f = Bare(SpAbsLoop(I.f, x, 0))]
KtClose(I) ==
    LET r == SpSqz(SpPad(I.q, 11), Width("K") - I.q.rb) IN [FAbs(I, r.o) EXCEPT !.q = SpNew(12, I.q.rb), !.qn = 0, !.bn = I.bn + 1]
RECURSIVE KLeaves(_, _, _, _)
KLeaves(rb, x, off, w) == IF w = 0 THEN <<>> ELSE KCv(rb, Cut(x, off, Chunk)) \o KLeaves(rb, x, off + Chunk, w - 1)
RECURSIVE KtBulk(_, _, _, _)
KtBulk(I, x, off, pw) ==
    IF pw = <<>> THEN [i |-> I, off |-> off]
    ELSE IF Len(x) - off >= Chunk * pw[1]
         THEN KtBulk([FAbs(I, KLeaves(I.q.rb, x, off, pw[1])) EXCEPT !.bn = I.bn + pw[1]], x, off + Chunk * pw[1], pw)
         ELSE KtBulk(I, x, off, SubSeq(pw, 2, Len(pw)))
RECURSIVE KtTail(_, _, _)
KtTail(I, x, off) ==
    IF off = Len(x) THEN I
    ELSE LET n == MinOf(Len(x) - off, Chunk)
             J == [I EXCEPT !.q = Bare(SpAbsLoop(SpNew(12, I.q.rb), Cut(x, off, n), 0)), !.qn = n]
         IN  KtTail(IF n = Chunk THEN KtClose(J) ELSE J, x, off + n)
RoundUp(n) == Lane * CeilDiv(n, Lane)
KtUpd(I, x, pw) ==
    LET n == MinOf(Len(x), Chunk - I.qn)
        first == I.bn = 0
        J == IF first THEN [FAbs(I, Cut(x, 0, n)) EXCEPT !.qn = I.qn + n]
             ELSE IF I.qn = 0 THEN I ELSE [I EXCEPT !.q = Bare(SpAbsLoop(I.q, Cut(x, 0, n), 0)), !.qn = I.qn + n]
        used == IF first \/ I.qn # 0 THEN n ELSE 0
        K == IF J.qn = Chunk /\ first /\ used < Len(x)
             THEN LET a == FAbs(J, Bytes1(3)) IN [a EXCEPT !.qn = 0, !.bn = 1, !.f = [a.f EXCEPT !.ix = RoundUp(a.f.ix)]]
             ELSE IF J.qn = Chunk /\ ~first THEN KtClose(J) ELSE J
        B == KtBulk(K, x, used, pw)
    IN  IF used = Len(x) THEN K ELSE KtTail(B.i, x, B.off)
KtCallUpdate(I, d, pw) == IF I.ph # "abs" THEN Res(I, 1) ELSE Res([KtUpd(I, Data(d), pw) EXCEPT !.d = Append(I.d, d)], 0)
KtSqz(I, n) == LET r == SpSqz(I.f, n) IN [i |-> [I EXCEPT !.f = [r.i EXCEPT !.o = <<>>], !.o = I.o \o r.o], o |-> r.o]
KtCallFinal(I, d, pw) ==
    IF I.ph # "abs" THEN ResO(I, 1, <<>>)
    ELSE LET J == KtUpd(IF d.n = 0 THEN I ELSE KtUpd(I, Data(d), pw), LenEnc(d.n), pw)
             K == IF J.bn # 0 /\ J.qn # 0 THEN KtClose(J) ELSE J
             L == IF J.bn = 0 THEN [K EXCEPT !.f = SpPad(K.f, 7)]
                  ELSE LET a == FAbs(K, LenEnc(K.bn - 1) \o FF) IN [a EXCEPT !.f = SpPad(a.f, 6)]
             r == KtSqz(L, I.fl)
             ph == IF I.fl = 0 THEN "sqz" ELSE "fin"
         IN  ResO([r.i EXCEPT !.ph = ph, !.c = d], 0, r.o)
KtCallSqueeze(I, n) == IF I.ph # "sqz" THEN ResO(I, 1, <<>>) ELSE LET r == KtSqz(I, n) IN ResO(r.i, 0, r.o)
KtCallOne(I, sec, d, c, l) ==
    IF l = 0 \/ sec \notin {128, 256} THEN ResO(I, 1, <<>>) ELSE ResO(I, 0, KtFn(Width("K") - (sec \div 4), Data(d), Data(c), l))

RECURSIVE Total(_)
Total(ds) == IF ds = <<>> THEN 0 ELSE ds[1].n + Total(SubSeq(ds, 2, Len(ds)))
KtInv(I) ==
    /\ SpTypeOK(I.f) /\ SpTypeOK(I.q)
    /\ I.ph = "abs" => LET n == Total(I.d) IN
          IF n <= Chunk THEN I.bn = 0 /\ I.qn = n ELSE I.bn = n \div Chunk /\ I.qn = n % Chunk
    /\ I.o # <<>> => I.o = KtFn(I.f.rb, Bytes(I.d), Data(I.c), Len(I.o))
=============================================================================
