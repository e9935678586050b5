------------------------------- MODULE GenHuge ------------------------------
(* Calls with strings of 2^29 bytes and more (2^32 bits and more), or of 2^32  *)
(* bytes and more.  The functions are those of the modules Sponge, KeccakHash, *)
(* SP800185, KT, PRG, DeckModes and Xoodyak, with strings as streams and       *)
(* lengths as numbers of any size; MCHuge compares the two on small ones.      *)
EXTENDS Streams, GenMachine
CONSTANTS T,              \* period of the long strings: 4177920
          Longs,          \* the powers of two that lengths in bytes are just above: one after the other, for
          Only,           \* each of these scripts (both are sets)
          Fam,
          Chunk           \* of KangarooTwelve: 8192

(* ---- arguments ---- *)
(* a data argument is a run, or a small descriptor *)
IsRun(d) == "T" \in DOMAIN d
Sg(d) == IF IsRun(d) THEN d ELSE Lit(Gen(d.s, d.o, d.n))
BLen(d) == SegBig(Sg(d))
BitLen(d) == BMulS(BLen(d), 8)
Num(a) == [big |-> a]                       \* a number argument of any size
Bits(d) == Num(BitLen(d))
Small(d) == d.n                             \* bytes of a small descriptor
Zr == Lit(<<>>)

(* ---- sponge: st, position ix ---- *)
SpH(nr, rb) == [nr |-> nr, rb |-> rb, st |-> Zeros(200), ix |-> 0]
HAbs(h, gs) == LET a == StAbsorb(h.nr, h.st, h.ix, h.rb, <<>>, gs) IN [h EXCEPT !.st = a[1], !.ix = a[2]]
HBytes(h, x) == HAbs(h, <<Lit(x)>>)
HFill(h) == IF h.ix = 0 THEN h ELSE HBytes(h, Zeros(h.rb - h.ix))
HPad(h, d) ==
    LET s1 == CXorAt(h.st, h.ix, <<d>>)
        s2 == IF d >= 128 /\ h.ix = h.rb - 1 THEN KeccakP(h.nr, s1) ELSE s1
    IN  [h EXCEPT !.st = KeccakP(h.nr, CXorAt(s2, h.rb - 1, <<128>>)), !.ix = 0]
RECURSIVE HOut(_, _, _)
HOut(h, n, acc) ==
    IF n = 0 THEN [h |-> h, o |-> acc]
    ELSE IF h.ix = h.rb THEN HOut([h EXCEPT !.st = KeccakP(h.nr, h.st), !.ix = 0], n, acc)
    ELSE LET k == Min(n, h.rb - h.ix) IN HOut([h EXCEPT !.ix = h.ix + k], n - k, acc \o Slice(h.st, h.ix, k))
(* output as long as the run l *)
TailLen == 100
Ret(rc) == [rc |-> rc]
N(n) == Cyc(1, 0, 0, 0, n)                  \* a small number, among runs
IsN(l) == l.T = 1
HSqz(h, l) ==
    IF IsN(l) THEN LET r == HOut(h, l.r, <<>>) IN [h |-> r.h, e |-> [rc |-> 0, out |-> r.o]]
    ELSE LET a == StSkip(h.nr, h.st, h.ix, h.rb, <<>>, [l EXCEPT !.r = l.r - TailLen])
             r == HOut([h EXCEPT !.st = a[1], !.ix = a[2]], TailLen, <<>>)
         IN  [h |-> r.h, e |-> [rc |-> 0, outn |-> Num(CycBig(l)), tail |-> r.o]]
Ln8(l) == BMulS(CycBig(l), 8)         \* in bits
LnN(l) == Num(CycBig(l))
LnB(l) == Num(Ln8(l))

(* ---- SP 800-185 and KangarooTwelve encodings ---- *)
LeftE(a) == <<Len(a)>> \o a
RightE(a) == a \o <<Len(a)>>
LenE(a) == IF a = <<0>> THEN <<0>> ELSE RightE(a)
Str(x) == LeftE(Big(8 * Len(x))) \o x
NmKMAC == <<75, 77, 65, 67>>
NmTuple == <<84, 117, 112, 108, 101, 72, 97, 115, 104>>
NmParallel == <<80, 97, 114, 97, 108, 108, 101, 108, 72, 97, 115, 104>>
(* nm, s: segments *)
CsH(rb, nm, s) ==
    IF StBig(<<nm, s>>) = <<0>> THEN SpH(24, rb)
    ELSE HFill(HAbs(SpH(24, rb), <<Lit(LeftE(Big(rb)) \o LeftE(BMulS(SegBig(nm), 8))), nm, Lit(LeftE(BMulS(SegBig(s), 8))), s>>))
KmH(rb, k, s) == HFill(HAbs(CsH(rb, Lit(NmKMAC), s), <<Lit(LeftE(Big(rb)) \o LeftE(BMulS(SegBig(k), 8))), k>>))
RECURSIVE ThSegs(_)
ThSegs(t) == IF t = <<>> THEN <<>> ELSE <<Lit(LeftE(BMulS(SegBig(Sg(t[1])), 8))), Sg(t[1])>> \o ThSegs(Tail(t))
(* a number just below 2^31 is the most blocks that are counted here *)
CeilBig(a, v) == BDivS(a, v) + (IF BModS(a, v) = 0 THEN 0 ELSE 1)
(* blk: block size; gs: the message, lx: output bits, 0 for the XOF *)
PhH(rb, blk, gs, lx, s) ==
    LET h == HBytes(CsH(rb, Lit(NmParallel), s), LeftE(Big(blk)))
        a == StTree(24, h.st, h.ix, rb, 31, blk, 200 - rb, gs, 0)
    IN  HBytes([h EXCEPT !.st = a[1], !.ix = a[2]], RightE(Big(CeilBig(StBig(gs), blk))) \o RightE(lx))
(* blocks longer than any number here: bs: the blocks, le: the encoded block size *)
RECURSIVE PhCvs(_, _)
PhCvs(rb, bs) == IF bs = <<>> THEN <<>> ELSE HOut(HPad(HAbs(SpH(24, rb), bs[1]), 31), 200 - rb, <<>>).o \o PhCvs(rb, Tail(bs))
PhB(rb, le, bs, lx, s) == HBytes(CsH(rb, Lit(NmParallel), s), le \o PhCvs(rb, bs) \o RightE(Big(Len(bs))) \o RightE(lx))

RECURSIVE Take(_, _)
Take(gs, n) ==      \* the first n bytes, and fewer only if there are no more
    IF n = 0 \/ gs = <<>> THEN <<>>
    ELSE LET g == gs[1]
             m == IF g.t = "lit" THEN Min(n, Len(g.b)) ELSE IF g.q > 0 THEN n ELSE Min(n, g.r)
         IN  (IF g.t = "lit" THEN Slice(g.b, 0, m) ELSE SegBytes([g EXCEPT !.q = 0, !.r = m])) \o Take(Tail(gs), n - m)
(* gs: message, c: customization *)
KtH(rb, gs, c) ==
    LET x == gs \o <<c, Lit(LenE(SegBig(c)))>>
        n == StBig(x)
        f == HBytes(SpH(12, rb), Take(x, Chunk) \o <<3>> \o Zeros(7))
        a == StTree(12, f.st, f.ix, rb, 11, Chunk, 200 - rb, x, 1)
    IN  IF CeilBig(n, Chunk) = 1 THEN HPad(HBytes(SpH(12, rb), Take(x, Chunk)), 7)
        ELSE HPad(HBytes([f EXCEPT !.st = a[1], !.ix = a[2]], LenE(Big(CeilBig(n, Chunk) - 1)) \o <<255, 255>>), 6)

(* ---- generator on a duplex of the given rate (bits): rh bytes a call; what is fed and not yet used is in the state, ix bytes; *)
(* oi: bytes given out of the current block *)
Rh(rate) == (rate - 2) \div 8
PadAt(rate, k) == CXorAt(CXorAt(Zeros(200), k, <<1>>), (rate - 1) \div 8, <<Pow2((rate - 1) % 8)>>)
PgH(rate) == [nr |-> 24, rate |-> rate, rb |-> Rh(rate), st |-> Zeros(200), ix |-> 0, oi |-> Rh(rate)]
PgFeed(h, gs) == LET a == StAbsorb(24, h.st, h.ix, h.rb, PadAt(h.rate, h.rb), gs) IN [h EXCEPT !.st = a[1], !.ix = a[2], !.oi = h.rb]
PgDup(h) == [h EXCEPT !.st = KeccakP(24, CXorS(h.st, PadAt(h.rate, h.ix))), !.ix = 0, !.oi = 0]
RECURSIVE PgOut(_, _, _)
PgOut(h, n, acc) ==
    IF n = 0 THEN [h |-> h, o |-> acc]
    ELSE IF h.oi = h.rb THEN PgOut(PgDup(h), n, acc)
    ELSE LET k == Min(n, h.rb - h.oi) IN PgOut([h EXCEPT !.oi = h.oi + k], n - k, acc \o Slice(h.st, h.oi, k))
PgFetch(h, l) ==
    IF IsN(l) THEN LET r == PgOut(h, l.r, <<>>) IN [h |-> r.h, e |-> [rc |-> 0, out |-> r.o]]
    ELSE LET b == IF h.oi = h.rb THEN PgDup(h) ELSE h
             a == StSkip(24, b.st, b.oi, b.rb, PadAt(b.rate, 0), [l EXCEPT !.r = l.r - TailLen])
             r == PgOut([b EXCEPT !.st = a[1], !.oi = a[2]], TailLen, <<>>)
         IN  [h |-> r.h, e |-> [rc |-> 0, outn |-> Num(CycBig(l)), tail |-> r.o]]

(* ------------------------------------------------------------------------ *)
(* deck functions: k mask, kr current mask, x accumulator; the strings that    *)
(* are given out are compared at their end                                     *)
(* ------------------------------------------------------------------------ *)
Wd(kd) == CWidth(kd)
P6(kd, s) == CPerm(kd, 6, s)
(* the stream of a string with its padding: fb: the bits (value, number < 8) that follow the bytes *)
Padded(kd, gs, fv, fn) ==
    LET n == BModS(StBig(gs), Wd(kd))
    IN  gs \o <<Lit(<<fv + Pow2(fn)>> \o Zeros(Wd(kd) - 1 - n))>>
DkH(kd, key) == LET m == P6(kd, Take(Padded(kd, <<Lit(key)>>, 0, 0), Wd(kd))) IN [kd |-> kd, k |-> m, kr |-> m, x |-> Zeros(Wd(kd))]
DkStr(h, gs, fv, fn) ==
    LET a == FarSum(h.kd, Padded(h.kd, gs, fv, fn), h.x, h.kr) IN [h EXCEPT !.x = a[1], !.kr = CRollC(h.kd, a[2])]
DkNew(h) == [h EXCEPT !.x = Zeros(Wd(h.kd)), !.kr = h.k]
YOf(h, short) == IF short THEN h.x ELSE P6(h.kd, h.x)
(* n bytes of output, after `off` *)
DkO(h, short, off, n) == FarTail(h.kd, YOf(h, short), h.kr, off, Cyc(1, 0, 0, 0, n), n)
(* the run c added to the output of h after off bytes; its last bytes *)
DkEnc(h, short, c, off) == Enc(c, h.kd, YOf(h, short), h.kr, off)
RunTail(c, n) == SegBytes([c EXCEPT !.o = ((c.o + c.r) + (c.T - n)) % c.T, !.q = 0, !.r = n])       \* n < T
DkEncTail(h, short, c, off) == CXorS(RunTail(c, TailLen), FarTail(h.kd, YOf(h, short), h.kr, off, c, TailLen))
SubRun(c, a, n) == [c EXCEPT !.o = (c.o + (a % c.T)) % c.T, !.q = n \div c.T, !.r = n % c.T]

(* ---- sessions: h: the object, e: parity, tg: the last tag, p: the last plaintext ---- *)
(* A || 0 || e and C || 1 || e, or P || 01 || e and T || 11 || e *)
AddA(h, e, a, none) == IF BLen(a) # <<0>> \/ none THEN DkStr(h, <<Sg(a)>>, 2 * e, 2) ELSE h
SaneT(h) == DkO(h, FALSE, 0, 16)
SaneAll(I, a, c) == DkStr(AddA(I.h, I.e, a, FALSE), <<c>>, 1 + (2 * I.e), 2)     \* c: a segment, not empty
SaneWrapH(I, c, a) ==
    LET E == DkEnc(I.h, FALSE, c, 16)  h == SaneAll(I, a, E)
    IN  [i |-> [I EXCEPT !.h = h, !.e = 1 - I.e, !.tg = SaneT(h), !.p = c],
         e |-> [rc |-> 0, outn |-> Num(CycBig(c)), tail |-> DkEncTail(I.h, FALSE, c, 16), tag |-> SaneT(h)]]
SaneUnwrapH(I, c, a, t, ok) ==      \* c: the ciphertext
    LET h == SaneAll(I, a, c)
    IN  [i |-> [I EXCEPT !.h = h, !.e = 1 - I.e],
         e |-> [rc |-> IF t = SaneT(h) THEN 0 ELSE 1, outn |-> Num(CycBig(c)),
                tail |-> IF t = SaneT(h) THEN DkEncTail(I.h, FALSE, c, 16) ELSE Zeros(TailLen)]]
SansePre(I, a) == AddA(I.h, I.e, a, FALSE)
SanseT(I, a, c) == DkO(DkStr(SansePre(I, a), <<c>>, 2 + (4 * I.e), 3), FALSE, 0, 32)
SanseWrapH(I, c, a) ==
    LET d == SansePre(I, a)  t == SanseT(I, a, c)
        g == DkStr(d, <<Lit(t)>>, 3 + (4 * I.e), 3)
    IN  [i |-> [I EXCEPT !.h = DkStr(d, <<c>>, 2 + (4 * I.e), 3), !.e = 1 - I.e, !.tg = t, !.p = c],
         e |-> [rc |-> 0, outn |-> Num(CycBig(c)), tail |-> DkEncTail(g, FALSE, c, 0), tag |-> t]]
(* the unwrapping of the ciphertext that was kept from the wrapping of p with tag t *)
SanseUnwrapH(I, p, a, t) ==
    LET ok == SanseT(I, a, p) = t
    IN  [i |-> [I EXCEPT !.h = DkStr(SansePre(I, a), <<p>>, 2 + (4 * I.e), 3), !.e = 1 - I.e], e |-> [rc |-> 0, out |-> p]]

(* ---- wide block cipher: the string is the run c and z zero bytes, less than 2^31 bytes together ---- *)
RECURSIVE TopPow(_, _)
TopPow(q, x) == IF 2 ^ (x + 1) < q THEN TopPow(q, x + 1) ELSE 2 ^ x
NumL(c) == (c.q * c.T) + c.r
WSplitB(kd, nb) == LET q == ((nb + 2) \div Wd(kd)) + (IF (nb + 2) % Wd(kd) = 0 THEN 0 ELSE 1) IN ((q - TopPow(q, 0)) * Wd(kd)) - 1
WbH(h, gs, bit, n) == DkO(DkStr(DkNew(h), gs, bit, 1), TRUE, 0, n)
WbF(h, w, gs, bit) == DkStr(DkStr(DkNew(h), <<w>>, 0, 0), gs, bit, 1)      \* what the stream comes from
(* L: the left run; R: first block (bytes), the rest (run), zeros *)
WbSplit(kd, c, z) ==
    LET nb == NumL(c) + z  nl == WSplitB(kd, nb)  w == Wd(kd)
        r == SubRun(c, nl, NumL(c) - nl)
    IN  [l |-> SubRun(c, 0, nl), r0 |-> Take(<<r>>, w), r |-> SubRun(r, w, NumL(r) - w), z |-> Lit(Zeros(z))]
(* c enciphered: the end of the result *)
RTail(S, g, f) ==           \* g: what is added to the right part: the output f of a deck function after g bytes
    LET n == NumL(S.r)
    IN  CXorS(RunTail(S.r, TailLen), FarTail(f.kd, YOf(f, FALSE), f.kr, g, S.r, TailLen))
        \o (IF S.z.b = <<>> THEN <<>> ELSE FarTail(f.kd, YOf(f, FALSE), f.kr, 0, Cyc(1, 0, 0, 0, (g + n) + Len(S.z.b)), Len(S.z.b)))
WbcE(h, w, c, z) ==
    LET S == WbSplit(h.kd, c, z)  v == Wd(h.kd)
        r1 == CXorS(S.r0, WbH(h, <<S.l>>, 0, v))
        f1 == WbF(h, w, <<Lit(r1), S.r, S.z>>, 1)
        L1 == DkEnc(f1, FALSE, S.l, 0)
        f2 == WbF(h, w, <<L1>>, 0)
    IN  [rc |-> 0, outn |-> Num(Big(NumL(c) + z)), tail |-> RTail(S, v, f2)]
WbcD(h, w, c) ==
    LET S == WbSplit(h.kd, c, 0)  v == Wd(h.kd)
        L2 == Take(<<S.l>>, v)  Lr == SubRun(S.l, v, NumL(S.l) - v)
        l1 == CXorS(L2, WbH(h, <<Lit(S.r0), S.r>>, 1, v))
        f1 == WbF(h, w, <<Lit(l1), Lr>>, 0)
    IN  [rc |-> 0, outn |-> Num(Big(NumL(c))), tail |-> RTail(S, v, f1)]

(* ---- scripts: behaviour b of a family ---- *)
(* 2^L = q periods and r bytes *)
QR(L) == IF L > 30 THEN <<(2 ^ (L - 12)) \div (T \div 4096), 4096 * ((2 ^ (L - 12)) % (T \div 4096))>> ELSE <<(2 ^ L) \div T, (2 ^ L) % T>>
Rb(b) == RngSeed(Seed, b)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
LongSeq == Sorted(Longs)
OnlySeq == Sorted(Only)
Level(b) == LongSeq[1 + ((b - 1) \div Len(OnlySeq))]
RunL(b, k, L) == Cyc(T, 2 + Draw(Rb(b), k, 60000), Draw(Rb(b), k + 1, T), QR(L)[1], QR(L)[2] + 300 + Draw(Rb(b), k + 2, 9000))
Run(b, k) == RunL(b, k, Level(b))
Run29(b, k) == RunL(b, k, Min(Level(b), 29))        \* where longer ones take too much memory or time
Sm(b, k, n) == [s |-> 2 + Draw(Rb(b), k, 60000), o |-> 0, n |-> Draw(Rb(b), k + 1, n)]
Data1(d) == Gen(d.s, d.o, d.n)
At(b, k, s) == PickSeq(Rb(b), k, s)
Caps == <<256, 512, 448, 1024>>
(* the length l of an output goes along as lr; the number the call takes is made from it *)
OutB(l) == [n |-> LnN(l), lr |-> l]
KtOut(l) == [l |-> LnN(l), lr |-> l]
OutBits(l) == [l |-> LnB(l), lr |-> l]
Sec(b) == At(b, 90, <<168, 136>>)
Cu(s) == [s |-> s, sn |-> Bits(s)]
KeccakScript(b, s) ==
    LET cap == At(b, 80, Caps)  rate == 1600 - cap  rb == Sec(b)
        r1 == Run(b, 1)  r2 == Run(b, 5)  s1 == Sm(b, 10, 300)  s2 == Sm(b, 12, 300)
    IN  CASE s = 1 -> <<[op |-> "sp.init", rate |-> rate, cap |-> cap], [op |-> "sp.absorb", d |-> s1], [op |-> "sp.absorb", d |-> r1],
                        [op |-> "sp.absorb", d |-> s2], [op |-> "sp.last", delim |-> At(b, 81, <<1, 6, 31, 128, 255>>)],
                        [op |-> "sp.squeeze"] @@ OutB(N(50))>>
          [] s = 2 -> <<[op |-> "sp.init", rate |-> rate, cap |-> cap], [op |-> "sp.absorb", d |-> s1],
                        [op |-> "sp.squeeze"] @@ OutB(N(50)), [op |-> "sp.squeeze"] @@ OutB(r1), [op |-> "sp.squeeze"] @@ OutB(N(50))>>
          [] s = 3 -> <<[op |-> "ts.init", cap |-> At(b, 80, <<256, 512, 448>>)], [op |-> "ts.absorb", d |-> s1], [op |-> "ts.absorb", d |-> r1],
                        [op |-> "ts.squeeze"] @@ OutB(N(20)), [op |-> "ts.squeeze"] @@ OutB(r2), [op |-> "ts.squeeze"] @@ OutB(N(20))>>
          [] s = 4 -> <<[op |-> "kt.one", sec |-> 128, f |-> At(b, 82, <<0, 1>>), d |-> r1, c |-> s1] @@ KtOut(N(100))>>
          [] s = 5 -> <<[op |-> "kt.init", sec |-> 256, fl |-> 0], [op |-> "kt.update", d |-> Sm(b, 14, 20000)], [op |-> "kt.update", d |-> r1], [op |-> "kt.update", d |-> s2],
                        [op |-> "kt.final", c |-> r2, lr |-> N(0)], [op |-> "kt.squeeze"] @@ OutB(N(20)), [op |-> "kt.squeeze"] @@ OutB(r1), [op |-> "kt.squeeze"] @@ OutB(N(20))>>
          [] s = 6 -> <<[op |-> "ph.one", rb |-> rb, blk |-> 8192, d |-> r1, n |-> Bits(r1)] @@ OutBits(N(40)) @@ Cu(s1)>>
          [] s = 7 -> <<[op |-> "kh.init", rate |-> 1344, cap |-> 256, fl |-> 0, delim |-> 31], [op |-> "kh.update", d |-> s1, nbits |-> Bits(s1)],
                        [op |-> "kh.update", d |-> r1, nbits |-> Bits(r1)], [op |-> "kh.update", d |-> s2, nbits |-> Bits(s2)], [op |-> "kh.final", lr |-> N(0)],
                        [op |-> "kh.squeeze", nbits |-> LnB(N(9)), lr |-> N(9)], [op |-> "kh.squeeze", nbits |-> LnB(r2), lr |-> r2], [op |-> "kh.squeeze", nbits |-> LnB(N(9)), lr |-> N(9)]>>
          [] s = 8 -> <<[op |-> "cs.init", rb |-> rb, fl |-> 0, nm |-> Run29(b, 3), nb |-> Bits(Run29(b, 3))] @@ Cu(Run29(b, 7)), [op |-> "cs.update", d |-> r1, n |-> Bits(r1)],
                        [op |-> "cs.final", lr |-> N(0)], [op |-> "cs.squeeze"] @@ OutBits(r2), [op |-> "cs.squeeze"] @@ OutBits(N(30))>>
          [] s = 9 -> <<[op |-> "km.one", rb |-> rb, k |-> Run29(b, 3), kn |-> Bits(Run29(b, 3)), d |-> r1, n |-> Bits(r1)] @@ Cu(s1) @@ OutBits(r2)>>
          [] s = 10 -> <<[op |-> "km.init", rb |-> rb, k |-> Run29(b, 3), kn |-> Bits(Run29(b, 3)), fl |-> LnB(r2), lr |-> r2] @@ Cu(s1),
                         [op |-> "km.update", d |-> r1, n |-> Bits(r1)], [op |-> "km.final"]>>
          [] s = 11 -> <<[op |-> "th.one", rb |-> rb, bad |-> 0, t |-> <<s1, Run29(b, 3), s2>>] @@ Cu(s1) @@ OutBits(r1)>>
          [] s = 12 -> <<[op |-> "th.init", rb |-> rb, fl |-> Num(<<0>>), lr |-> N(0)] @@ Cu(Run29(b, 3)), [op |-> "th.update", bad |-> 0, t |-> <<s2, s1>>],
                         [op |-> "th.update", bad |-> 0, t |-> <<r1>>], [op |-> "th.final"], [op |-> "th.squeeze"] @@ OutBits(N(40)), [op |-> "th.squeeze"] @@ OutBits(r2)>>
          [] s = 13 -> <<[op |-> "ph.init", rb |-> rb, blk |-> 4096, fl |-> LnB(N(50)), lr |-> N(50)] @@ Cu(s1), [op |-> "ph.update", d |-> s2, n |-> Bits(s2)],
                         [op |-> "ph.update", d |-> r1, n |-> Bits(r1)], [op |-> "ph.update", d |-> s2, n |-> Bits(s2)], [op |-> "ph.final"]>>
          [] s = 14 -> <<[op |-> "prg.init", cap |-> 256], [op |-> "prg.feed", d |-> s1], [op |-> "prg.feed", d |-> r1], [op |-> "prg.fetch"] @@ OutB(N(70)),
                         [op |-> "prg.feed", d |-> s2], [op |-> "prg.fetch"] @@ OutB(r2), [op |-> "prg.fetch"] @@ OutB(N(70))>>
          [] s = 15 -> <<[op |-> "kh.one", f |-> At(b, 82, <<1, 2>>), d |-> r1] @@ OutB(r2)>>
          [] s = 16 -> <<[op |-> "kh.one", f |-> At(b, 82, <<3, 4, 5, 6>>), d |-> r1] @@ OutB(N(At(b, 82, <<28, 32, 48, 64>>)))>>
          [] s = 17 -> <<[op |-> "sp.one", rate |-> rate, cap |-> cap, delim |-> 6, d |-> r1] @@ OutB(r2)>>
          [] s = 18 -> <<[op |-> "ts.one", cap |-> At(b, 80, <<256, 512, 448>>), delim |-> 7, d |-> r1] @@ OutB(r2)>>
          [] s = 19 -> <<[op |-> "kt.one", sec |-> 256, f |-> At(b, 82, <<0, 1>>), d |-> s1, c |-> r1] @@ KtOut(r2)>>
          [] s = 20 -> <<[op |-> "cs.one", rb |-> rb, nm |-> s2, nb |-> Bits(s2), d |-> r1, n |-> Bits(r1)] @@ Cu(Run29(b, 3)) @@ OutBits(r2)>>
          (* blocks of 2^Long bytes, two of them *)
          [] s = 21 -> <<[op |-> "ph.init", rb |-> rb, be |-> Level(b), fl |-> Num(<<0>>), lr |-> N(0)] @@ Cu(s1), [op |-> "ph.update", d |-> s2, n |-> Bits(s2)],
                         [op |-> "ph.update", d |-> r1, n |-> Bits(r1)], [op |-> "ph.final"], [op |-> "ph.squeeze"] @@ OutBits(N(33))>>
          [] OTHER -> <<>>
DeckScript(kd, b, s) ==
    LET r1 == Run(b, 1)  r2 == Run(b, 5)  s1 == Sm(b, 10, 300)  s2 == Sm(b, 12, 300)  p == Run29(b, 1)
        key == [s |-> 3 + b, o |-> 0, n |-> At(b, 70, <<16, 24, 32, 47>>)]
        Op(c) == [c EXCEPT !.op = (IF kd = "K" THEN "kra." ELSE "xof.") \o c.op]
        Mask == Op([op |-> "mask", d |-> key, b |-> 8 * key.n])
        Se(f) == Op([op |-> f, k |-> key, kb |-> 8 * key.n] @@ (IF f = "sane.init" THEN [d |-> s1, b |-> Bits(s1)] ELSE <<>>))
    IN  CASE s = 1 -> <<Mask, Op([op |-> "comp", d |-> s1, b |-> Bits(s1), ini |-> TRUE, last |-> FALSE]), Op([op |-> "comp", d |-> r1, b |-> Bits(r1), ini |-> FALSE, last |-> FALSE]),
                        Op([op |-> "comp", d |-> s2, b |-> Bits(s2), ini |-> FALSE, last |-> TRUE]), Op([op |-> "exp", sh |-> FALSE, last |-> FALSE, b |-> LnB(N(37)), lr |-> N(37)]),
                        Op([op |-> "exp", sh |-> FALSE, last |-> TRUE, b |-> LnB(r2), lr |-> r2])>>
          [] s = 2 -> <<Mask, Op([op |-> "one", d |-> r1, b |-> Bits(r1), m |-> LnB(r2), lr |-> r2, ini |-> TRUE, sh |-> TRUE])>>
          [] s = 3 -> <<Se("sane.init"), Op([op |-> "sane.wrap", d |-> p, b |-> Bits(p), a |-> s2, ab |-> Bits(s2), mem |-> 1]),
                        Op([op |-> "sane.wrap", d |-> p, b |-> Bits(p), a |-> r1, ab |-> Bits(r1), mem |-> 1])>>
          [] s = 4 -> <<Se("sane.init"), Op([op |-> "sane.unwrap", c |-> r1, b |-> Bits(r1), a |-> Run29(b, 9), ab |-> Bits(Run29(b, 9)), good |-> TRUE, mem |-> 1]),
                        Op([op |-> "sane.unwrap", c |-> r2, b |-> Bits(r2), a |-> s2, ab |-> Bits(s2), good |-> FALSE, mem |-> 1])>>
          [] s = 5 -> <<Se("sanse.init"), Op([op |-> "sanse.wrap", d |-> p, b |-> Bits(p), a |-> s2, ab |-> Bits(s2), keep |-> 1]),
                        Se("sanse.init"), Op([op |-> "sanse.unwrap", c |-> "prev", b |-> Bits(p), a |-> s2, ab |-> Bits(s2), mem |-> 1])>>
          [] s = 6 -> <<Mask, Op([op |-> "wbc.e", d |-> p, b |-> Bits(p), w |-> s2, wb |-> Bits(s2), keep |-> 1]),
                        Op([op |-> "wbc.d", d |-> "prev", b |-> Bits(p), w |-> s2, wb |-> Bits(s2), mem |-> 1, back |-> p])>>
          [] s = 7 -> <<Mask, Op([op |-> "wbc.d", d |-> p, b |-> Bits(p), w |-> Run29(b, 9), wb |-> Bits(Run29(b, 9)), mem |-> 1])>>
          [] s = 8 -> <<Mask, Op([op |-> "wbcae.e", d |-> p, b |-> Bits(p), w |-> s2, wb |-> Bits(s2), keep |-> 1]),
                        Op([op |-> "wbcae.d", d |-> "prev", b |-> Bits(p), w |-> s2, wb |-> Bits(s2), mem |-> 1, back |-> p])>>
          [] OTHER -> <<>>
XoodyakScript(b, s) ==
    LET r1 == Run(b, 1)  r2 == Run(b, 5)  s1 == Sm(b, 10, 27)  key == [s |-> 3 + b, o |-> 0, n |-> 16]  no == [s |-> 2, o |-> 0, n |-> 0]
        Sq(o, l) == [op |-> o, n |-> LnN(l), lr |-> l]
    IN  CASE s = 1 -> <<[op |-> "xk.init", k |-> key, id |-> s1, c |-> s1], [op |-> "xk.absorb", d |-> r1], Sq("xk.squeeze", N(40)), Sq("xk.key", r2), Sq("xk.squeeze", N(30))>>
          [] s = 2 -> <<[op |-> "xk.init", k |-> key, id |-> s1, c |-> no], [op |-> "xk.enc", ip |-> 0, d |-> r1], Sq("xk.squeeze", N(40)),
                        [op |-> "xk.dec", ip |-> 0, d |-> r2], Sq("xk.squeeze", N(40))>>
          [] s = 3 -> <<[op |-> "xk.init", k |-> no, id |-> no, c |-> no], [op |-> "xk.absorb", d |-> s1], [op |-> "xk.absorb", d |-> Run29(b, 1)], Sq("xk.squeeze", r2), Sq("xk.squeeze", N(20))>>
          [] OTHER -> <<>>
(* the standalone implementations *)
CompactScript(b, s) ==
    LET r1 == Run(b, 1)  r2 == Run(b, 5)  s1 == Sm(b, 10, 300)  cap == At(b, 80, Caps)  f == At(b, 82, <<1, 2>>)
        nOut == N(30 + Draw(Rb(b), 71, 200))
    IN  CASE s = 1 -> <<[op |-> "co.keccak", rate |-> 1600 - cap, cap |-> cap, delim |-> At(b, 81, <<1, 6, 31, 128, 255>>), d |-> r1] @@ OutB(nOut)>>
          [] s = 2 -> <<[op |-> "co.fn", f |-> f, d |-> r1] @@ OutB(nOut)>>
          [] s = 3 -> <<[op |-> "co.keccak", rate |-> 1600 - cap, cap |-> cap, delim |-> At(b, 81, <<1, 6, 31, 128, 255>>), d |-> s1] @@ OutB(r2)>>
          [] s = 4 -> <<[op |-> "co.fn", f |-> f, d |-> s1] @@ OutB(r2)>>
          [] s = 5 -> <<[op |-> "co.k12", d |-> r1, c |-> s1] @@ KtOut(N(100))>>
          [] s = 6 -> <<[op |-> "co.k12", d |-> s1, c |-> r1] @@ KtOut(nOut)>>
          [] s = 7 -> <<[op |-> "co.k12", d |-> s1, c |-> s1] @@ KtOut(r2)>>
          [] OTHER -> <<>>
Script(b) ==
    LET s == OnlySeq[1 + ((b - 1) % Len(OnlySeq))] IN
    CASE Fam = "keccak" -> KeccakScript(b, s) [] Fam = "kra" -> DeckScript("K", b, s) [] Fam = "xof" -> DeckScript("X", b, s) [] Fam = "co" -> CompactScript(b, s) [] OTHER -> XoodyakScript(b, s)

(* ---- what the calls return; an instance is [k: calls so far, h: state, and what else its family keeps] ---- *)
Opn(c) == IF Fam \in {"kra", "xof"} THEN SubSeq(c.op, 5, Len(c.op)) ELSE c.op
St(I, h) == [i |-> [I EXCEPT !.h = h], e |-> Ret(0)]
Give(I, r) == [i |-> [I EXCEPT !.h = r.h], e |-> r.e]
Rec(I, f, v) == [i |-> [I EXCEPT !.x = [g \in (DOMAIN I.x) \cup {f} |-> IF g = f THEN v ELSE I.x[g]]], e |-> Ret(0)]
Also(r, f, v) == [r EXCEPT !.i.x = [g \in (DOMAIN r.i.x) \cup {f} |-> IF g = f THEN v ELSE r.i.x[g]]]
Final(I, h, l) == IF l = N(0) THEN [i |-> [I EXCEPT !.h = h], e |-> [rc |-> 0, out |-> <<>>]] ELSE Give(I, HSqz(h, l))
FipsR == <<168, 136, 144, 136, 104, 72>>
FipsRate == <<168, 136>>
KeccakApply(I, c) ==
    LET o == c.op IN
    CASE o = "sp.init" -> St(I, SpH(24, c.rate \div 8))
      [] o = "ts.init" -> St(I, SpH(12, (1600 - c.cap) \div 8))
      [] o \in {"sp.absorb", "ts.absorb"} -> St(I, HAbs(I.h, <<Sg(c.d)>>))
      [] o = "sp.last" -> Also(St(I, HPad(I.h, c.delim)), "pad", TRUE)
      [] o \in {"sp.squeeze", "ts.squeeze"} -> Also(Give(I, HSqz(IF "pad" \in DOMAIN I.x THEN I.h ELSE HPad(I.h, 1), c.lr)), "pad", TRUE)
      [] o = "sp.one" -> Give(I, HSqz(HPad(HAbs(SpH(24, c.rate \div 8), <<Sg(c.d)>>), c.delim), c.lr))
      [] o = "ts.one" -> Give(I, HSqz(HPad(HAbs(SpH(12, (1600 - c.cap) \div 8), <<Sg(c.d)>>), c.delim), c.lr))
      [] o = "co.keccak" -> Give(I, HSqz(HPad(HAbs(SpH(24, c.rate \div 8), <<Sg(c.d)>>), c.delim), c.lr))
      [] o = "co.fn" -> Give(I, HSqz(HPad(HAbs(SpH(24, FipsRate[c.f]), <<Sg(c.d)>>), 31), c.lr))
      [] o = "co.k12" -> Give(I, HSqz(KtH(168, <<Sg(c.d)>>, Sg(c.c)), c.lr))
      [] o = "kt.one" -> Give(I, HSqz(KtH(200 - (c.sec \div 4), <<Sg(c.d)>>, Sg(c.c)), c.lr))
      [] o = "kt.init" -> Also(Rec(I, "gs", <<>>), "rb", 200 - (c.sec \div 4))
      [] o = "kt.update" -> Rec(I, "gs", Append(I.x.gs, Sg(c.d)))
      [] o = "kt.final" -> Final(I, KtH(I.x.rb, I.x.gs, Sg(c.c)), c.lr)
      [] o = "kt.squeeze" -> Give(I, HSqz(I.h, c.lr))
      [] o = "kh.init" -> Also(St(I, SpH(24, c.rate \div 8)), "d", c.delim)
      [] o = "kh.update" -> St(I, HAbs(I.h, <<Sg(c.d)>>))
      [] o = "kh.final" -> Final(I, HPad(I.h, I.x.d), c.lr)
      [] o = "kh.squeeze" -> Give(I, HSqz(I.h, c.lr))
      [] o = "kh.one" -> Give(I, HSqz(HPad(HAbs(SpH(24, FipsR[c.f]), <<Sg(c.d)>>), IF c.f < 3 THEN 31 ELSE 6), c.lr))
      [] o = "cs.init" -> St(I, CsH(c.rb, Sg(c.nm), Sg(c.s)))
      [] o = "cs.update" -> St(I, HAbs(I.h, <<Sg(c.d)>>))
      [] o = "cs.final" -> Final(I, HPad(I.h, 4), c.lr)
      [] o \in {"cs.squeeze", "th.squeeze", "ph.squeeze"} -> Give(I, HSqz(I.h, c.lr))
      [] o = "cs.one" -> Give(I, HSqz(HPad(HAbs(CsH(c.rb, Sg(c.nm), Sg(c.s)), <<Sg(c.d)>>), 4), c.lr))
      [] o = "km.init" -> Also(St(I, KmH(c.rb, Sg(c.k), Sg(c.s))), "l", c.lr)
      [] o = "km.update" -> St(I, HAbs(I.h, <<Sg(c.d)>>))
      [] o = "km.final" -> Final(I, HPad(HBytes(I.h, RightE(Ln8(I.x.l))), 4), I.x.l)
      [] o = "km.one" -> Give(I, HSqz(HPad(HBytes(HAbs(KmH(c.rb, Sg(c.k), Sg(c.s)), <<Sg(c.d)>>), RightE(Ln8(c.lr))), 4), c.lr))
      [] o = "th.init" -> Also(St(I, CsH(c.rb, Lit(NmTuple), Sg(c.s))), "l", c.lr)
      [] o = "th.update" -> St(I, HAbs(I.h, ThSegs(c.t)))
      [] o = "th.final" -> Final(I, HPad(HBytes(I.h, RightE(Ln8(I.x.l))), 4), I.x.l)
      [] o = "th.one" -> Give(I, HSqz(HPad(HBytes(HAbs(CsH(c.rb, Lit(NmTuple), Sg(c.s)), ThSegs(c.t)), RightE(Ln8(c.lr))), 4), c.lr))
      [] o = "ph.init" -> Also(Rec(I, "gs", <<>>), "c", c)
      [] o = "ph.update" -> Rec(I, "gs", Append(I.x.gs, Sg(c.d)))
      [] o = "ph.final" ->
           LET a == I.x.c  lx == Ln8(a.lr) IN
           IF "be" \notin DOMAIN a THEN Final(I, HPad(PhH(a.rb, a.blk, I.x.gs, lx, Sg(a.s)), 4), a.lr)
           ELSE LET g == I.x.gs                 \* a small string and a run that begins in the first block and ends in the second
                    cut == [g[2] EXCEPT !.q = QR(a.be)[1], !.r = QR(a.be)[2] - Len(g[1].b)]
                    rest == [g[2] EXCEPT !.o = ((g[2].o + cut.r) % g[2].T), !.q = 0, !.r = g[2].r - cut.r]
                    le == LeftE(<<Pow2(a.be % 8)>> \o Zeros(a.be \div 8))
                IN  Final(I, HPad(PhB(a.rb, le, <<<<g[1], cut>>, <<rest>>>>, lx, Sg(a.s)), 4), a.lr)
      [] o = "ph.one" -> Give(I, HSqz(HPad(PhH(c.rb, c.blk, <<Sg(c.d)>>, Ln8(c.lr), Sg(c.s)), 4), c.lr))
      [] o = "prg.init" -> St(I, PgH(1600 - c.cap))
      [] o = "prg.feed" -> St(I, PgFeed(I.h, <<Sg(c.d)>>))
      [] o = "prg.fetch" -> Give(I, PgFetch(I.h, c.lr))
DkSt(I, h) == [i |-> [I EXCEPT !.h = h], e |-> Ret(0)]
DeckApply(kd, I, c) ==
    LET o == Opn(c)
        Out(h, short, off, l) == IF IsN(l) THEN [rc |-> 0, out |-> DkO(h, short, off, l.r)]
                                 ELSE [rc |-> 0, outn |-> Num(CycBig(l)), tail |-> FarTail(kd, YOf(h, short), h.kr, off, l, TailLen)]
    IN  CASE o = "mask" -> Rec([I EXCEPT !.h = DkH(kd, Data1(c.d))], "gs", <<>>)
          [] o = "comp" -> IF c.last THEN Also(DkSt(I, DkStr(I.h, Append(I.x.gs, Sg(c.d)), 0, 0)), "off", 0) ELSE Rec(I, "gs", Append(IF c.ini THEN <<>> ELSE I.x.gs, Sg(c.d)))
          [] o = "exp" -> Also([i |-> I, e |-> Out(I.h, c.sh, I.x.off, c.lr)], "off", IF IsN(c.lr) THEN I.x.off + c.lr.r ELSE 0)
          [] o = "one" -> [i |-> I, e |-> Out(DkStr(DkNew(I.h), <<Sg(c.d)>>, 0, 0), c.sh, 0, c.lr)]
          [] o = "sane.init" -> LET h == DkStr(DkH(kd, Data1(c.k)), <<Sg(c.d)>>, 0, 0) IN [i |-> [I EXCEPT !.h = h, !.e = 0], e |-> [rc |-> 0, out |-> SaneT(h)]]
          [] o = "sanse.init" -> [i |-> [I EXCEPT !.h = DkH(kd, Data1(c.k)), !.e = 0], e |-> Ret(0)]
          [] o = "sane.wrap" -> SaneWrapH(I, c.d, c.a)
          [] o = "sanse.wrap" -> SanseWrapH(I, c.d, c.a)
          [] o = "sane.unwrap" -> SaneUnwrapH(I, c.c, c.a, c.t, TRUE)
          [] o = "sanse.unwrap" -> SanseUnwrapH(I, I.p, c.a, c.t)
          [] o = "wbc.e" -> [i |-> I, e |-> WbcE(I.h, Sg(c.w), c.d, 0)]
          [] o = "wbcae.e" -> [i |-> I, e |-> WbcE(I.h, Sg(c.w), c.d, 16)]
          [] o = "wbc.d" -> IF "back" \in DOMAIN c THEN [i |-> I, e |-> [rc |-> 0, out |-> c.back]] ELSE [i |-> I, e |-> WbcD(I.h, Sg(c.w), c.d)]
          [] o = "wbcae.d" -> [i |-> I, e |-> [rc |-> 0, outn |-> Num(Big(NumL(c.back) + 16)), tail |-> RunTail(c.back, TailLen) \o Zeros(16)]]
(* tags of unwrappings *)
DeckFill(kd, I, c) ==
    LET o == Opn(c) IN
    CASE o = "sane.unwrap" -> [t |-> IF c.good THEN SaneT(SaneAll(I, c.a, c.c)) ELSE Gen(9, 0, 16)] @@ c
      [] o = "sanse.unwrap" -> [t |-> I.tg] @@ c
      [] OTHER -> c

(* Xoodyak: s: state, up: phase, hash *)
XkH(I, s, up) == [i |-> [I EXCEPT !.h = s, !.x = [I.x EXCEPT !.up = up]], e |-> Ret(0)]
XkRs(I) == IF I.x.hash THEN 16 ELSE 24
XkApply(I, c) ==
    LET o == c.op IN
    CASE o = "xk.init" ->
           IF c.k.n = 0 THEN [i |-> [I EXCEPT !.h = Zeros(48), !.x = [hash |-> TRUE, up |-> TRUE]], e |-> Ret(0)]
           ELSE LET s == CyAbsorb(Zeros(48), TRUE, FALSE, 44, 2, <<Lit(Data1(c.k) \o Data1(c.id) \o <<c.id.n>>)>>)
                IN  [i |-> [I EXCEPT !.h = IF c.c.n = 0 THEN s ELSE CyAbsorb(s, FALSE, FALSE, 1, 0, <<Sg(c.c)>>), !.x = [hash |-> FALSE, up |-> FALSE]], e |-> Ret(0)]
      [] o = "xk.absorb" -> XkH(I, CyAbsorb(I.h, I.x.up, I.x.hash, IF I.x.hash THEN 16 ELSE 44, 3, <<Sg(c.d)>>), FALSE)
      [] o \in {"xk.squeeze", "xk.key"} ->
           LET l == c.lr
               w == IF IsN(c.lr) THEN c.lr.r ELSE TailLen
               q == CySqueeze(I.h, I.x.hash, XkRs(I), IF o = "xk.key" THEN 32 ELSE 64, l, w)
           IN  [i |-> [I EXCEPT !.h = q[1], !.x = [I.x EXCEPT !.up = TRUE]],
                e |-> IF IsN(c.lr) THEN [rc |-> 0, out |-> q[2]] ELSE [rc |-> 0, outn |-> Num(CycBig(l)), tail |-> q[2]]]
      [] o \in {"xk.enc", "xk.dec"} ->
           LET q == CyCrypt(I.h, 24, o = "xk.dec", c.d, TailLen)
           IN  [i |-> [I EXCEPT !.h = q[1], !.x = [I.x EXCEPT !.up = FALSE]], e |-> [rc |-> 0, outn |-> Num(CycBig(c.d)), tail |-> q[2]]]

Fresh == [ty |-> "huge", k |-> 0, h |-> <<>>, x |-> [none |-> 0], e |-> 0, tg |-> <<>>, p |-> <<>>]
Inst(I) == IF I.ty = "none" THEN Fresh ELSE I
HugeChoose(b, I, r, final) ==
    LET s == Script(b)  k == Inst(I).k + 1
    IN  IF k > Len(s) THEN [op |-> "stop"] ELSE IF Fam \in {"kra", "xof"} THEN DeckFill("", Inst(I), s[k]) ELSE s[k]
HugeApply(I0, c) ==
    LET I == [Inst(I0) EXCEPT !.k = @ + 1]
    IN  IF c.op = "stop" THEN [i |-> I, e |-> Ret(0)]
        ELSE CASE Fam \in {"keccak", "co"} -> KeccakApply(I, c) [] Fam = "kra" -> DeckApply("K", I, c) [] Fam = "xof" -> DeckApply("X", I, c) [] OTHER -> XkApply(I, c)
(* the call records carry lr, good and back for the specification only; the driver ignores them *)
HugeInv(I) == I.k >= 1
=============================================================================
