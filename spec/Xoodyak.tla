------------------------------ MODULE Xoodyak ------------------------------
(* Xoodyak: the Cyclist mode on Xoodoo[12].  lib/high/Xoodyak                   *)
EXTENDS Prim
CONSTANTS Rhash, Rkin, Rkout, LRatchet      \* 16, 44, 24, 16

Res(i) == [i |-> i, e |-> [rc |-> 0]]
ResO(i, o) == [i |-> i, e |-> [rc |-> 0, out |-> o]]

(* ------------------------------------------------------------------------ *)
(* A. The mode as a sequence of moves of a full-state duplex, a function of    *)
(* the history alone.  A move is an Up (permute after adding the constant cu)  *)
(* or a Down (add the block x, padding and the constant cd).                   *)
(* ------------------------------------------------------------------------ *)
Up(cu) == [t |-> "up", x |-> <<>>, c |-> cu]
Down(x, cd) == [t |-> "down", x |-> x, c |-> cd]
Move(s, m, hash) ==
    IF m.t = "up" THEN Perm("X", 12, IF hash THEN s ELSE XorAt(s, Len(s) - 1, Bytes1(m.c)))
    ELSE XorAt(XorAt(XorAt(s, 0, m.x), Len(m.x), Bytes1(1)), Len(s) - 1, Bytes1(IF hash THEN m.c % 2 ELSE m.c))
RECURSIVE After(_, _, _)
After(s, ms, hash) == IF ms = <<>> THEN s ELSE After(Move(s, ms[1], hash), SubSeq(ms, 2, Len(ms)), hash)
LastUp(ms) == ms = <<>> \/ ms[Len(ms)].t = "up"
(* the blocks of x: at least one, all but the last of r bytes, and none empty unless x is *)
Blocks(x, r) == [i \in 1..MaxOf(1, CeilDiv(Len(x), r)) |-> Cut(x, r * (i - 1), MinOf(r, Len(x) - (r * (i - 1))))]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
AbsorbMoves(up, x, r, cd) ==
    LET b == Blocks(x, r)
    IN  Flat([i \in 1..Len(b) |-> (IF i = 1 /\ up THEN <<>> ELSE <<Up(0)>>) \o <<Down(b[i], IF i = 1 THEN cd ELSE 0)>>])
SqueezeMoves(n, r, cu) == Flat([i \in 1..MaxOf(1, CeilDiv(n, r)) |-> IF i = 1 THEN <<Up(cu)>> ELSE <<Down(<<>>, 0), Up(0)>>])
CryptMoves(p) == LET b == Blocks(p, Rkout) IN Flat([i \in 1..Len(b) |-> <<Up(IF i = 1 THEN 128 ELSE 0), Down(b[i], 0)>>])
KeyMoves(K, id, ctr) == AbsorbMoves(TRUE, K \o id \o Bytes1(Len(id)), Rkin, 2) \o (IF ctr = <<>> THEN <<>> ELSE AbsorbMoves(FALSE, ctr, 1, 0))
(* the bytes extracted at the Ups of the moves ms made from state s, the n first of them, r at a time *)
RECURSIVE Outs(_, _, _, _, _)
Outs(s, ms, hash, r, n) ==
    IF ms = <<>> \/ n <= 0 THEN <<>>
    ELSE LET u == Move(s, ms[1], hash) IN
         IF ms[1].t = "up" THEN Cut(u, 0, MinOf(n, r)) \o Outs(u, SubSeq(ms, 2, Len(ms)), hash, r, n - r)
         ELSE Outs(u, SubSeq(ms, 2, Len(ms)), hash, r, n)

(* ------------------------------------------------------------------------ *)
(* B. The object: s state, up: phase, hash: mode; m: the moves so far          *)
(* ------------------------------------------------------------------------ *)
Ra(I) == IF I.hash THEN Rhash ELSE Rkin
Rs(I) == IF I.hash THEN Rhash ELSE Rkout
DoUp(I, cu) == LET a == IF I.hash THEN I.s ELSE XorAt(I.s, Len(I.s) - 1, Bytes1(cu))
               IN  [I EXCEPT !.s = Perm("X", 12, a), !.up = TRUE, !.m = Append(I.m, Up(cu))]
DoDown(I, x, cd) ==
    LET a == XorAt(XorAt(I.s, 0, x), Len(x), Bytes1(1))
    IN  [I EXCEPT !.s = XorAt(a, Len(a) - 1, Bytes1(IF I.hash THEN cd % 2 ELSE cd)), !.up = FALSE, !.m = Append(I.m, Down(x, cd))]
RECURSIVE AbsorbAny(_, _, _, _)
AbsorbAny(I, x, r, cd) ==
    LET J == IF I.up THEN I ELSE DoUp(I, 0)
        t == MinOf(Len(x), r)
        K == DoDown(J, Cut(x, 0, t), cd)
    IN  IF t = Len(x) THEN K ELSE AbsorbAny(K, Cut(x, t, Len(x) - t), r, 0)
RECURSIVE SqueezeMore(_, _, _)
SqueezeMore(I, n, acc) ==
    IF n = 0 THEN [i |-> I, o |-> acc]
    ELSE LET J == DoUp(DoDown(I, <<>>, 0), 0)  t == MinOf(n, Rs(I)) IN SqueezeMore(J, n - t, acc \o Cut(J.s, 0, t))
SqueezeAny(I, n, cu) == LET J == DoUp(I, cu)  t == MinOf(n, Rs(I)) IN SqueezeMore(J, n - t, Cut(J.s, 0, t))
RECURSIVE Crypt(_, _, _, _, _)
Crypt(I, x, dec, cu, acc) ==
    LET t == MinOf(Len(x), Rkout)
        J == DoUp(I, cu)
        y == XorS(Cut(x, 0, t), Cut(J.s, 0, t))
        K == DoDown(J, IF dec THEN y ELSE Cut(x, 0, t), 0)
    IN  IF t = Len(x) THEN [i |-> K, o |-> acc \o y] ELSE Crypt(K, Cut(x, t, Len(x) - t), dec, 0, acc \o y)

XkNew(K, id, ctr) ==
    LET I == [ty |-> "xk", s |-> Zero(Width("X")), up |-> TRUE, hash |-> K = <<>>, m |-> <<>>, h |-> <<[t |-> "init", k |-> K, id |-> id, c |-> ctr]>>]
    IN  IF K = <<>> THEN I
        ELSE LET J == AbsorbAny(I, K \o id \o Bytes1(Len(id)), Rkin, 2)
             IN  IF ctr = <<>> THEN J ELSE AbsorbAny(J, ctr, 1, 0)
(* h: the history of calls, where a decryption counts as the encryption it undoes *)
Hist(I, op) == [I EXCEPT !.h = Append(I.h, op)]
XkCallInit(I, K, id, ctr) == Res(XkNew(K, id, ctr))
XkCallAbsorb(I, x) == Res(Hist(AbsorbAny(I, x, Ra(I), 3), [t |-> "abs", x |-> x]))
XkCallSqueeze(I, n) == LET r == SqueezeAny(I, n, 64) IN ResO(Hist(r.i, [t |-> "sq", n |-> n]), r.o)
XkCallKey(I, n) == LET r == SqueezeAny(I, n, 32) IN ResO(Hist(r.i, [t |-> "key", n |-> n]), r.o)
XkCallEnc(I, x) == LET r == Crypt(I, x, FALSE, 128, <<>>) IN ResO(Hist(r.i, [t |-> "crypt", x |-> x]), r.o)
XkCallDec(I, x) == LET r == Crypt(I, x, TRUE, 128, <<>>) IN ResO(Hist(r.i, [t |-> "crypt", x |-> r.o]), r.o)
XkCallRatchet(I) ==
    LET r == SqueezeAny(I, LRatchet, 16) IN Res(Hist(AbsorbAny(r.i, r.o, Rkin, 0), [t |-> "ratchet"]))

(* what holds: the state is the one the moves of the history lead to           *)
MovesOf(op, s, up, hash) ==
    LET ra == IF hash THEN Rhash ELSE Rkin  rs == IF hash THEN Rhash ELSE Rkout IN
    CASE op.t = "init" -> IF op.k = <<>> THEN <<>> ELSE KeyMoves(op.k, op.id, op.c)
      [] op.t = "abs" -> AbsorbMoves(up, op.x, ra, 3)
      [] op.t = "sq" -> SqueezeMoves(op.n, rs, 64)
      [] op.t = "key" -> SqueezeMoves(op.n, rs, 32)
      [] op.t = "crypt" -> CryptMoves(op.x)
      [] op.t = "ratchet" -> LET q == SqueezeMoves(LRatchet, rs, 16) IN q \o AbsorbMoves(TRUE, Outs(s, q, hash, rs, LRatchet), ra, 0)
RECURSIVE HMoves(_, _, _)
HMoves(h, s, hash) ==
    IF h = <<>> THEN [m |-> <<>>, s |-> s, up |-> TRUE]
    ELSE LET p == HMoves(SubSeq(h, 1, Len(h) - 1), s, hash)
             q == MovesOf(h[Len(h)], p.s, p.up, hash)
             m == p.m \o q
         IN  [m |-> m, s |-> After(p.s, q, hash), up |-> LastUp(m)]
XkInv(I) ==
    /\ Len(I.s) = Width("X") /\ I.hash = (I.h[1].k = <<>>)
    /\ LET d == HMoves(I.h, Zero(Width("X")), I.hash) IN I.m = d.m /\ I.s = d.s /\ I.up = d.up
(* the last output, from the definition *)
XkOut(I, op) == LET q == MovesOf(op, I.s, I.up, I.hash) IN Outs(I.s, q, I.hash, Rs(I), op.n)
=============================================================================
