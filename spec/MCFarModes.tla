----------------------------- MODULE MCFarModes -----------------------------
(* Sessions and wide block ciphers on a symbolic deck function.  Two sessions  *)
(* with the same key and nonce: A wraps, B unwraps what A produced, or         *)
(* something else.                                                             *)
EXTENDS DeckModes, SymPrim, TLC
CONSTANTS Mode, MaxP, MaxA, MaxCalls, Lens
VARIABLES A, B, m, calls
vars == <<A, B, m, calls>>
SRollC(k, s) == SPerm("rc", 0, s)
SRollE(k, s) == SPerm("re", 0, s)
Str(s, n) == BStr(Data([s |-> s, o |-> 0, n |-> CeilDiv(n, 8)]), n)
Key == Data([s |-> 9, o |-> 0, n |-> 1])
New == IF Mode = "sane" THEN SaCallInit([ty |-> "none"], "X", Key, 8, Data([s |-> 8, o |-> 0, n |-> 1]), 5).i
       ELSE SsCallInit([ty |-> "none"], "X", Key, 8).i
None == [t |-> "none"]
Init == A = New /\ B = New /\ m = None /\ calls = 0
Send == /\ m.t = "none" /\ calls < MaxCalls
        /\ \E n \in Lens, a \in Lens :
             LET P == Str(10 + calls, n)  D == Str(20 + calls, a)  r == IF Mode = "sane" THEN SaWrap(A, P, D) ELSE SsWrap(A, P, D)
             IN  A' = r.i /\ m' = [t |-> "msg", p |-> P, a |-> D, c |-> [d |-> r.c, n |-> n], g |-> r.t]
        /\ calls' = calls + 1 /\ B' = B
Un(I, c, a, g) == IF Mode = "sane" THEN SaUnwrap(I, c, a, g) ELSE SsUnwrap(I, c, a, g)
Receive == /\ m.t = "msg" /\ LET r == Un(B, m.c, m.a, m.g) IN B' = r.i /\ m' = [m EXCEPT !.t = IF r.ok /\ r.p = m.p.d THEN "none" ELSE "broken"]
           /\ UNCHANGED <<A, calls>>
(* one bit of ciphertext, metadata or tag flipped, or the metadata cut or extended *)
Flip(s, j) == [d |-> XorAt(s.d, j \div 8, Bytes1(2 ^ (j % 8))), n |-> s.n]
Forged == {[m EXCEPT !.c = Flip(m.c, j)] : j \in 0..(m.c.n - 1)} \cup {[m EXCEPT !.a = Flip(m.a, j)] : j \in 0..(m.a.n - 1)}
          \cup {[m EXCEPT !.g = XorAt(m.g, j, Bytes1(64))] : j \in 0..(Len(m.g) - 1)}
          \cup {[m EXCEPT !.a = AppendBits(m.a, <<0, k>>)] : k \in {1, 2, 8}}
          \cup (IF m.a.n > 0 THEN {[m EXCEPT !.a = BStr(m.a.d, m.a.n - 1)]} ELSE {})
Key1 == BStr(Key, 8)
Next == Send \/ Receive
Spec == Init /\ [][Next]_vars
Inv == /\ SeInv(A) /\ SeInv(B) /\ m.t # "broken"
       /\ m.t = "none" => A = B
       /\ m.t = "msg" => \A f \in Forged : LET r == Un(B, f.c, f.a, f.g) IN ~r.ok /\ r.p = Zero(Len(m.c.d))
(* ciphertexts and tags are the ones of the mode for the history *)
Outputs == [][m.t = "none" /\ m'.t = "msg" =>
    IF Mode = "sane"
    THEN /\ m'.c.d = XorS(m'.p.d, SaneStream("X", Key1, A.h, m'.p.n))
         /\ m'.g = SaneTag("X", Key1, SaneHist(A.h, A.e, m'.a, m'.c))
    ELSE LET h1 == SansePre(A.h, A.e, m'.a, m'.p.n)
         IN  /\ m'.g = SanseTag("X", Key1, SanseHist(h1, A.e, m'.p))
             /\ m'.p.n > 0 => m'.c.d = XorS(m'.p.d, SanseStream("X", Key1, h1, A.e, m'.g, m'.p.n))]_vars
(* wide block cipher: deciphering inverts enciphering for every length, and redundancy is checked *)
WLens == 0..(8 * 4 * SymWidth + 12)
ASSUME Mode = "wbc" => \A n \in WLens : LET s == Str(3, n)  W == Str(4, n % 19)  c == WbcFn("X", Key1, W, s)
                                        IN  /\ Len(c.d) = CeilDiv(n, 8) /\ BStr(c.d, n) = c /\ WSplit("X", n) \in 0..n /\ WSplit("X", n) % 8 = 0
                                            /\ WbcInv("X", Key1, W, c) = s
ASSUME Mode = "wbc" => \A n \in WLens : LET s == Str(3, n)  W == Str(4, n % 19)  z == WithZero(s)  c == WbcFn("X", Key1, W, z)
                                        IN  /\ WbcAeOpen("X", Key1, W, c) = [ok |-> TRUE, p |-> z]
                                            /\ (z.n > 8 => ~WbcAeOpen("X", Key1, W, Flip(c, (7 * n) % c.n)).ok)
=============================================================================
