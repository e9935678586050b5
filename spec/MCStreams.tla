------------------------------ MODULE MCStreams -----------------------------
(* Evaluates the operators on streams, with short ones; run once with and     *)
(* once without the Java overrides, and the two outputs are compared.         *)
EXTENDS Streams, Rng
CONSTANTS Samples
VARIABLE n
Init == n = 0
C(k, T, m) == LET len == Draw(RngSeed(n + 1, k), 1, m) + 20 IN Cyc(T, 2 + (k * 37) + n, Draw(RngSeed(n, k), 2, T), len \div T, len % T)
St(k) == <<Lit(Gen(90 + k, n, Draw(RngSeed(n, k), 3, 30))), C(k, 37, 300), Lit(<<>>), C(k + 1, 61, 200)>>
S(k) == Gen(3 + 17 * k + n, 5 * k, 200)
X(k) == Gen(3 + 19 * k + n, 5 * k, 48)
Pad(gs, w) == LET l == Len(StBytes(gs)) IN Append(gs, Lit(Rep(7, (w - (l % w)) % w)))
E(k, kd, w) == <<Enc(C(k, 53, 150), kd, IF kd = "K" THEN S(9) ELSE X(9), IF kd = "K" THEN S(8) ELSE X(8), (n * 31) % 230), Lit(<<1, 2>>)>>
Next == /\ n < Samples /\ n' = n + 1
        /\ PrintT(<<"A", n, StAbsorb(12, S(1), 5 * n, 72, <<>>, St(1)), StAbsorb(6, S(2), n, 24, Zeros(24) \o <<129, n>>, St(2))>>)
        /\ PrintT(<<"B", n, StSkip(7, S(1), 16 + n, 72, <<>>, C(3, 41, 300)), StSkip(3, S(1), 24, 24, <<1, 0, 128>>, C(4, 41, 100))>>)
        /\ PrintT(<<"T", n, StTree(2, S(3), n, 40, 31, 56, 44, St(4), n % 3)>>)
        /\ PrintT(<<"F", n, FarSum("K", Pad(St(5), 200), S(4), S(5)), FarSum("X", Pad(E(1, "X", 48), 48), X(4), X(5))>>)
        /\ PrintT(<<"G", n, FarSum("K", Pad(E(2, "K", 200), 200), S(4), S(5)), FarTail("X", X(1), X(2), 17 * n, C(6, 40, 300), 20), FarTail("K", S(1), S(2), 0, C(6, 40, 300), 20)>>)
        /\ PrintT(<<"X", n, CyAbsorb(X(1), n % 2 = 0, n % 3 = 0, 16 + n, 3, St(7)), CyAbsorb(X(1), n % 2 = 1, FALSE, 44, 2, <<Lit(<<>>)>>), CySqueeze(X(2), n % 2 = 0, 24, 64, C(8, 40, 300), 19)>>)
        /\ PrintT(<<"Y", n, CyCrypt(X(3), 24, n % 2 = 0, C(9, 40, 300), 20)>>)
        /\ PrintT(<<"N", BAdd(Big(70000 * n), BMulS(Big(4177920), 1028 + n)), BModS(<<1, 2, 3, 4, 5>>, 8191 + n), BDivS(<<1, 2, 3, 4, 5>>, 8191 + n)>>)
(* numbers: against the values they stand for *)
RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE (Val(SubSeq(a, 1, Len(a) - 1)) * 256) + a[Len(a)]
Numbers == \A a \in {0, 1, 255, 256, 65535, 65536, 999999 + n} : \A b \in {0, 1, 2, 200, 256, 1000 + n} :
    /\ Val(Big(a)) = a /\ Big(a) = BAddS(Big(a), 0)
    /\ BAdd(Big(a), Big(b)) = Big(a + b) /\ BAddS(Big(a), b) = Big(a + b) /\ BMulS(Big(a), b) = Big(a * b)
    /\ b > 0 => BModS(Big(a), b) = a % b /\ BDivS(Big(a), b) = a \div b
Spec == Init /\ [][Next]_n
=============================================================================
