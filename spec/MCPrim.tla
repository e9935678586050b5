------------------------------- MODULE MCPrim ------------------------------
(* Evaluates the primitive operators and emits the values; run once with and *)
(* once without the Java overrides, and the two outputs are compared.        *)
EXTENDS KeccakP, Xoodoo, Rolls, Rng
CONSTANTS Samples
VARIABLE n
Init == n = 0
S(k) == Gen(3 + 17 * k, 5 * k, 200)
Next == /\ n < Samples /\ n' = n + 1
        /\ PrintT(<<"K", n, KeccakP(24 - ((7 * n) % 25), S(n))>>)
        /\ PrintT(<<"X", n, XoodooP(12 - (n % 13), Gen(101 + n, 9, 48))>>)
        /\ PrintT(<<"B", n, CXorS(Gen(n, 0, 20), Gen(2, n, 20)), CAndS(Gen(5, 3, 9), Gen(n + 2, 0, 9)),
                    CXorAt(Gen(7, 0, 12), n % 5, Gen(8, n, 3)), PutAt(Gen(7, 0, 12), n % 5, Gen(8, n, 3)),
                    Slice(Gen(9, 0, 30), n, 7), Rep(n, 3), Minstd(1 + 99991 * n), Minstd(2147483646 - n)>>)
        /\ PrintT(<<"R", n, CRollC("K", S(n)), CRollE("K", S(n)), CRollC("X", Gen(50 + n, 1, 48)), CRollE("X", Gen(60 + n, 3, 48))>>)
        /\ (n = 0 => PrintT(<<"A", KAbsorbBlocks(1, S(1), 72, Gen(11, 0, 150)), KAbsorbRepeated(1, S(2), 24, Gen(12, 0, 7), 3)>>))
Spec == Init /\ [][Next]_n
=============================================================================
