----------------------------- MODULE MCCShake ------------------------------
(* cSHAKE and KMAC objects under every short sequence of calls.              *)
EXTENDS SP800185, SymPrim, TLC, FiniteSets
CONSTANTS Rb, Sizes, Outs, MaxCalls, MaxBits
VARIABLES I, last, calls
vars == <<I, last, calls>>
Cu(n) == [d |-> SData([s |-> 90, o |-> 0, n |-> CeilDiv(n, 8)]), n |-> n]
Init == /\ calls = 0 /\ last = 0
        /\ \/ \E nm \in {0, 2}, sn \in {0, 5, 8, 19}, fl \in {0, 8, 13} :
                I = CsNew(Rb, fl, SData([s |-> 91, o |-> 0, n |-> nm]), BitsMask(Cu(sn).d, sn), sn)
           \/ \E kn \in {0, 5, 8, 32}, sn \in {0, 11}, fl \in {0, 13} :
                I = KmNew(Rb, SData([s |-> 92, o |-> 0, n |-> CeilDiv(kn, 8)]), kn, fl, BitsMask(Cu(sn).d, sn), sn)
Do(r) == I' = r.i /\ last' = r.e.rc /\ calls' = calls + 1
X(n) == SData([s |-> calls + 1, o |-> 0, n |-> CeilDiv(n, 8)])
Bits == IF I.ty = "cs" THEN I.n ELSE 8 * Len(I.x)
OutL == IF I.ty = "cs" THEN I.l ELSE I.cs.l
Next == calls < MaxCalls /\
    IF I.ty = "cs"
    THEN \/ \E n \in Sizes : I.n + n <= MaxBits /\ Do(CsCallUpdate(I, X(n), n))
         \/ Do(CsCallFinal(I))
         \/ \E l \in Outs : I.l + l <= MaxBits /\ Do(CsCallSqueeze(I, l))
    ELSE \/ \E n \in Sizes : Bits + n <= MaxBits /\ Do(KmCallUpdate(I, X(n), n))
         \/ Do(KmCallFinal(I))
         \/ \E l \in Outs : I.cs.l + l <= MaxBits /\ Do(CsCallSqueezeIn(I, l))
Spec == Init /\ [][Next]_vars
Inv == IF I.ty = "cs" THEN CsInv(I) ELSE KmInv(I)
Refused == [][last' = 1 => I' = I]_vars
(* output starts only by Final, and a fixed output length closes the object   *)
Cs(J) == IF J.ty = "cs" THEN J ELSE J.cs
Phases == [][/\ (Cs(I).ph # Cs(I').ph) => (Cs(I).ph = "abs" \/ Cs(I').ph = "fin")
             /\ Cs(I).ph = "fin" => last' = 1 /\ I' = I]_vars
(* the encodings are decodable: distinct and not a prefix of one another      *)
Vals == 0..300 \cup {65535, 65536, 70000, 16777216}
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
ASSUME \A a, b \in Vals : a # b => ~IsPre(LeftEnc(a), LeftEnc(b)) /\ ~IsPre(Rev(RightEnc(a)), Rev(RightEnc(b)))
(* names and customizations are separated: no two give the same prefix        *)
Str(S, k) == UNION {[1..j -> S] : j \in 0..k}
ASSUME LET S == Str({0, 1, 8}, 2)
           Q == {<<a, b>> : a \in S, b \in S} \ {<<<<>>, <<>>>>}
           F == [q \in Q |-> Prefix(Rb, ByteSeq(q[1]), ByteSeq(q[2]), 8 * Len(q[2]))]
       IN  Cardinality({F[q] : q \in Q}) = Cardinality(Q)
ASSUME \A n \in 0..16 : Len(Prefix(Rb, <<Byt(1)>>, Fill(Byt(7), n), 8 * n)) % Rb = 0
=============================================================================
