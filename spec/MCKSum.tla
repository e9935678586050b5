------------------------------- MODULE MCKSum ------------------------------
(* The option machine against what a command line means: each parameter is    *)
(* decided by the last argument that sets it.  And the displays: digests can   *)
(* be read back from them.                                                     *)
EXTENDS KSum, SymPrim, FiniteSets
CONSTANTS MaxArgs, Bits, Blks, ByteVals, MaxDigest
VARIABLES h, I
Fips == {"--shake128", "--shake256", "--sha3-224", "--sha3-256", "--sha3-384", "--sha3-512", "--ethereum"}
Par == {"--ph128", "--ph256"}
Alg == Fips \cup Par \cup {"--k12"}
Opts == Alg \cup {"--hex", "--base64", "--no-suffix"}
Arg(o, v) == [o |-> o, v |-> v]
Args == {Arg(o, 0) : o \in Opts} \cup {Arg("-n", v) : v \in Bits} \cup {Arg("-B", v) : v \in Blks}
Apply(J, a) == (CASE a.o = "-n" -> KsCallBits(J, a.v) [] a.o = "-B" -> KsCallBlk(J, a.v) [] OTHER -> KsCallOption(J, a.o)).i
Init == h = <<>> /\ I = KsNew(<<>>)
Next == /\ Len(h) < MaxArgs
        /\ \E a \in Args : h' = Append(h, a) /\ I' = Apply(I, a)
Spec == Init /\ [][Next]_<<h, I>>

(* the last argument with an option of S; what precedes the command line is "--shake128" *)
RECURSIVE LastFrom(_, _)
LastFrom(S, k) == IF k = 0 THEN Arg("--shake128", 0) ELSE IF h[k].o \in S THEN h[k] ELSE LastFrom(S, k - 1)
Last(S) == LastFrom(S, Len(h))
Digest(o) == CASE o \in {"--shake128", "--k12", "--ph128"} -> 264 [] o \in {"--shake256", "--ph256"} -> 528 [] o = "--sha3-224" -> 224
               [] o \in {"--sha3-256", "--ethereum"} -> 256 [] o = "--sha3-384" -> 384 [] o = "--sha3-512" -> 512
Capacity(o) == CASE o \in {"--shake128", "--ph128"} -> 256 [] o \in {"--shake256", "--ph256"} -> 512 [] OTHER -> 2 * Digest(o)
Suffix(o) == CASE o \in {"--shake128", "--shake256"} -> 31 [] o \in {"--no-suffix", "--ethereum"} -> 1 [] OTHER -> 6
Denotes ==
    LET a == Last(Alg).o  n == Last(Alg \cup {"-n"})  d == Last(Alg \cup {"--hex", "--base64"}).o
    IN  /\ I.alg = (IF a \in Fips THEN "kec" ELSE IF a \in Par THEN "ph" ELSE "k12")
        /\ I.bits = (IF n.o = "-n" THEN n.v ELSE Digest(n.o))
        /\ I.b64 <=> d \in {"--base64", "--k12", "--ph128", "--ph256", "--shake128", "--shake256"}
        /\ I.alg # "k12" => I.rb = (1600 - Capacity(a)) \div 8
        /\ I.alg = "kec" => I.suf = Suffix(Last(Fips \cup {"--no-suffix"}).o)
        /\ I.alg = "ph" => I.blk = LET b == Last(Par \cup {"-B"}) IN IF b.o = "-B" THEN b.v ELSE 8192
        /\ I.k = Len(h) /\ I.nf /\ ~I.done

(* ---- reading digests back ---- *)
Val(c) == CHOOSE v \in 0..63 : B64Digit(v) = c
HVal(c) == CHOOSE v \in 0..15 : HexDigit(v) = c
Unhex(t) == [i \in 1..(Len(t) \div 2) |-> (16 * HVal(t[(2 * i) - 1])) + HVal(t[2 * i])]
Unbase64(t) ==
    LET pad == Cardinality({i \in DOMAIN t : t[i] = 61})
        Q(k) == IF t[k] = 61 THEN 0 ELSE Val(t[k])
    IN  [i \in 1..((3 * (Len(t) \div 4)) - pad) |->
            LET g == 4 * ((i - 1) \div 3)  p == (i - 1) % 3 IN
            CASE p = 0 -> (4 * Q(g + 1)) + (Q(g + 2) \div 16) [] p = 1 -> (16 * (Q(g + 2) % 16)) + (Q(g + 3) \div 4) [] p = 2 -> (64 * (Q(g + 3) % 4)) + Q(g + 4)]
Digests == UNION {[1..k -> ByteVals] : k \in 0..MaxDigest}
Readable ==
    h = <<>> => /\ \A b \in Digests : Len(Hex(b)) = 2 * Len(b) /\ Unhex(Hex(b)) = b /\ Len(Base64(b)) % 4 = 0 /\ Unbase64(Base64(b)) = b
                /\ Cardinality({B64Digit(v) : v \in 0..63}) = 64 /\ Cardinality({HexDigit(v) : v \in 0..15}) = 16
=============================================================================
