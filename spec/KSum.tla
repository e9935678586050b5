-------------------------------- MODULE KSum -------------------------------
(* util/KeccakSum and Standalone/CompactFIPS202/Python/KeccakSum.py: a command *)
(* line is processed from left to right; options change what the following     *)
(* names are hashed with and how digests are shown; each file name (or string)  *)
(* gives a line.  At the end, standard input is hashed if no file was named.    *)
EXTENDS KT, SP800185

(* alg: "kec", "k12", "ph"; rb: rate in bytes; bits: of the digest; suf; blk: of ParallelHash; b64: display; nf: no file so far *)
(* in: standard input not read so far; done: processing has ended *)
KsNew(in) == [ty |-> "ks", alg |-> "kec", rb |-> 168, bits |-> 264, suf |-> 31, blk |-> 0, b64 |-> TRUE, nf |-> TRUE, in |-> in, done |-> FALSE, k |-> 0]
Sel(I, rb, bits, suf, b64) == [I EXCEPT !.alg = "kec", !.rb = rb, !.bits = bits, !.suf = suf, !.b64 = b64]
(* (the digest of ParallelHash and KangarooTwelve does not depend on suf) *)
KsOption(I, o) ==
    CASE o = "--hex" -> [I EXCEPT !.b64 = FALSE]
      [] o = "--base64" -> [I EXCEPT !.b64 = TRUE]
      [] o = "--shake128" -> Sel(I, 168, 264, 31, TRUE)
      [] o = "--shake256" -> Sel(I, 136, 528, 31, TRUE)
      [] o = "--sha3-224" -> Sel(I, 144, 224, 6, FALSE)
      [] o = "--sha3-256" -> Sel(I, 136, 256, 6, FALSE)
      [] o = "--sha3-384" -> Sel(I, 104, 384, 6, FALSE)
      [] o = "--sha3-512" -> Sel(I, 72, 512, 6, FALSE)
      [] o = "--no-suffix" -> [I EXCEPT !.suf = 1]
      [] o = "--ethereum" -> Sel(I, 136, 256, 1, FALSE)
      [] o \in {"--kangarootwelve", "--k12"} -> [I EXCEPT !.alg = "k12", !.bits = 264, !.b64 = TRUE]
      [] o = "--ph128" -> [I EXCEPT !.alg = "ph", !.rb = 168, !.bits = 264, !.blk = 8192, !.b64 = TRUE]
      [] o = "--ph256" -> [I EXCEPT !.alg = "ph", !.rb = 136, !.bits = 528, !.blk = 8192, !.b64 = TRUE]

KsDigest(I, m) ==
    LET n == I.bits \div 8 IN
    CASE I.alg = "kec" -> SpongeFn(24, I.rb, m, I.suf, n)
      [] I.alg = "k12" -> KtFn(168, m, <<>>, n)
      [] I.alg = "ph" -> ParFn(I.rb, m, I.blk, I.bits, I.bits, <<>>, 0)

(* ---- display: texts are sequences of character codes ---- *)
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Hex(b) == [i \in 1..(2 * Len(b)) |-> HexDigit(IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16)]
B64Digit(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 43 ELSE 47
(* three bytes make four digits; a last group of one or two bytes is filled up with zero bits, then with "=" *)
Base64(b) ==
    LET At(k) == IF k <= Len(b) THEN b[k] ELSE 0
    IN  [i \in 1..(4 * CeilDiv(Len(b), 3)) |->
            LET g == (i - 1) \div 4  p == (i - 1) % 4  x == At((3 * g) + 1)  y == At((3 * g) + 2)  z == At((3 * g) + 3)
            IN  CASE p = 0 -> B64Digit(x \div 4)
                  [] p = 1 -> B64Digit(((x % 4) * 16) + (y \div 16))
                  [] p = 2 -> IF (3 * g) + 2 > Len(b) THEN 61 ELSE B64Digit(((y % 16) * 4) + (z \div 64))
                  [] p = 3 -> IF (3 * g) + 3 > Len(b) THEN 61 ELSE B64Digit(z % 64)]
KsLine(I, m, name) == (IF I.b64 THEN Base64(KsDigest(I, m) \o <<>>) ELSE Hex(KsDigest(I, m) \o <<>>)) \o <<32, 32>> \o name \o <<10>>

(* ---- what each argument does: the instance, and what is written ---- *)
KsOk(i, text) == [i |-> [i EXCEPT !.k = @ + 1], e |-> [rc |-> 0, out |-> text]]
KsEnd(I, rc) == [i |-> [I EXCEPT !.done = TRUE, !.k = @ + 1], e |-> [rc |-> rc]]          \* ends at once, with a message
KsCallOption(I, o) == KsOk(KsOption(I, o), <<>>)
KsCallBits(I, n) == IF n > 0 /\ n % 8 = 0 THEN KsOk([I EXCEPT !.bits = n], <<>>) ELSE KsEnd(I, 255)
KsCallBlk(I, n) == IF n > 0 THEN KsOk([I EXCEPT !.blk = n], <<>>) ELSE KsEnd(I, 255)
(* what cannot be computed: block sizes other than powers of two from 8, digests over 65536 bytes *)
KsBad(I) == I.bits > 524288 \/ (I.alg = "ph" /\ (I.blk < 8 \/ ~IsPow2(I.blk)))
KsCallFile(I, name, m) == IF KsBad(I) THEN KsEnd(I, 255) ELSE KsOk([I EXCEPT !.nf = FALSE], KsLine(I, m, name))
KsCallString(I, s) == KsOk(I, KsLine(I, s, <<34>> \o s \o <<34>>))
Dash == <<45>>
KsCallStdin(I) == IF KsBad(I) THEN KsEnd(I, 255) ELSE KsOk([I EXCEPT !.nf = FALSE, !.in = <<>>], KsLine(I, I.in, Dash))
(* the end of the command line *)
KsCallDone(I) == IF I.nf /\ KsBad(I) THEN KsEnd(I, 255) ELSE IF I.nf THEN KsOk([I EXCEPT !.done = TRUE, !.in = <<>>], KsLine(I, I.in, Dash)) ELSE KsOk([I EXCEPT !.done = TRUE], <<>>)

KsInv(I) == I.bits > 0 /\ I.bits % 8 = 0 /\ I.rb \in {168, 136, 144, 104, 72} /\ (I.alg = "ph" => I.blk > 0 /\ I.rb \in {168, 136})
=============================================================================
