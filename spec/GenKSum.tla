------------------------------- MODULE GenKSum -----------------------------
(* Command lines.  The calls of a behaviour are the arguments of one command.  *)
EXTENDS KSum, ConPrim, GenLib, GenMachine
CONSTANT What           \* "c": util/KeccakSum; "py": the Python script, with fewer options
Opts == IF What = "py" THEN <<"--hex", "--base64", "--shake128", "--shake256", "--sha3-224", "--sha3-256", "--sha3-384", "--sha3-512">>
        ELSE <<"--hex", "--base64", "--shake128", "--shake256", "--sha3-224", "--sha3-256", "--sha3-384", "--sha3-512", "--no-suffix", "--ethereum",
               "--kangarootwelve", "--k12", "--ph128", "--ph256", "--k12", "--ph128", "--ph256", "--hex", "--no-suffix">>
(* "f", "a b", "-", ".x", "%s", "--" and a digit that makes the name different from the others *)
Names == <<<<102>>, <<97, 32, 98>>, <<45>>, <<46, 120>>, <<37, 115, 37>>, <<100, 47, 45, 45>>, <<45, 45>>>>
FName(r, k, j) == LET x == Names[1 + Draw(r, k, 6)] IN x \o (IF j > 9 THEN <<48 + (j \div 10), 48 + (j % 10)>> ELSE IF x = <<45>> THEN <<48 + j>> ELSE <<48 + j, 46>>)
Text(r, k, n) == [i \in 1..n |-> LET c == Draw(r, (k + (i % 7)) + 3, 94) IN IF i % 5 = 0 THEN 32 ELSE 33 + ((c + (i * 7)) % 94)]
(* (few blocks: the evaluation takes time) *)
Few(I, m) == IF I.alg = "ph" /\ I.blk < 8192 THEN MinOf(m, 300 * I.blk) ELSE m
FLen(I, r, k) ==
    LET c == Draw(r, k, 12)  a == Draw(r, k + 1, 4) IN
    CASE c < 5 -> PickLen(r, k + 2, I.rb, I.rb)
      [] c < 7 -> Draw(r, k + 2, 3000)
      [] c = 7 -> ((IF I.blk = 0 \/ I.blk > 20000 THEN 8192 ELSE I.blk) * (1 + a)) + (Draw(r, k + 2, 3) - 1)
      [] c = 8 -> (8192 * (1 + a)) + (Draw(r, k + 2, 3) - 1)
      [] c = 9 -> (65536 * (IF What = "py" THEN 1 ELSE 1 + (a % 2))) + (Draw(r, k + 2, 5) - 2)
      [] c = 10 -> IF What = "py" THEN Draw(r, k + 2, 9000) ELSE 65536 + Draw(r, k + 2, 9000)
      [] OTHER -> Draw(r, k + 2, 500)
BitsPick(r, k) == IF Pct(r, k, 70) THEN 8 * (1 + Draw(r, k + 1, 200)) ELSE IF Pct(r, k, 50) THEN 8 * PickSeq(r, k + 1, <<1, 2, 3, 168, 169, 136, 137, 1000>>)
                  ELSE IF Pct(r, k + 2, 10) THEN 8 * PickSeq(r, k + 3, <<65536, 65535, 65534, 49152, 32768>>) ELSE 8 * Draw(r, k + 3, 3000) + 8
KsChoose(b, I, r, final) ==
    LET c == Draw(r, 1, 100)
        file == [op |-> "ks.file", name |-> FName(r, 5, I.k), d |-> PickData(r, 20, Few(I, FLen(I, r, 22)))]
        opt == [op |-> "ks.opt", o |-> PickSeq(r, 3, Opts)]
    IN  IF I.ty = "none" THEN [op |-> "ks.start", d |-> PickData(r, 40, IF Pct(r, 42, 30) THEN 0 ELSE Draw(r, 43, 2000))]
        ELSE IF I.done THEN [op |-> "stop"]
        ELSE IF final THEN [op |-> "ks.done"]
        ELSE IF What = "py" THEN IF c < 45 THEN file ELSE IF c < 53 THEN [op |-> "ks.missing", name |-> <<110, 111>>] ELSE opt
        ELSE IF c < 30 THEN file
        ELSE IF c < 60 THEN opt
        ELSE IF c < 72 THEN [op |-> "ks.bits", n |-> BitsPick(r, 50)]
        ELSE IF c < 78 THEN [op |-> "ks.blk", n |-> IF Pct(r, 60, 2) THEN Draw(r, 61, 600) ELSE PickSeq(r, 62, <<8, 16, 32, 64, 128, 256, 1024, 4096, 8192, 65536, 131072, 1048576, 12, 65537, 4, 1>>)]
        ELSE IF c < 93 THEN IF KsBad(I) THEN opt ELSE [op |-> "ks.string", s |-> Text(r, 64, PickLen(r, 66, I.rb, I.rb))]
        ELSE IF c < 96 THEN [op |-> "ks.stdin"]
        ELSE IF c = 96 THEN [op |-> "ks.bits", n |-> PickSeq(r, 70, <<0, 7, 12, 257>>)]
        ELSE IF c = 97 THEN [op |-> "ks.missing", name |-> <<110, 111>>]
        ELSE IF c = 98 THEN [op |-> "ks.bad", name |-> PickSeq(r, 71, <<<<45, 45, 115, 104, 97, 51>>, <<45, 45, 104, 101, 120, 120>>, <<45, 45, 45>>>>)]
        ELSE opt
KsApply(I, c) ==
    CASE c.op = "ks.start" -> [i |-> [KsNew(<<>>) EXCEPT !.in = Data(c.d)], e |-> [rc |-> 0]]
      [] c.op = "ks.opt" -> KsCallOption(I, c.o)
      [] c.op = "ks.bits" -> KsCallBits(I, c.n)
      [] c.op = "ks.blk" -> KsCallBlk(I, c.n)
      [] c.op = "ks.file" -> KsCallFile(I, c.name, Data(c.d))
      [] c.op = "ks.string" -> KsCallString(I, c.s)
      [] c.op = "ks.stdin" -> KsCallStdin(I)
      [] c.op = "ks.missing" -> IF What = "py" THEN KsOk(I, <<>>) ELSE KsEnd(I, 255)
      [] c.op = "ks.bad" -> KsEnd(I, 255)
      [] c.op = "ks.done" -> IF What = "py" THEN KsOk([I EXCEPT !.done = TRUE], <<>>) ELSE KsCallDone(I)
=============================================================================
