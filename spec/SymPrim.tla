------------------------------ MODULE SymPrim ------------------------------
(* Symbolic binding of Prim.  A byte is a set of <<position, atom>>; the      *)
(* atoms are the constant bit, bits of messages and bits of permuted states.  *)
(* XOR is symmetric difference, so two byte strings are equal as values iff    *)
(* they are equal for every message and every (generic) permutation.          *)
EXTENDS Naturals, Sequences, Intern
CONSTANT SymWidth       \* state width in bytes, e.g. 3

SymDiff(a, b) == (a \ b) \cup (b \ a)
SWidth(k) == SymWidth
SXorS(a, b) == [i \in 1..Len(a) |-> SymDiff(a[i], b[i])]
SXorAt(s, off, d) == [i \in 1..Len(s) |->
    IF i > off /\ i <= off + Len(d) THEN SymDiff(s[i], d[i - off]) ELSE s[i]]
SByt(v) == {<<p, <<0, 0, 0>>>> : p \in {q \in 0..7 : (v \div 2^q) % 2 = 1}}
SLow(b, n) == {x \in b : x[1] < n}
SData(d) == [k \in 1..d.n |-> {<<p, <<1, d.s, d.o + k>>>> : p \in 0..7}]
SPerm(k, nr, s) ==
    LET id == Intern(<<k, nr, s>>)
    IN  [i \in 1..Len(s) |-> {<<p, <<2, id, i>>>> : p \in 0..7}]
=============================================================================
