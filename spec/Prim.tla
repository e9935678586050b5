-------------------------------- MODULE Prim -------------------------------
(* What the constructions are built on.  The constant operators are bound    *)
(*  - to concrete bytes and permutations (module ConPrim) when behaviours    *)
(*    are generated for, or traces come from, the real code;                 *)
(*  - to free terms (module SymPrim) when TLC explores a construction        *)
(*    exhaustively: XOR is then symmetric difference of sets of atoms and    *)
(*    a permutation is an uninterpreted function.                            *)
EXTENDS Naturals, Sequences

CONSTANTS Width(_),        \* state size in bytes, per permutation kind
          Perm(_, _, _),   \* Perm(kind, rounds, state)
          XorS(_, _),      \* XOR of two byte strings of the same length
          XorAt(_, _, _),  \* XorAt(s, off, d): s with d XORed in at offset off
          Byt(_),          \* the byte with this (constant) value
          Low(_, _),       \* Low(b, n): byte b with only its n low bits kept
          Data(_)          \* the byte string of a data descriptor

Cut(s, off, n) == SubSeq(s, off + 1, off + n)
Put(s, off, d) == SubSeq(s, 1, off) \o d \o SubSeq(s, off + Len(d) + 1, Len(s))
Fill(b, n) == [i \in 1..n |-> b]
Zero(n) == [i \in 1..n |-> Byt(0)]
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Bytes1(v) == <<Byt(v)>>
RECURSIVE ByteSeq(_)
ByteSeq(vs) == [i \in 1..Len(vs) |-> Byt(vs[i])]

(* Bit strings are pairs [d: bytes, n: number of bits]; the last byte is      *)
(* partial when n is not a multiple of 8, its unused high bits are ignored.   *)
BitsMask(d, n) ==
    IF n % 8 = 0 THEN d ELSE Cut(d, 0, n \div 8) \o <<Low(d[(n \div 8) + 1], n % 8)>>
=============================================================================
