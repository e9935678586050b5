------------------------------- MODULE GenLib ------------------------------
(* Choices shared by the generators.                                         *)
EXTENDS Rng
(* A length near the places where something changes, given the room left in  *)
(* the current block and the block size.                                     *)
PickLen(r, k, rem, blk) ==
    LET c == Draw(r, k, 16)
        a == Draw(r, k + 1, 7)
    IN  CASE c = 0 -> 0
          [] c = 1 -> 1
          [] c = 2 -> IF rem > 0 THEN rem - 1 ELSE 0
          [] c \in {3, 4} -> rem
          [] c = 5 -> rem + 1
          [] c = 6 -> rem + blk
          [] c = 7 -> rem + blk * a + a
          [] c = 8 -> blk
          [] c = 9 -> blk * (1 + a)
          [] c = 10 -> IF blk > 1 THEN blk * (1 + a) - 1 ELSE 0
          [] c \in {11, 12} -> Draw(r, k + 2, blk + 1)
          [] c = 13 -> Draw(r, k + 2, (rem + 1))
          [] c = 14 -> Draw(r, k + 2, 17)
          [] OTHER -> Draw(r, k + 2, 3 * blk + 2)
PickData(r, k, n) == [s |-> IF Draw(r, k, 12) < 2 THEN Draw(r, k, 12) ELSE 2 + Draw(r, k + 1, 60000), o |-> 0, n |-> n]
PickOf(r, k, S) == PickSeq(r, k, S)
Pct(r, k, p) == Draw(r, k, 100) < p
=============================================================================
