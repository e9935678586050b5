-------------------------------- MODULE Rng --------------------------------
(* Deterministic pseudo-random choices that drive the generation of          *)
(* behaviours: `rng` is part of the state, so that a behaviour is a function *)
(* of its seed and TLC's breadth-first search enumerates all of them.        *)
EXTENDS Naturals, Sequences
(* x -> 16807 x mod (2^31 - 1), by Schrage's method (TLC integers are 32-bit) *)
Minstd(x) ==
    LET t == 16807 * (x % 127773) - 2836 * (x \div 127773)
    IN  IF t > 0 THEN t ELSE t + 2147483647
RngSeed(seed, bid) == Minstd(Minstd((((seed % 10007) * 100003 + bid * 7919) % 1073741789) + 1))
(* k-th draw at generator value r, in 0..n-1 *)
Draw(r, k, n) == (Minstd(Minstd((((r % 1000000007) + k * 1000003) % 2147483646) + 1)) \div 8) % n
PickSeq(r, k, s) == s[Draw(r, k, Len(s)) + 1]
=============================================================================
