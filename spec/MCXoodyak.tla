----------------------------- MODULE MCXoodyak -----------------------------
(* Two peers: A encrypts, B decrypts what A sent and otherwise makes the same  *)
(* calls.  Ghost: all states of A seen so far with their histories.            *)
EXTENDS Xoodyak, SymPrim, FiniteSets, TLC
CONSTANTS Keyed, MaxCalls, Lens, KLens
VARIABLES A, B, a, out, prev
vars == <<A, B, a, out, prev>>
None == [t |-> "none"]
Str(s, n) == Data([s |-> s, o |-> 0, n |-> n])
Init == /\ \E k \in KLens, id \in {0, 1}, c \in {0, 2} :
              A = XkNew(IF Keyed THEN Str(1, k) ELSE <<>>, Str(2, id), Str(3, c))
        /\ B = A /\ a = None /\ out = <<>> /\ prev = A
Do(op, ra, rb) == /\ A' = ra.i /\ B' = rb.i /\ a' = op /\ prev' = A
                  /\ out' = IF "out" \in DOMAIN ra.e THEN <<ra.e.out, rb.e.out>> ELSE <<>>
n == Len(A.h)
Next == /\ n < MaxCalls + 1
        /\ \/ \E l \in Lens : LET x == Str(3 + n, l) IN Do([t |-> "abs", x |-> x], XkCallAbsorb(A, x), XkCallAbsorb(B, x))
           \/ \E l \in Lens : Do([t |-> "sq", n |-> l], XkCallSqueeze(A, l), XkCallSqueeze(B, l))
           \/ Keyed /\ \E l \in Lens : Do([t |-> "key", n |-> l], XkCallKey(A, l), XkCallKey(B, l))
           \/ Keyed /\ \E l \in Lens : LET x == Str(3 + n, l)  r == XkCallEnc(A, x) IN Do([t |-> "crypt", x |-> x], r, XkCallDec(B, r.e.out))
           \/ Keyed /\ Do([t |-> "ratchet"], XkCallRatchet(A), XkCallRatchet(B))
Spec == Init /\ [][Next]_vars
Inv == /\ XkInv(A) /\ XkInv(B)
       /\ A.s = B.s /\ A.up = B.up /\ A.h = B.h
(* outputs are those of the definition; the peer decrypts to the plaintext *)
Outputs == /\ a.t \in {"sq", "key"} => out[1] = XkOut(prev, a) /\ out[2] = out[1] /\ Len(out[1]) = a.n
           /\ a.t = "crypt" => /\ out[2] = a.x
                               /\ out[1] = XorS(a.x, Outs(prev.s, CryptMoves(a.x), FALSE, Rkout, Len(a.x)))
(* after a ratchet the first bytes of the state are zeroed, apart from the padding after them *)
Ratchets == a.t = "ratchet" => Cut(A.s, 0, LRatchet) = Zero(LRatchet)
(* a different call leads to a different state: another length, another byte, another kind of call *)
Ops == {[t |-> "abs", x |-> Str(3 + n, l)] : l \in Lens} \cup {[t |-> "sq", n |-> l] : l \in Lens}
       \cup (IF Keyed THEN {[t |-> "key", n |-> l] : l \in Lens} \cup {[t |-> "crypt", x |-> Str(3 + n, l)] : l \in Lens} \cup {[t |-> "ratchet"]} ELSE {})
StateAfter(op) == After(A.s, MovesOf(op, A.s, A.up, A.hash), A.hash)
(* a squeeze does not absorb its length: lengths with the same number of blocks lead to the same state; *)
(* neither does the hash mode have constants of its own for them                                         *)
NB(op) == MaxOf(1, CeilDiv(op.n, IF A.hash THEN Rhash ELSE Rkout))
Class(op) == IF op.t \in {"sq", "key"} THEN [t |-> op.t, n |-> NB(op)] ELSE op
Commits == Cardinality({StateAfter(op) : op \in Ops}) = Cardinality({Class(op) : op \in Ops})
=============================================================================
