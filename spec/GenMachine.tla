----------------------------- MODULE GenMachine ----------------------------
(* Generation of behaviours.  Initial state b starts behaviour b of the seed; *)
(* every step picks an instance (slot), a call that the specification allows  *)
(* there (GChoose), and applies the specification of the call (GApply).  The   *)
(* call, its arguments and everything the specification says it returns are   *)
(* emitted, for replay on the real code.                                      *)
EXTENDS Naturals, Sequences, TLC, Emit, Rng
CONSTANTS Seed, Behaviors, MaxSteps, Slots, CloneOf,
          GChoose(_, _, _, _),   \* GChoose(bid, instance, rng, final)
          GApply(_, _),          \* GApply(instance, call) = [i |-> instance, e |-> returned]
          GInv(_)                \* what holds of every instance at any time
VARIABLES bid, step, rng, slots
vars == <<bid, step, rng, slots>>

NoInst == [ty |-> "none"]

Init == /\ bid \in 1..Behaviors
        /\ step = 0
        /\ rng = RngSeed(Seed, bid)
        /\ slots = [k \in 1..Slots |-> NoInst]

Call(k, final) ==
    LET c == GChoose(bid, slots[k], rng, final)
        r == GApply(slots[k], c)
    IN  /\ c.op # "stop"
        /\ Emit(bid, step, c.op, [i |-> k] @@ r.e @@ c)
        /\ slots' = [slots EXCEPT ![k] = r.i]

(* a copy of the structure is an instance of its own from then on *)
Clone(k, j) == /\ Emit(bid, step, "clone", [i |-> k, j |-> j])
               /\ slots' = [slots EXCEPT ![j] = slots[k]]

Next ==
    /\ step < MaxSteps + Slots
    /\ step' = step + 1
    /\ rng' = Minstd(rng)
    /\ bid' = bid
    /\ IF step >= MaxSteps THEN Call((step - MaxSteps) + 1, TRUE)
       ELSE LET k == Draw(rng, 91, Slots) + 1
                j == (k % Slots) + 1
            IN  IF /\ Slots > 1 /\ slots[k].ty # "none" /\ CloneOf > 0 /\ slots[j].ty \in {"none", slots[k].ty}
                   /\ Draw(rng, 92, CloneOf) = 0
                THEN Clone(k, j) ELSE Call(k, FALSE)
Spec == Init /\ [][Next]_vars
InstancesOK == \A k \in 1..Slots : slots[k].ty # "none" => GInv(slots[k])
=============================================================================
