------------------------------- MODULE MCShared -----------------------------
(* Instances used from several threads.  A call is a sequence of atomic       *)
(* accesses to memory: its own instance, and whatever static data the library *)
(* has.  Style says how the library treats its static data:                   *)
(*   "const"    it is never written                                           *)
(*   "store"    every entry of a table is stored with its final value, by     *)
(*              every initialization (the reference implementations)          *)
(*   "build"    an entry is cleared and then built up in place                *)
(*   "scratch"  a static buffer carries a value from one access to the next   *)
(* With "const" and "store" every instance ends up as its own calls say in    *)
(* every interleaving; the other two do not, which TLC shows.  What           *)
(* distinguishes them is Sealed: a place in static data, once stored, keeps   *)
(* its value.  This is what the replay driver watches on the real library.    *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Threads, Slots, MaxCalls, Style
N == 2                                  \* entries of the table
VARIABLES tab, scr, inst, hist, th, calls
vars == <<tab, scr, inst, hist, th, calls>>
Final(j) == j
Idle == [pc |-> "idle", s |-> 0, x |-> 0, j |-> 0, acc |-> <<>>]
Init == /\ tab = [j \in 1..N |-> IF Style = "const" THEN Final(j) ELSE 0]
        /\ scr = 0 /\ inst = [s \in Slots |-> <<>>] /\ hist = [s \in Slots |-> <<>>]
        /\ th = [t \in Threads |-> Idle] /\ calls = 0
Busy(s) == \E t \in Threads : th[t].pc # "idle" /\ th[t].s = s
To(t, r) == th' = [th EXCEPT ![t] = r]
Start(t, s, x) ==
    /\ th[t].pc = "idle" /\ ~Busy(s) /\ calls < MaxCalls
    /\ calls' = calls + 1
    /\ To(t, [pc |-> IF Style \in {"const", "scratch"} THEN "read" ELSE "init", s |-> s, x |-> x, j |-> 1, acc |-> <<>>])
    /\ scr' = IF Style = "scratch" THEN x ELSE scr
    /\ UNCHANGED <<tab, inst, hist>>
Clear(t) == /\ th[t].pc = "init" /\ Style = "build"
            /\ tab' = [tab EXCEPT ![th[t].j] = 0] /\ To(t, [th[t] EXCEPT !.pc = "set"])
            /\ UNCHANGED <<scr, inst, hist, calls>>
Store(t) == /\ th[t].pc = IF Style = "build" THEN "set" ELSE "init"
            /\ tab' = [tab EXCEPT ![th[t].j] = Final(th[t].j)]
            /\ To(t, IF th[t].j = N THEN [th[t] EXCEPT !.pc = "read", !.j = 1] ELSE [th[t] EXCEPT !.pc = "init", !.j = th[t].j + 1])
            /\ UNCHANGED <<scr, inst, hist, calls>>
Read(t) == /\ th[t].pc = "read"
           /\ LET v == IF Style = "scratch" THEN 0 ELSE tab[th[t].j]
              IN To(t, [th[t] EXCEPT !.acc = Append(th[t].acc, v), !.j = th[t].j + 1, !.pc = IF th[t].j = N THEN "end" ELSE "read"])
           /\ UNCHANGED <<tab, scr, inst, hist, calls>>
End(t) == /\ th[t].pc = "end"
          /\ inst' = [inst EXCEPT ![th[t].s] = Append(@, <<IF Style = "scratch" THEN scr ELSE th[t].x, th[t].acc>>)]
          /\ hist' = [hist EXCEPT ![th[t].s] = Append(@, th[t].x)]
          /\ To(t, Idle) /\ UNCHANGED <<tab, scr, calls>>
Copy(s, u) == /\ s # u /\ ~Busy(s) /\ ~Busy(u) /\ calls < MaxCalls /\ calls' = calls + 1
              /\ inst' = [inst EXCEPT ![u] = inst[s]] /\ hist' = [hist EXCEPT ![u] = hist[s]]
              /\ UNCHANGED <<tab, scr, th>>
Next == \/ \E t \in Threads : Clear(t) \/ Store(t) \/ Read(t) \/ End(t) \/ \E s \in Slots, x \in {1, 2} : Start(t, s, x)
        \/ \E s, u \in Slots : Copy(s, u)
Spec == Init /\ [][Next]_vars
(* what the calls on an instance, and on the one it was copied from, give      *)
F(h) == [k \in 1..Len(h) |-> <<h[k], IF Style = "scratch" THEN <<0, 0>> ELSE [j \in 1..N |-> Final(j)]>>]
ResultOK == \A s \in Slots : inst[s] = F(hist[s])
Sealed == [][\A j \in 1..N : tab[j] # 0 => tab'[j] = tab[j]]_vars /\ [][scr # 0 => scr' = scr]_vars
=============================================================================
