-------------------------------- MODULE Emit -------------------------------
(* Emit(b, k, op, args) is TRUE; the Java override also writes the line      *)
(* "b k op args..." to the file of behaviours to be replayed.                *)
Emit(bid, step, op, args) == TRUE
=============================================================================
