------------------------------- MODULE Intern ------------------------------
(* An injective naming of values: equal values get equal names, different     *)
(* values different ones.  The Java override names them 1, 2, ... in order     *)
(* of first use, which keeps symbolic states small.                            *)
Intern(v) == v
=============================================================================
