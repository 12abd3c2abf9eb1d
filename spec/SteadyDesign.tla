---------------------------- MODULE SteadyDesign ----------------------------
(* A program of the station as a holder of things: blocks of memory, file      *)
(* descriptors, threads, entries of tables.  What it is given (an item) makes   *)
(* it hold more until the item is dealt with, well or badly; what it knows      *)
(* (the last signal, the last list of names, the newest record) replaces what   *)
(* it knew.  At rest it then holds the same whatever has happened before:       *)
(* Steady.  Keep = TRUE is a program that keeps a little of every item that     *)
(* goes wrong: nothing is visible in a short run, and Steady fails.             *)
EXTENDS Integers
CONSTANTS Keep, Max
VARIABLES n, work, known, kept
vars == <<n, work, known, kept>>
Kinds == {"none", "good", "bad", "news"}
Init == n = 0 /\ work = "none" /\ known = 0 /\ kept = 0
Take == work = "none" /\ n < Max /\ n' = n + 1 /\ work' \in Kinds \ {"none"} /\ UNCHANGED <<known, kept>>
Deal == /\ work # "none" /\ work' = "none" /\ UNCHANGED n
        /\ known' = IF work = "news" THEN 1 ELSE known
        /\ kept' = IF Keep /\ work = "bad" THEN kept + 1 ELSE kept
Next == Take \/ Deal
Spec == Init /\ [][Next]_vars
Held == known + kept + (IF work = "none" THEN 0 ELSE 2)
Steady == work = "none" => Held <= 1
Bounded == Held <= 3
=============================================================================
