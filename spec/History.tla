------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* Histories of calls on instances of the library.                         *)
(*                                                                         *)
(* A client holds up to MaxInst instances (each one loaded separately),    *)
(* calls either function with a text of some class, or one related to the  *)
(* text of the call before, may scribble over an                           *)
(* object it was given earlier, and may look again at an object it was     *)
(* given.  The library is specified to have no state: the answer to a call *)
(* is a function of the function called and its text.  Here only the       *)
(* histories are produced; Session.tla judges what the library answered.   *)
(*                                                                         *)
(* A history is printed when it is complete ("H [events]").                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES hist, inst, made
Depth   == atoi(IOEnv.HDEPTH)
MaxInst == atoi(IOEnv.HINST)
Ops     == {"tokenize", "parse"}
(* kinds of texts: accepted; rejected by the tokenizer (left open); rejected by the parser; a type left open;   *)
(* accepted after a type left open would have been misread; ends early; empty                                   *)
Classes == {"ok", "open", "reject", "type", "angle", "early", "empty", "comment"}
(* texts related to the one of the previous call: equal to it, or other space around it, other letter case,       *)
(* one character different, two characters exchanged, something appended, the end cut off                      *)
Variants == {"same", "spaced", "cased", "edited", "swapped", "longer", "shorter"}
Ev(e, op, c, i) == [e |-> e, op |-> op, c |-> c, i |-> i]

Init == hist = <<>> /\ inst = 1 /\ made = 0
Call(op, c, i) == hist' = Append(hist, Ev("call", op, c, i)) /\ made' = made + 1 /\ UNCHANGED inst
Load     == inst < MaxInst /\ inst' = inst + 1 /\ hist' = Append(hist, Ev("load", "", "", inst + 1)) /\ UNCHANGED made
(* scribble over the last object received *)
Scribble == made > 0 /\ hist[Len(hist)].e = "call" /\ hist' = Append(hist, Ev("scribble", "", "", 0)) /\ UNCHANGED <<inst, made>>
Next == /\ Len(hist) < Depth
        /\ \/ \E op \in Ops, c \in Classes, i \in 1..inst : Call(op, c, i)
           \/ /\ made > 0
              /\ \E op \in Ops, c \in Variants, i \in 1..inst : Call(op, c, i)
           \/ Load
           \/ Scribble
        /\ (Len(hist') = Depth /\ hist'[Depth].e = "call") => PrintT("H " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<hist, inst, made>>
=============================================================================
