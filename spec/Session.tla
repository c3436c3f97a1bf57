------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Recorded histories of calls, checked against the specification of the   *)
(* library as a pure function: the answer (ok or error, and the whole      *)
(* value, written as a digest) depends on the function and the text only.  *)
(*                                                                         *)
(* The log holds, in the order in which they happened,                     *)
(*   call   h history, i instance, f function, x text (number), a answer   *)
(*   look   h history, j an earlier call of it, a the object it returned,  *)
(*          as it is now; s whether the client scribbled over it           *)
(* memo is the function learnt so far: the first answer fixes it.  The log *)
(* starts with every call on an instance of its own.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo, own
vars == <<l, memo, own>>      \* own: answers of the calls of the current history
Init == l = 1 /\ memo = <<>> /\ own = <<>>
Bad(n, what) == PrintT("V " \o ToJson(<<n, what>>))
Key(e) == e.f \o " " \o ToString(e.x)

Call(e) == /\ e.e = "call"
           /\ IF Key(e) \in DOMAIN memo
              THEN /\ IF memo[Key(e)] = e.a THEN TRUE ELSE Bad(l, "answer")
                   /\ UNCHANGED memo
              ELSE memo' = memo @@ (Key(e) :> e.a)
           /\ own' = (IF Len(own) > 0 /\ own[1].h = e.h THEN own ELSE <<>>) \o <<[h |-> e.h, a |-> e.a]>>
Look(e) == /\ e.e = "look"
           /\ IF e.s \/ (own[e.j].h = e.h /\ own[e.j].a = e.a) THEN TRUE ELSE Bad(l, "object")
           /\ UNCHANGED <<memo, own>>
Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ Call(Log[l]) \/ Look(Log[l])
        /\ l = Len(Log) => PrintT("N " \o ToString(l))
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").distinct = Len(Log) + 1
=============================================================================
