-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every line of the trace file is one recorded scenario    *)
(* (a history of API calls on the real library); each call must be an action  *)
(* of Scotch.tla.  A scenario that is not a behaviour ends in l = 0 and prints *)
(* the scenario, the position and the violated clause.                        *)
EXTENDS Scotch, Json, IOUtils

Scens == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES sc, l, obj

Init == sc \in 1 .. Len(Scens) /\ l = 1 /\ obj = <<>>

Next ==
   /\ l > 0
   /\ l <= Len(Scens[sc].ev)
   /\ sc' = sc
   /\ LET ev == Scens[sc].ev[l]
          f  == Contract(ev, obj)
      IN  IF f = OK
          THEN l' = l + 1 /\ obj' = Effect(ev, obj)
          ELSE /\ PrintT("REJECT|" \o Scens[sc].id \o "|" \o ToString(l) \o "|" \o ev.op \o "|" \o f \o "|")
               /\ l' = 0 /\ obj' = <<>>

Spec == Init /\ [][Next]_<<sc, l, obj>>
View == <<sc, l>>
==============================================================================
