----------------------------- MODULE EntriesWalk -----------------------------
(* Random behaviours of EntriesImpl, printed so that they can be replayed   *)
(* in the real code (lib/models.py).                                        *)
EXTENDS EntriesImpl, Json

WalkInit == Init /\ Len(P.parts) >= MaxParts - 1
Report == ~(pc = "idle" /\ saves = MaxSaves) \/ PrintT("WALK " \o ToJson([b |-> P.b, parts |-> [i \in 1..Len(P.parts) |-> [name |-> P.parts[i].hd.name, ds |-> P.parts[i].ds, de |-> P.parts[i].de]], rec |-> rec]))
=============================================================================
