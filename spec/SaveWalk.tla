------------------------------ MODULE SaveWalk ------------------------------
(* Random behaviours of SaveImpl, printed so that they can be replayed in   *)
(* the real code (lib/models.py).                                           *)
EXTENDS SaveImpl, Json

CONSTANT RecLen
(* data that are text, at least to begin with *)
WalkInit == Init /\ Len(d) > 3 /\ ValidLen(d) * 2 >= MaxLen
Going == Len(rec) < RecLen
Report == (Going /\ ~(pc = "idle" /\ saves = MaxSaves)) \/ PrintT("WALK " \o ToJson([d |-> d, rec |-> rec]))
=============================================================================
