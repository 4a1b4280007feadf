----------------------------- MODULE SaveDirWalk -----------------------------
(* Behaviours of SaveDirImpl, printed so that they can be replayed in the   *)
(* real code (lib/models.py).                                               *)
EXTENDS SaveDirImpl, Json

(* The end comes when there is nothing left to do. *)
WalkNext == (Next /\ pc' = "go")
            \/ (Over /\ (ops = MaxOps \/ (Len(held) = MaxRes /\ \A h \in DOMAIN held : ~Owned(h))))
Report == pc # "over" \/ rec = <<>> \/ PrintT("WALK " \o ToJson([rec |-> rec]))
=============================================================================
