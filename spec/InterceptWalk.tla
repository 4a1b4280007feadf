---------------------------- MODULE InterceptWalk ----------------------------
(* Random behaviours of InterceptImpl, printed so that they can be replayed *)
(* in the real code (lib/models.py).                                        *)
EXTENDS InterceptImpl, Json

(* Mostly requests that can be accepted. *)
WalkInit == /\ Init /\ Len(Bodies[B][1]) >= MaxParts - 1 /\ Declared(P) # <<>>
            /\ Cardinality({i \in DOMAIN Bodies[B][1] : Bodies[B][1][i][1] = NoField}) + Bodies[B][2] <= 1
Report == ~(pc = "dropped")
  \/ PrintT("WALK " \o ToJson([yes |-> Declared(P) # <<>>, strict |-> P.strict, size |-> P.size, count |-> P.count,
                               parts |-> [i \in DOMAIN Bodies[B][1] |-> [name |-> Bodies[B][1][i][1], n |-> Bodies[B][1][i][2]]],
                               end |-> Bodies[B][2], rec |-> rec]))
=============================================================================
