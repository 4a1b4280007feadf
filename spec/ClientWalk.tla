----------------------------- MODULE ClientWalk -----------------------------
(* Random behaviours of ClientImpl, printed so that they can be replayed in *)
(* the real code (lib/models.py).                                           *)
EXTENDS ClientImpl, Json

CONSTANT RecLen
WalkInit == Init /\ Len(P.fields) > 0 /\ Cardinality({i \in DOMAIN P.fields : P.fields[i].missing}) <= MaxErr
(* failures are not to come at once *)
WalkNext == Next /\ (errs' > errs => RandomElement(1..7) = 1)
Going == Len(rec) < RecLen
LastOne == P.rounds = <<>> \/ rnd = Len(P.rounds) \/ \E s \in S : s.failed
Over == LastOne /\ (pc = "over" \/ (pc = "idle" /\ P.mode = "prepared" /\ \E s \in S : s.over))
Report == (Going /\ ~Over) \/ PrintT("WALK " \o ToJson([mode |-> P.mode, rounds |-> P.rounds, rec |-> rec,
            fields |-> [i \in 1..Len(P.fields) |-> [c |-> F(i).name[1], n |-> Len(F(i).data), missing |-> F(i).missing]]]))
=============================================================================
