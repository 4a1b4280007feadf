----------------------------- MODULE ReaderWalk -----------------------------
(* Random behaviours of ReaderImpl, printed so that they can be replayed    *)
(* against the real reader (lib/walks.py).                                  *)
EXTENDS ReaderImpl, Json

CONSTANT RecLen
Going == Len(rec) < RecLen
Report == Going \/ PrintT("WALK " \o ToJson([b |-> b, rec |-> rec]))
=============================================================================
