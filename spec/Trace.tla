------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is every recorded execution of the real code a         *)
(* behaviour the contract allows? S is the set of abstract states the        *)
(* caller may be in after the first l-1 events of trace t; an event that      *)
(* empties S is a violation. Every trace is reported as ACCEPT or REJECT.     *)
(***************************************************************************)
EXTENDS Bulk, Adapters, Client, Intercept, SaveDir, Mock, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

(* What the contract needs to know about a trace, computed once. *)
Meaning(t) ==
  CASE t.kind = "server" ->
       LET p == Parse(t.body, t.bnd)
       IN [parts |-> p.parts, fin |-> p.fin, b |-> t.body, slack |-> Slack(t.bnd)]
    [] t.kind = "intercept" ->
       LET d == Declared(t)
       IN [ctypes |-> t.ctypes, method |-> t.method, body |-> t.body, strict |-> t.strict, size |-> t.size, count |-> t.count,
           m |-> IF d = <<>> THEN [parts |-> <<>>, fin |-> "eof"] ELSE Parse(t.body, d[1])]
    [] OTHER -> t

PS == [i \in DOMAIN Traces |-> Meaning(Traces[i])]

StartOf(P, kind) ==
  CASE kind = "server" -> {Start}
    [] kind = "client" -> {CliStart}
    [] kind = "detect" -> {DetStart}
    [] kind = "intercept" -> {IcpStart}
    [] kind = "dir" -> {DirStart}
    [] kind = "mock" -> {MockStart(P)}
    [] kind = "tee" -> {TeeStart}
    [] kind \in {"bulk", "huge"} -> {BulkStart}
    [] kind = "adapt" -> {CASE P.what = "result" -> ResStart(P) [] P.what = "next" -> NextStart(P)
                            [] P.what = "data" -> DataStart(P) [] OTHER -> SetStart(P)}
    [] OTHER -> {}
Post(P, kind, s, e) ==
  CASE e.op \in {"panic", "hang", "abort"} -> {}
    [] kind = "server" -> After(P, s, e)
    [] kind = "client" -> CliAfter(P, s, e)
    [] kind = "detect" -> DetAfter(P, s, e)
    [] kind = "intercept" -> IcpAfter(P, s, e)
    [] kind = "dir" -> DirAfter(P, s, e)
    [] kind = "mock" -> MockAfter(P, s, e)
    [] kind = "tee" -> TeeAfter(P, s, e)
    [] kind \in {"bulk", "huge"} -> BulkAfter(P, s, e)
    [] kind = "adapt" -> (CASE P.what = "result" -> ResAfter(P, s, e) [] P.what = "next" -> NextResAfter(P, s, e)
                            [] P.what = "data" -> DataAfter(P, s, e) [] OTHER -> SetAfter(P, s, e))
    [] OTHER -> {}

VARIABLES t, l, S
vars == <<t, l, S>>

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ S = StartOf(PS[t], Traces[t].kind)

Step == /\ l <= Len(Traces[t].ev)
        /\ S # {}
        /\ t' = t
        /\ l' = l + 1
        /\ S' = UNION {Post(PS[t], Traces[t].kind, s, Traces[t].ev[l]) : s \in S}
        /\ IF S' = {} THEN PrintT(<<"REJECT", Traces[t].id, l, S>>)
           ELSE IF l = Len(Traces[t].ev) THEN PrintT(<<"ACCEPT", Traces[t].id>>)
           ELSE TRUE

Spec == Init /\ [][Step]_vars
=============================================================================
