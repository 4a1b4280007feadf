------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Which requests are multipart, and with which boundary. P: [integ,       *)
(* method, ctypes (values of the Content-Type headers, at most one), body]. *)
(* Anchors: src/server/hyper.rs, iron.rs, nickel.rs, tiny_http.rs, mock.rs, *)
(* Multipart::from_request in src/server/mod.rs.                            *)
(***************************************************************************)
EXTENDS Framing

(* "multipart/form-data", "POST" *)
S_MFD == <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97>>
S_POST == <<80,79,83,84>>

(* The boundary a Content-Type value declares: <<>> or <<boundary>>.        *)
DeclaredIn(v) ==
  LET semi == FirstOr(OccByte(v, SEMI), Len(v) + 1)
  IN IF Lower(Trim(SubSeq(v, 1, semi - 1))) # S_MFD THEN <<>>
     ELSE Lookup(Params(Drop(v, semi - 1)), S_BOUNDARY)
Declared(P) == IF P.ctypes = <<>> THEN <<>> ELSE DeclaredIn(P.ctypes[1])

(* The mock request is always multipart, with the boundary it was given.    *)
Recognised(P) ==
  CASE P.integ = "mock" -> <<P.mockbnd>>
    [] P.method # S_POST /\ P.integ = "hyper" -> <<>>
    [] OTHER -> Declared(P)
(* Only hyper looks at the method; for the others, other methods are not     *)
(* constrained.                                                             *)
Constrained(P) == P.method = S_POST \/ P.integ \in {"hyper", "mock"}

DetStart == [known |-> FALSE, is |-> FALSE, bnd |-> <<>>]

AfterDetect(P, s, e) ==
  LET r == Recognised(P) IN
  IF Constrained(P) /\ e.bnd # r THEN {}
  ELSE {[known |-> TRUE, is |-> e.bnd # <<>>, bnd |-> e.bnd]}
(* Taking the request: as multipart, or handed back. *)
AfterTake(P, s, e) ==
  LET is == e.res = "multi" IN
  IF Constrained(P) /\ is # (Recognised(P) # <<>>) THEN {}
  ELSE IF s.known /\ is # s.is THEN {}
  ELSE {[s EXCEPT !.known = TRUE, !.is = is, !.bnd = Recognised(P)]}
(* The dispatcher called one handler, once. *)
AfterSwitch(P, s, e) ==
  IF e.multi + e.normal # 1 \/ (e.multi = 1) # (Recognised(P) # <<>>) THEN {}
  ELSE {[known |-> TRUE, is |-> e.multi = 1, bnd |-> Recognised(P)]}

(* Reading the body as multipart, from its first byte. *)
AfterEntries(P, s, e) ==
  LET m == Parse(P.body, s.bnd[1])
      whole == m.fin = "end" /\ \A i \in 1..Len(m.parts) : m.parts[i].hd.ok
  IN IF ~s.is \/ s.bnd = <<>> THEN {}
     ELSE IF ~whole THEN (IF e.res = "err" THEN {s} ELSE {})
     ELSE IF /\ e.res = "end"
             /\ Len(e.entries) = Len(m.parts)
             /\ \A i \in 1..Len(m.parts) :
                  LET x == e.entries[i] IN
                  LET hd == m.parts[i].hd IN
                  /\ x.name = hd.name /\ x.filename = hd.filename
                  /\ Len(x.ctype) = Len(hd.ctype)
                  /\ (x.ctype # <<>> => SameMime(x.ctype[1], hd.ctype[1]))
                  /\ x.data = SubSeq(P.body, m.parts[i].ds, m.parts[i].de)
          THEN {s} ELSE {}
(* A request that was handed back is as it came. *)
AfterRest(P, s, e) ==
  IF s.known /\ ~s.is /\ e.out = P.body /\ e.method = P.method /\ e.ctypes = P.ctypes THEN {s} ELSE {}

DetAfter(P, s, e) ==
  CASE e.op = "detect" -> AfterDetect(P, s, e)
    [] e.op = "take" -> AfterTake(P, s, e)
    [] e.op = "switch" -> AfterSwitch(P, s, e)
    [] e.op = "entries" -> AfterEntries(P, s, e)
    [] e.op = "rest" -> AfterRest(P, s, e)
    [] OTHER -> {}
=============================================================================
