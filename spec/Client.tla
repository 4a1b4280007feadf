------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The observable contract of the client side: streaming, measured, lazy   *)
(* and prepared requests.                                                  *)
(*                                                                         *)
(* P describes the scenario: mode, and fields <<[t, name, filename, ctype, *)
(* data, missing]>>; rounds: <<>>, or how many of the fields each of the    *)
(* requests has that are made, one after the other, with the same Multipart.*)
(* A state s says what the transport has seen of the current request:      *)
(*   lo, round   the fields of earlier requests, and their number plus one *)
(*   used    the boundaries of earlier requests                            *)
(*   hdr     the announcement, <<>> or <<[bnd, len]>>                      *)
(*   refused the transport refused it                                      *)
(*   opened, wire, fin    the stream was opened, its bytes, it was finished *)
(*   added   indexes of the fields that were written successfully          *)
(*   failed  some call failed, so the bytes sent need not be complete      *)
(*   over    the request was reported as sent, or read out to its end      *)
(* Every event e is one call of the caller; e.tev is what the transport    *)
(* saw during it (apply, open, out, fin), e.hardt / e.hardw / e.hards the  *)
(* failures of the transport (headers refused, stream not opened or not    *)
(* finished), of writes to it and of source streams; e.softs the number of *)
(* interrupted source reads.                                               *)
(* Anchors: src/client/mod.rs, sized.rs, lazy.rs, hyper.rs.                *)
(***************************************************************************)
EXTENDS Framing

(* "application/octet-stream" *)
S_OCTET == <<97,112,112,108,105,99,97,116,105,111,110,47,111,99,116,101,116,45,115,116,114,101,97,109>>

CliStart == [hdr |-> <<>>, refused |-> FALSE, opened |-> FALSE, wire |-> <<>>, fin |-> 0,
             added |-> <<>>, failed |-> FALSE, over |-> FALSE, lo |-> 0, round |-> 1, used |-> {}]
CliBad == [CliStart EXCEPT !.fin = -1]

Streaming == {"eager", "mock", "hyper"}
Measured == {"sized", "mocksized", "hypersized"}
Lazy == {"lazy", "prepared", "hyperlazy", "hyperclient"}

(* 1 to 70 characters that need no quoting in a Content-Type parameter.     *)
ValidBoundary(b) == Len(b) >= 1 /\ Len(b) <= 70 /\ AllToken(b)

(* The transport's view: announced once, before the stream is opened; bytes *)
(* only after that; finished once, after the last byte.                     *)
Feed(s, t) ==
  CASE s.fin = -1 -> s
    [] t.t = "apply" ->
         IF s.hdr = <<>> /\ ~s.opened /\ ValidBoundary(t.bnd) /\ t.bnd \notin s.used /\ Len(t.len) <= 1
         THEN [s EXCEPT !.hdr = <<[bnd |-> t.bnd, len |-> t.len]>>, !.refused = ~t.ok] ELSE CliBad
    [] t.t = "open" ->
         IF s.hdr # <<>> /\ ~s.opened THEN [s EXCEPT !.opened = t.ok] ELSE CliBad
    [] t.t = "out" ->
         IF s.opened /\ s.fin = 0 /\ ~s.over THEN [s EXCEPT !.wire = @ \o t.b] ELSE CliBad
    [] t.t = "fin" ->
         IF s.opened /\ s.fin = 0 THEN [s EXCEPT !.fin = 1] ELSE CliBad
    [] OTHER -> CliBad
FeedAll(s, tev) == FoldLeft(Feed, s, tev)

-----------------------------------------------------------------------------
(* What the sent bytes have to be. *)

Want(f) == [name |-> f.name, filename |-> f.filename, data |-> f.data,
            ctype |-> IF f.t = "stream" /\ f.ctype = <<>> THEN <<S_OCTET>>
                      ELSE IF f.ctype = <<>> THEN <<>> ELSE <<Lower(f.ctype[1])>>]
Got(b, pt) == [name |-> pt.hd.name, filename |-> pt.hd.filename, data |-> SubSeq(b, pt.ds, pt.de),
               ctype |-> IF pt.hd.ctype = <<>> THEN <<>> ELSE <<Lower(pt.hd.ctype[1])>>]
IsTextF(w) == w.ctype = <<>>
Same(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \cup ToSet(b) :
                 Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})

(* got: the parts in the order sent; idx: the fields in the order added.     *)
SameFields(P, got, idx) ==
  LET want == [i \in 1..Len(idx) |-> Want(P.fields[idx[i]])]
  IN IF P.mode \in Lazy
     THEN Same(got, want) /\ SelectSeq(got, IsTextF) = SelectSeq(want, IsTextF)
     ELSE got = want

Complete(P, s, idx) ==
  /\ s.hdr # <<>>
  /\ LET m == Parse(s.wire, s.hdr[1].bnd)
     IN /\ m.fin = "end"
        /\ \A i \in 1..Len(m.parts) : m.parts[i].hd.ok
        /\ SameFields(P, [i \in 1..Len(m.parts) |-> Got(s.wire, m.parts[i])], idx)

(* The fields of the current request.                                       *)
AllIdx(P, s) == [i \in 1..(IF P.rounds = <<>> THEN Len(P.fields) ELSE P.rounds[s.round]) |-> s.lo + i]
Missing(P, s) == {i \in ToSet(AllIdx(P, s)) : P.fields[i].missing}

(* A length is announced exactly when the content is measured, and is right. *)
HasStream(P, s) == \E i \in ToSet(AllIdx(P, s)) : P.fields[i].t = "stream"
LenOk(P, s) ==
  /\ (s.hdr[1].len # <<>>) = (P.mode \in Measured \/ (P.mode \in Lazy /\ ~HasStream(P, s)))
  /\ (s.hdr[1].len # <<>> => s.hdr[1].len[1] = Len(s.wire))


HardC(e) == e.hardt # <<>> \/ e.hardw # <<>> \/ e.hards # <<>>
Sent(e, t) == \E i \in 1..Len(e.tev) : e.tev[i].t = t

-----------------------------------------------------------------------------
AfterNew(P, s, e) ==
  LET s2 == FeedAll(s, e.tev) IN
  IF s2.fin = -1 \/ s2.wire # <<>> \/ s2.fin # 0 \/ (P.mode = "sized" /\ Sent(e, "open")) THEN {}
  ELSE IF e.res = "ok" THEN (IF e.hardt = <<>> \/ e.hardt = <<"refuse">> THEN {s2} ELSE {})
  ELSE IF HardC(e) THEN {[s2 EXCEPT !.failed = TRUE]} ELSE {}

AfterAdd(P, s, e) ==
  LET s2 == FeedAll(s, e.tev) IN
  IF s2.fin # 0 \/ (P.mode \in Measured /\ e.tev # <<>>) THEN {}
  ELSE IF e.res = "ok"
       THEN IF HardC(e) \/ P.fields[e.i].missing THEN {} ELSE {[s2 EXCEPT !.added = Append(@, e.i)]}
       ELSE IF HardC(e) \/ P.fields[e.i].missing THEN {[s2 EXCEPT !.failed = TRUE]} ELSE {}

SendIdx(P, s) == IF P.mode \in Lazy \/ P.mode \in {"hyper", "hypersized"} THEN AllIdx(P, s) ELSE s.added

AfterSend(P, s, e) ==
  LET s2 == FeedAll(s, e.tev)
      refusal == P.mode \in Measured /\ s2.refused
      miss == P.mode \in Lazy /\ Missing(P, s) # {}
  IN IF s2.fin = -1 THEN {}
     \* a refused announcement of a measured request, a file that cannot be opened
     ELSE IF refusal THEN (IF e.res = "err" /\ ~Sent(e, "open") THEN {[s2 EXCEPT !.failed = TRUE]} ELSE {})
     ELSE IF miss THEN (IF e.res = "err" /\ e.tev = <<>> /\ Len(e.errname) = 1
                           /\ (\E i \in Missing(P, s) : P.fields[i].name = e.errname[1])
                        THEN {[s2 EXCEPT !.failed = TRUE]} ELSE {})
     ELSE IF e.res = "ok"
          THEN IF /\ e.hardw = <<>> /\ e.hards = <<>> /\ (e.hardt = <<>> \/ e.hardt = <<"refuse">>)
                  /\ s2.fin = 1
                  /\ (s2.failed \/ (Complete(P, s2, SendIdx(P, s)) /\ LenOk(P, s2)))
               THEN {[s2 EXCEPT !.over = TRUE]} ELSE {}
          ELSE IF HardC(e) /\ (e.hardw # <<>> \/ e.hards # <<>> => ~Sent(e, "fin"))
               THEN {[s2 EXCEPT !.failed = TRUE]} ELSE {}

AfterPrep(P, s, e) ==
  LET s2 == FeedAll(s, e.tev) IN
  IF s2.fin = -1 THEN {}
  ELSE IF Missing(P, s) # {}
       THEN IF e.res = "err" /\ e.tev = <<>> /\ Len(e.errname) = 1
               /\ (\E i \in Missing(P, s) : P.fields[i].name = e.errname[1])
            THEN {[s2 EXCEPT !.failed = TRUE]} ELSE {}
       ELSE IF e.res = "ok" THEN {s2} ELSE {}

AfterPread(P, s, e) ==
  LET s2 == FeedAll(s, e.tev) IN
  IF s2.fin = -1 THEN {}
  ELSE IF e.res = "ok"
       THEN IF e.k > e.n \/ Len(s2.wire) # Len(s.wire) + e.k \/ e.hards # <<>> THEN {}
            ELSE IF e.k = 0 /\ e.n > 0
                 THEN IF s.failed \/ s.over \/ (Complete(P, s, AllIdx(P, s)) /\ LenOk(P, s))
                      THEN {[s EXCEPT !.over = TRUE]} ELSE {}
                 ELSE {s2}
       ELSE IF e.tev # <<>> THEN {}
            \* reading on goes on with the next byte
            ELSE IF e.hards # <<>> \/ e.softs > 0 THEN {s} ELSE {}

(* The same Multipart is used for another request: its fields are those that *)
(* were added since, and its boundary is a new one. What was prepared may be *)
(* given up before it was read to its end.                                   *)
AfterNext(P, s, e) ==
  IF e.tev # <<>> \/ s.failed \/ s.round >= Len(P.rounds) THEN {}
  ELSE {[CliStart EXCEPT !.lo = s.lo + P.rounds[s.round], !.round = s.round + 1,
                         !.used = s.used \cup {s.hdr[i].bnd : i \in DOMAIN s.hdr}]}

(* Reading the body back with this library's own server side. *)
AfterReread(P, s, e) ==
  IF s.failed THEN {s}
  ELSE IF /\ e.res = "end"
          /\ SameFields(P, [i \in 1..Len(e.entries) |-> Want([t |-> "", name |-> e.entries[i].name,
               filename |-> e.entries[i].filename, ctype |-> e.entries[i].ctype, data |-> e.entries[i].data])],
               SendIdx(P, s))
       THEN {s} ELSE {}

(* Every request has its own boundary. *)
AfterBnds(P, s, e) ==
  IF Len(e.list) = e.n /\ Cardinality(ToSet(e.list)) = e.n /\ \A b \in ToSet(e.list) : ValidBoundary(b)
  THEN {s} ELSE {}

CliAfter(P, s, e) ==
  IF e.op \in {"panic", "hang", "abort"} THEN {}
  ELSE IF e.post > 64 THEN {}
  ELSE
  CASE e.op = "new" -> AfterNew(P, s, e)
    [] e.op = "add" -> AfterAdd(P, s, e)
    [] e.op = "send" -> AfterSend(P, s, e)
    [] e.op = "prep" -> AfterPrep(P, s, e)
    [] e.op = "pread" -> AfterPread(P, s, e)
    [] e.op = "next" -> AfterNext(P, s, e)
    [] e.op = "reread" -> AfterReread(P, s, e)
    [] e.op = "bnds" -> AfterBnds(P, s, e)
    [] OTHER -> {}
=============================================================================
