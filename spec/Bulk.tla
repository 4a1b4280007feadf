-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* The contract for requests too large to write out byte by byte. P.parts  *)
(* says how long each part's data is and whether it is text; what a call   *)
(* delivered is recorded as a number of bytes and whether they are the     *)
(* next bytes of the current part (the recorder compares them).            *)
(* Options o = [size, mem, count, text], -1 for no limit; when the caller  *)
(* configures nothing the documented defaults apply.                       *)
(* Requests of kind "huge" count in units of 64 KiB, to go beyond what      *)
(* 32-bit counters hold.                                                    *)
(* Anchors: src/server/save.rs SaveBuilder::new and the save loops,        *)
(* src/server/boundary.rs.                                                 *)
(***************************************************************************)
EXTENDS Server

DefaultSize == 8388608
DefaultMem == 10240
DefaultCount == 256

(* -2: not configured. With calls, the caller configured by calling these setters  *)
(* in this order: each sets its own option, the last call of one kind counts.       *)
Set(o, c) == CASE c.k = "size" -> [o EXCEPT !.size = c.n] [] c.k = "mem" -> [o EXCEPT !.mem = c.n]
               [] c.k = "count" -> [o EXCEPT !.count = c.n] [] c.k = "text" -> [o EXCEPT !.text = c.t]
               [] OTHER -> o
Called(o) == IF o.calls = <<>> THEN o ELSE FoldLeft(Set, [o EXCEPT !.size = -2, !.mem = -2, !.count = -2, !.text = "try"], o.calls)
Given(a) == LET o == Called(a)
            IN [size |-> IF o.size = -2 THEN DefaultSize ELSE o.size, mem |-> IF o.mem = -2 THEN DefaultMem ELSE o.mem,
                count |-> IF o.count = -2 THEN DefaultCount ELSE o.count, text |-> o.text]

BulkStart == [part |-> 0, off |-> 0, ph |-> "between", kept |-> 0]

BLen(P, i) == P.parts[i].len
BLeft(P, s) == BLen(P, s.part) - s.off

(* Where the next bytes of a field belong; n of them are left, r describes   *)
(* what was kept of them.                                                    *)
BKept(P, i, o, n, r) ==
  /\ r.same /\ r.size = r.n /\ r.n <= n /\ Under(o.size, r.n)
  /\ r.kind \in {"text", "bytes", "file"} /\ r.disk = (IF r.kind = "file" THEN r.n ELSE 0)
  \* the bytes that are not text lie in the middle and at the end of such a part
  /\ (r.kind = "text" => (P.parts[i].text \/ (BLen(P, i) - n) + r.n <= BLen(P, i) \div 2) /\ o.text # "ignore")
BFull(P, i, o, n, r) ==
  /\ BKept(P, i, o, n, r) /\ r.n = n
  /\ (MustBeMemory(o, n) => r.kind # "file")
  /\ (MustBeFile(o, n) => r.kind = "file")
  /\ (P.parts[i].text /\ o.text # "ignore" => r.kind # "bytes")
BPart(P, i, o, n, r) ==
  /\ BKept(P, i, o, n, r) /\ o.size # NoLimit /\ n > o.size
  /\ (r.kind = "file") = Above(o.size, o.mem)

AfterBNext(P, s, e) ==
  CASE e.res = "entry" -> IF s.part < Len(P.parts) /\ e.i = s.part + 1 /\ e.istext = P.parts[e.i].plain
                          THEN {[s EXCEPT !.part = e.i, !.off = 0, !.ph = "data"]} ELSE {}
    [] e.res = "end" -> IF s.part = Len(P.parts) THEN {[s EXCEPT !.ph = "end"]} ELSE {}
    [] OTHER -> {}

(* Reading with calls of one kind, n bytes in all; done: until the field was  *)
(* reported to be at its end. A peek that did not show everything that was    *)
(* left showed at least e.least bytes; e.min were asked for.                  *)
AfterBRead(P, s, e) ==
  IF s.ph = "data" /\ e.least + Slack(<<98, 110, 100>>) >= MinI(e.min, BLeft(P, s)) /\ e.same /\ e.n <= BLeft(P, s) /\ (e.done => e.n = BLeft(P, s))
  THEN {[s EXCEPT !.off = @ + e.n]} ELSE {}

AfterBSave(P, s, e) ==
  LET n == BLeft(P, s) IN
  IF s.ph # "data" THEN {}
  ELSE CASE e.res = "full" -> IF BFull(P, s.part, e.o, n, e.r[1]) THEN {[s EXCEPT !.off = @ + e.r[1].n]} ELSE {}
         [] e.res = "partial" -> IF e.why = "size" /\ BPart(P, s.part, e.o, n, e.r[1]) THEN {[s EXCEPT !.off = @ + e.r[1].n]} ELSE {}
         [] OTHER -> {}

AfterBWriteTo(P, s, e) ==
  LET n == BLeft(P, s) IN
  IF s.ph # "data" \/ ~e.same \/ ~Under(e.o.size, e.n) THEN {}
  ELSE CASE e.res = "full" -> IF e.n = n THEN {[s EXCEPT !.off = @ + e.n]} ELSE {}
         [] e.res = "partial" -> IF e.why = "size" /\ ~Under(e.o.size, n) THEN {[s EXCEPT !.off = @ + e.n]} ELSE {}
         [] OTHER -> {}

(* A whole-request save: the entries so far, in body order, and the field it  *)
(* stopped at.                                                                *)
TextFor(P, i, o) == IF P.parts[i].plain THEN o ELSE [o EXCEPT !.text = "ignore"]
FitsB(P, i, o) == Under(o.size, BLen(P, i))
AfterBSaveAll(P, s, e) ==
  LET first == s.part + 1
      stops == {i \in first..Len(P.parts) : ~FitsB(P, i, e.o) \/ (e.o.count # NoLimit /\ i - first + s.kept >= e.o.count)}
      stop == FirstOr(stops, 0)
      k == IF stop = 0 THEN Len(P.parts) - s.part ELSE stop - first
      over == stop # 0 /\ e.o.count # NoLimit /\ k + s.kept >= e.o.count
  IN IF /\ s.ph \in {"between", "data", "end"}
        /\ Len(e.got) = k /\ e.count = s.kept + k /\ e.total = s.kept + k
        /\ \A j \in 1..k : e.got[j].i = s.part + j /\ BFull(P, s.part + j, TextFor(P, s.part + j, e.o), BLen(P, s.part + j), e.got[j])
     THEN IF stop = 0
          THEN (IF e.res = "full" /\ e.part = <<>> THEN {[s EXCEPT !.part = Len(P.parts), !.ph = "end", !.kept = @ + k]} ELSE {})
          ELSE IF /\ e.res = "partial" /\ Len(e.part) = 1 /\ e.part[1].i = stop
                  /\ IF over THEN e.why = "count" /\ e.part[1].kind = "none"
                     ELSE e.why = "size" /\ BPart(P, stop, TextFor(P, stop, e.o), BLen(P, stop), e.part[1])
               THEN {[s EXCEPT !.part = stop, !.off = IF over THEN 0 ELSE e.part[1].n, !.ph = "data", !.kept = @ + k]} ELSE {}
     ELSE {}

(* A request of one field that was sent: the announced length and the bytes    *)
(* sent are pairs of units and odd bytes.                                      *)
AfterBSent(P, s, e) ==
  IF /\ s.ph = "between" /\ e.ok /\ e.same /\ e.complete /\ e.n = BLen(P, 1)
     /\ e.ann = (IF e.sized THEN <<e.total>> ELSE <<>>)
  THEN {[s EXCEPT !.ph = "end"]} ELSE {}

BulkAfter(P, s, ev) ==
  LET e == IF "o" \in DOMAIN ev THEN [ev EXCEPT !.o = Given(ev.o)] ELSE ev IN
  IF ~Bounded(e) \/ e.faults # <<>> THEN {}
  ELSE
  CASE e.op = "bnext" -> AfterBNext(P, s, e)
    [] e.op = "bread" -> AfterBRead(P, s, e)
    [] e.op = "bsave" -> AfterBSave(P, s, e)
    [] e.op = "bwriteto" -> AfterBWriteTo(P, s, e)
    [] e.op = "bsaveall" -> AfterBSaveAll(P, s, e)
    [] e.op = "bsent" -> AfterBSent(P, s, e)
    [] OTHER -> {}
=============================================================================
