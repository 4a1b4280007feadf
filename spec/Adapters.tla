------------------------------ MODULE Adapters ------------------------------
(***************************************************************************)
(* What results turn into: the outcome of a save (complete, partial with a *)
(* reason, failed) and of asking for an entry (entry, end, error) survives *)
(* every conversion the API offers, and saved data reads back.             *)
(* Anchors: src/server/save.rs SaveResult, PartialReason, PartialEntries,  *)
(* Entries, SavedData, DataReader; src/server/field.rs ReadEntryResult.    *)
(***************************************************************************)
EXTENDS Bytes, FiniteSetsExt

HasSub(b, s) == s = <<>> \/ \E i \in 1..(Len(b) - Len(s) + 1) : SubSeq(b, i, i + Len(s) - 1) = s

-----------------------------------------------------------------------------
(* A save result: [v, why, err, p, part]; v: full, partial, error;          *)
(* why: none, count, size, io, utf8; err: the error's message; p: what was  *)
(* saved: [n, kind, bytes, ents, cnt]; part: <<>> or the field the save of a *)
(* request stopped at, [name, dest].                                        *)
ResStart(P) == [v |-> P.value.v, why |-> P.value.why, err |-> P.value.err, p |-> P.value.p, part |-> P.value.part, life |-> "value"]

IoCase(s) == s.v = "error" \/ (s.v = "partial" /\ s.why = "io")
Ok1(s) == IF s.v = "error" THEN <<>> ELSE <<s.p>>

(* What the mapping function of the recorder does to a payload. *)
Marked(t, p) ==
  CASE t = "count" -> [p EXCEPT !.n = @ + 1]
    [] t = "field" -> [p EXCEPT !.kind = "bytes", !.bytes = @ \o <<33>>]
    [] t = "entries" -> IF \E i \in 1..Len(p.ents) : p.ents[i].name = <<122, 122>> THEN p ELSE [p EXCEPT !.ents = Append(@, [name |-> <<122, 122>>, datas |-> <<[kind |-> "bytes", bytes |-> <<33>>]>>])]

(* One more field of an existing or a new name (names are kept in order). *)
Pushed(p, f) ==
  LET same == {i \in 1..Len(p.ents) : p.ents[i].name = f.name}
      new == [name |-> f.name, datas |-> f.dest]
  IN IF f.dest = <<>> THEN {p}
     ELSE IF same # {} THEN {[p EXCEPT !.ents[CHOOSE i \in same : TRUE].datas = @ \o f.dest, !.cnt = @ + 1]}
     ELSE {[p EXCEPT !.ents = SubSeq(p.ents, 1, i) \o <<new>> \o SubSeq(p.ents, i + 1, Len(p.ents)), !.cnt = @ + 1] : i \in 0..Len(p.ents)}

Over1(s) == {[s EXCEPT !.life = "over"]}

ResAfter(P, s, e) ==
  LET t == P.value.t IN
  IF s.life # "value" THEN {}
  ELSE
  CASE e.op = "map" ->
         LET q == IF s.v = "error" THEN s.p ELSE Marked(t, s.p) IN
         IF /\ e.calls = (IF s.v = "error" THEN 0 ELSE 1)
            /\ e.v = s.v /\ e.why = s.why /\ (s.v = "error" \/ s.why = "io" => e.err = s.err)
            /\ e.some = (IF s.v = "error" THEN <<>> ELSE <<q>>)
         THEN {[s EXCEPT !.p = q, !.part = <<>>]} ELSE {}
    [] e.op \in {"okish", "intoentries"} -> IF e.some = Ok1(s) /\ e.errs = <<>> THEN Over1(s) ELSE {}
    [] e.op = "both" -> IF e.some = Ok1(s) /\ e.errs = (IF IoCase(s) THEN <<s.err>> ELSE <<>>) THEN Over1(s) ELSE {}
    [] e.op = "result" -> IF e.some = Ok1(s) /\ e.errs = (IF s.v = "error" THEN <<s.err>> ELSE <<>>) THEN Over1(s) ELSE {}
    [] e.op = "strict" ->
         IF IF s.v = "full" THEN e.some = <<s.p>> /\ e.errs = <<>>
            ELSE e.some = <<>> /\ Len(e.errs) = 1 /\ (IoCase(s) => e.errs = <<s.err>>)
         THEN Over1(s) ELSE {}
    [] e.op = "discard" -> IF s.v = "partial" /\ e.some = <<s.p>> THEN Over1(s) ELSE {}
    [] e.op = "keeppartial" ->
         IF s.v = "partial" /\ Len(e.some) = 1 /\ e.some[1] \in (IF s.part = <<>> THEN {s.p} ELSE Pushed(s.p, s.part[1]))
         THEN Over1(s) ELSE {}
    [] e.op \in {"unwraperr", "expecterr"} ->
         IF s.v = "partial" /\ (IF s.why = "io" THEN e.errs = <<s.err>> /\ ~e.panicked ELSE e.errs = <<>> /\ e.panicked /\ HasSub(e.msg, e.given))
         THEN Over1(s) ELSE {}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* The answer to asking for an entry: [v, n, err]; v: entry, end, error.    *)
NextStart(P) == [life |-> "value"]
NextResAfter(P, s, e) ==
  LET v == P.value.v
      got == e.some = <<P.value.n>> /\ ~e.panicked /\ e.errs = <<>>
      none == e.some = <<>> /\ ~e.panicked /\ e.errs = <<>>
      died(msgs) == e.panicked /\ e.some = <<>> /\ \A m \in msgs : HasSub(e.msg, m)
  IN IF s.life # "value" THEN {}
     ELSE IF
       CASE e.op = "result" -> (IF v = "entry" THEN got ELSE IF v = "end" THEN none ELSE e.errs = <<P.value.err>> /\ e.some = <<>> /\ ~e.panicked)
         [] e.op = "unwrap" -> (IF v = "entry" THEN got ELSE died({}))
         [] e.op = "expect" -> (IF v = "entry" THEN got ELSE IF v = "end" THEN died({e.given}) ELSE died({e.given, P.value.err}))
         [] e.op = "expectalt" -> (IF v = "entry" THEN got ELSE IF v = "end" THEN died({e.given}) ELSE died({e.given2, P.value.err}))
         [] e.op = "unwrapopt" -> (IF v = "entry" THEN got ELSE IF v = "end" THEN none ELSE died({}))
         [] e.op = "expectopt" -> (IF v = "entry" THEN got ELSE IF v = "end" THEN none ELSE died({e.given, P.value.err}))
         [] OTHER -> FALSE
     THEN Over1(s) ELSE {}

-----------------------------------------------------------------------------
(* Saved data, read back. P.value: [kind, bytes]; pos: what was read so far;*)
(* peek: how much was shown and not consumed.                              *)
DataStart(P) == [pos |-> 0, peek |-> 0, open |-> FALSE]
DataAfter(P, s, e) ==
  LET b == P.value.bytes
      left == Len(b) - s.pos
      next(o) == Len(o) <= left /\ SubSeq(b, s.pos + 1, s.pos + Len(o)) = o
  IN CASE e.op = "made" -> IF e.kind = P.value.kind /\ e.size = Len(b) /\ e.mem = (e.kind # "file") THEN {s} ELSE {}
       [] e.op = "open" -> IF e.res = "ok" THEN {[DataStart(P) EXCEPT !.open = TRUE]} ELSE {}
       [] e.op = "dread" -> IF s.open /\ e.res = "ok" /\ next(e.out) /\ Len(e.out) <= e.n /\ (e.n > 0 /\ left > 0 => e.out # <<>>)
                            THEN {[s EXCEPT !.pos = @ + Len(e.out), !.peek = 0]} ELSE {}
       [] e.op = "dfill" -> IF s.open /\ e.res = "ok" /\ next(e.out) /\ Len(e.out) >= s.peek /\ (left > 0 => e.out # <<>>)
                            THEN {[s EXCEPT !.peek = Len(e.out)]} ELSE {}
       [] e.op = "dconsume" -> IF s.open /\ e.n <= s.peek THEN {[s EXCEPT !.pos = @ + e.n, !.peek = @ - e.n]} ELSE {}
       [] e.op = "dall" -> IF s.open /\ e.res = "ok" /\ e.out = SubSeq(b, s.pos + 1, Len(b)) THEN {[s EXCEPT !.pos = Len(b), !.peek = 0]} ELSE {}
       [] OTHER -> {}

-----------------------------------------------------------------------------
(* A set of entries in the caller's hands: its fields are public. fs: a      *)
(* sequence of [name, bytes] in order of arrival; cnt: the count kept apart. *)
SetStart(P) == [fs |-> <<>>, cnt |-> 0]
NamesOf(s) == {s.fs[i].name : i \in 1..Len(s.fs)}
NOf(s, nm) == Cardinality({i \in 1..Len(s.fs) : s.fs[i].name = nm})
SetAfter(P, s, e) ==
  CASE e.op = "put" -> {[s EXCEPT !.fs = Append(@, [name |-> e.name, bytes |-> e.bytes])]}
    [] e.op = "drop" -> {[s EXCEPT !.fs = SelectSeq(@, LAMBDA f : f.name # e.name)]}
    [] e.op = "count" -> IF e.n = s.cnt THEN {s} ELSE {}
    [] e.op = "recount" -> IF e.n = Len(s.fs) THEN {[s EXCEPT !.cnt = e.n]} ELSE {}
    [] e.op = "empty" -> IF e.is = (s.fs = <<>>) THEN {s} ELSE {}
    [] e.op = "debug" ->
         IF e.res = "ok"
         THEN (IF ~e.wfault /\ \A i \in 1..Len(s.fs) : HasSub(e.out, s.fs[i].name) /\ HasSub(e.out, s.fs[i].bytes) THEN {s} ELSE {})
         ELSE (IF e.wfault THEN {s} ELSE {})
    [] OTHER -> {}
=============================================================================
