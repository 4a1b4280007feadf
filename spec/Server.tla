------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The observable contract of the server side of multipart.                *)
(*                                                                         *)
(* P is the meaning of the request: Framing!Parse plus the body bytes.     *)
(* A state s says where the caller is:                                     *)
(*   part  the number of parts that have been handed out (or passed over)  *)
(*   off   how many bytes of the current part's data were delivered        *)
(*   ph    "between" entries, in the "data" of one, at the "end", "dead"   *)
(*   peek  bytes the caller has been shown but has not consumed            *)
(*   min   the least that it asked to be shown at a time, as far as there is *)
(*         that much and all but what may belong to a delimiter            *)
(*   ents  fields kept by whole-request saves, in arrival order            *)
(* After(P, s, e) is the set of states the caller may be in after the      *)
(* observed event e; the event is a violation if the set is empty.         *)
(*                                                                         *)
(* Every event carries  faults: the errors the transport returned during   *)
(* the call, and  post: how often the call read from the transport after   *)
(* it had ended.                                                           *)
(***************************************************************************)
EXTENDS Framing

NoLimit == -1
MaxPostReads == 64

Start == [part |-> 0, off |-> 0, ph |-> "between", peek |-> 0, min |-> 0, ents |-> <<>>]

Hard(e) == \E i \in 1..Len(e.faults) : e.faults[i] # "Interrupted"
Soft(e) == e.faults # <<>>
Bounded(e) == e.post <= MaxPostReads

PartLen(pt) == pt.de - pt.ds + 1
Data(P, i) == SubSeq(P.b, P.parts[i].ds, P.parts[i].de)
DataLen(P, i) == PartLen(P.parts[i])
Chunk(P, s, k) == SubSeq(P.b, P.parts[s.part].ds + s.off, P.parts[s.part].ds + s.off + k - 1)
Left(P, s) == DataLen(P, s.part) - s.off

(* The bytes out are the next ones of the current field. *)
IsNext(P, s, out) == Len(out) <= Left(P, s) /\ Chunk(P, s, Len(out)) = out
(* Nothing more needs to be delivered once k more bytes were. *)
Exhausted(P, s, k) == \/ s.off + k = DataLen(P, s.part)
                      \/ P.parts[s.part].open /\ Left(P, s) - k <= P.slack

HeadOk(P, i) == P.parts[i].hd.ok
SameHead(hd, e) ==
  /\ hd.name = e.name
  /\ hd.filename = e.filename
  /\ Len(hd.ctype) = Len(e.ctype)
  /\ (e.ctype # <<>> => SameMime(hd.ctype[1], e.ctype[1]))
  /\ e.istext = IsText(hd)

(* A truncated part whose header block may not have been recognisable.      *)
Doubtful(P, i) == P.parts[i].open /\ PartLen(P.parts[i]) <= P.slack

(* A header block that need not fit into what the reader looks at: more than *)
(* 1000 bytes, less where the data after it may look like a delimiter.       *)
Large(P, i) == P.parts[i].hl > 920 /\ (P.parts[i].hl > 1000 \/ P.parts[i].dash)

-----------------------------------------------------------------------------
(* Asking for the next entry. *)

EndState(s) == [s EXCEPT !.ph = "end", !.peek = 0]
DeadState(s) == [s EXCEPT !.ph = "dead", !.peek = 0]
Lost(P, s) == \* where the reader may be after a transport error between entries
  IF s.ph \in {"end", "dead"} THEN {s}
  ELSE {[s EXCEPT !.ph = "between", !.peek = 0]} \cup
       (IF s.part < Len(P.parts) THEN {[s EXCEPT !.part = @ + 1, !.off = 0, !.ph = "between", !.peek = 0]} ELSE {})

NextErrs(P, s) == \* states after an error that the body itself causes
  LET n == s.part + 1 IN
  IF s.ph = "dead" THEN {s}
  ELSE IF s.ph = "end" THEN {}
  ELSE IF n > Len(P.parts) THEN (IF P.fin = "end" THEN {} ELSE {DeadState(s)})
  ELSE IF HeadOk(P, n) /\ ~Doubtful(P, n) /\ ~Large(P, n) THEN {}
  ELSE \* the broken part is passed over; a reader may also give up altogether
       {[s EXCEPT !.part = n, !.off = 0, !.ph = "between", !.peek = 0], DeadState(s)}

NextEnds(P, s) ==
  IF s.ph = "end" THEN {s}
  ELSE IF s.ph # "dead" /\ s.part = Len(P.parts) /\ P.fin = "end" THEN {EndState(s)} ELSE {}

EntryState(P, s) == [s EXCEPT !.part = @ + 1, !.off = 0, !.ph = "data", !.peek = 0, !.min = 0]
NextEntries(P, s, e) ==
  LET n == s.part + 1 IN
  IF s.ph \in {"between", "data"} /\ n <= Len(P.parts) /\ HeadOk(P, n) /\ SameHead(P.parts[n].hd, e)
  THEN {EntryState(P, s)} ELSE {}

AfterNext(P, s, e) ==
  CASE e.res = "entry" -> IF Hard(e) THEN {} ELSE NextEntries(P, s, e)
    [] e.res = "end" -> IF Hard(e) THEN {} ELSE NextEnds(P, s)
    [] e.res = "err" -> IF Soft(e) THEN Lost(P, s) \cup NextErrs(P, s) ELSE NextErrs(P, s)
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Reading one field. *)

AfterRead(P, s, e) ==
  LET k == Len(e.out) IN
  CASE s.ph # "data" -> {}
    [] e.res = "ok" ->
         IF /\ ~Hard(e) /\ k <= e.n /\ IsNext(P, s, e.out)
            /\ (k = 0 /\ e.n > 0 => Exhausted(P, s, 0))
         THEN {[s EXCEPT !.off = @ + k, !.peek = MaxI(0, @ - k)]} ELSE {}
    [] e.res = "err" -> IF Soft(e) THEN {s} ELSE {}
    [] OTHER -> {}

AfterFill(P, s, e) ==
  LET k == Len(e.out) IN
  CASE s.ph # "data" -> {}
    [] e.res = "ok" ->
         IF /\ ~Hard(e) /\ IsNext(P, s, e.out) /\ k >= s.peek
            /\ (k = 0 => Exhausted(P, s, 0))
            /\ k + P.slack >= MinI(s.min, Left(P, s))
         THEN {[s EXCEPT !.peek = k]} ELSE {}
    [] e.res = "err" -> IF Soft(e) THEN {s} ELSE {}
    [] OTHER -> {}

AfterConsume(P, s, e) ==
  IF s.ph = "data" /\ e.n <= s.peek THEN {[s EXCEPT !.off = @ + e.n, !.peek = @ - e.n]} ELSE {}

AfterSetMin(P, s, e) == IF s.ph = "data" THEN {[s EXCEPT !.min = e.n]} ELSE {}

(* Reading to the end in one call: interruptions are retried. *)
AfterReadAll(P, s, e) ==
  LET k == Len(e.out) IN
  CASE s.ph # "data" -> {}
    [] e.res = "ok" ->
         IF ~Hard(e) /\ IsNext(P, s, e.out) /\ Exhausted(P, s, k)
         THEN {[s EXCEPT !.off = @ + k, !.peek = 0]} ELSE {}
    [] e.res = "err" ->
         IF Soft(e) /\ IsNext(P, s, e.out) THEN {[s EXCEPT !.off = @ + k, !.peek = 0]} ELSE {}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Saving one field. o = [size, mem, text], -1 for no limit; r is the       *)
(* result [kind, bytes, size]; n is the length of the rest of the field.    *)

Under(limit, n) == limit = NoLimit \/ n <= limit
Above(a, b) == a = NoLimit \/ (b # NoLimit /\ a > b)   \* limit a is larger than limit b

Contents(P, s, r) == IsNext(P, s, r.bytes) /\ r.size = Len(r.bytes) /\ r.kind \in {"text", "bytes", "file"}
(* The file is opened in the way that the caller asked for. *)
OpenOk(o, r) == (r.kind = "file" /\ "open" \in DOMAIN o /\ o.open = "private") => r.private
TextOk(o, r) == r.kind = "text" => o.text # "ignore" /\ ValidUtf8(r.bytes)

(* Where a field of n bytes belongs. *)
MustBeMemory(o, n) == (Under(o.mem, n) /\ o.mem # 0) \/ ~Above(o.size, o.mem)
MustBeFile(o, n) == n > 0 /\ ~Under(o.mem, n) /\ Above(o.size, o.mem)

FullOk(P, s, o, r) ==
  LET n == Len(r.bytes) IN
  /\ Contents(P, s, r) /\ Exhausted(P, s, n)
  /\ Under(o.size, n)
  /\ TextOk(o, r) /\ OpenOk(o, r)
  /\ (MustBeMemory(o, n) => r.kind # "file")
  /\ (MustBeFile(o, n) => r.kind = "file")
  /\ (r.kind = "bytes" /\ o.text = "try" => ~ValidUtf8(r.bytes))
  /\ (r.kind = "bytes" => o.text # "force")

(* A save that stops early has kept a prefix, and at most the limit. *)
PartOk(P, s, o, r) ==
  /\ Contents(P, s, r)
  /\ Under(o.size, Len(r.bytes))
  /\ TextOk(o, r) /\ OpenOk(o, r)
  /\ (r.kind = "file" => Above(o.size, o.mem))

(* The field has more bytes than the limit (of a truncated field only the    *)
(* bytes that are there count).                                              *)
TooLong(P, s, o) == o.size # NoLimit /\ Left(P, s) > o.size
(* It is not text, as far as it can matter to a forced-text save. *)
NotText(P, s, o) == o.text = "force" /\ (P.parts[s.part].open \/ ~ValidUtf8(Chunk(P, s, Left(P, s))))
(* The save had to use a file. *)
NeedsFile(P, s, o) == o.mem = 0 \/ (~Under(o.mem, Left(P, s)) /\ Above(o.size, o.mem))
(* The file cannot be opened, or is to hold more than can be written to it   *)
(* (e.disk: <<>> or <<the length a file can have>>).                         *)
NoFile(P, s, o, e) == NeedsFile(P, s, o)
                      /\ (e.badtarget \/ (e.disk # <<>> /\ Left(P, s) > e.disk[1] /\ Above(o.size, e.disk[1])))
Fits(e, r) == r.kind = "file" /\ e.disk # <<>> => Len(r.bytes) <= e.disk[1]

Reason(P, s, o, e, why, kind) ==
  CASE why = "size" -> ~Hard(e) /\ TooLong(P, s, o)
                       /\ (kind # "file" => (~Above(o.size, o.mem) \/ o.mem = NoLimit))
    [] why = "utf8" -> ~Hard(e) /\ NotText(P, s, o) /\ kind # "file"
    [] why = "io" -> Hard(e) \/ NoFile(P, s, o, e)
    [] OTHER -> FALSE

Saved(s, k) == [s EXCEPT !.off = @ + k, !.peek = 0]

(* e: [res, why, r (<<>> or <<r>>), badtarget, disk, newfiles, strayfiles]  *)
AfterSave(P, s, e) ==
  IF s.ph # "data" THEN {}
  ELSE IF e.strayfiles # 0 THEN {}
  ELSE
  CASE e.res = "full" ->
         IF /\ ~Hard(e) /\ FullOk(P, s, e.o, e.r[1])
            /\ e.newfiles = (IF e.r[1].kind = "file" THEN 1 ELSE 0)
            /\ ~(e.badtarget /\ e.r[1].kind = "file") /\ Fits(e, e.r[1])
         THEN {Saved(s, Len(e.r[1].bytes))} ELSE {}
    [] e.res = "partial" ->
         IF /\ PartOk(P, s, e.o, e.r[1])
            /\ Reason(P, s, e.o, e, e.why, e.r[1].kind)
            /\ (e.r[1].kind # "file" /\ e.why # "io" => e.newfiles = 0)
            /\ e.newfiles <= 1
            /\ (e.r[1].kind = "file" => e.newfiles = 1)
            /\ (MustBeMemory(e.o, Left(P, s)) => e.newfiles = 0)
         THEN {Saved(s, Len(e.r[1].bytes))} ELSE {}
    [] e.res = "error" ->
         IF /\ Hard(e) \/ NoFile(P, s, e.o, e)
            /\ (MustBeMemory(e.o, Left(P, s)) => e.newfiles = 0)
         THEN {[s EXCEPT !.peek = 0]} ELSE {}
    [] OTHER -> {}

(* Saving through a writer: no memory phase, no files. out: what it got.     *)
AfterWriteTo(P, s, e) ==
  LET k == Len(e.out) IN
  IF s.ph # "data" \/ ~IsNext(P, s, e.out) THEN {}
  ELSE
  CASE e.res = "full" ->
         IF ~Hard(e) /\ ~e.wfault /\ e.n = k /\ Exhausted(P, s, k) /\ Under(e.o.size, k)
         THEN {Saved(s, k)} ELSE {}
    [] e.res = "partial" ->
         IF /\ e.n = k /\ Under(e.o.size, k)
            /\ CASE e.why = "size" -> ~Hard(e) /\ ~e.wfault /\ TooLong(P, s, e.o)
                 [] e.why = "io" -> Hard(e) \/ e.wfault
                 [] OTHER -> FALSE
         THEN {Saved(s, k)} ELSE {}
    [] e.res = "error" -> IF (Hard(e) \/ e.wfault) /\ k = 0 THEN {[s EXCEPT !.peek = 0]} ELSE {}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Saving a whole request into a set of entries, and resuming such a save.   *)
(* e.groups: <<[name, fields]>>, fields <<[filename, ctype, istext, r]>>     *)

FieldOpts(P, i, o) == IF IsText(P.parts[i].hd) THEN o ELSE [o EXCEPT !.text = "ignore"]
EntsTotal(e) == FoldFunction(LAMBDA g, acc : acc + Len(g.fields), 0, e.groups)

EntNames(P, s, k) == [i \in 1..(Len(s.ents) + k) |->
                        IF i <= Len(s.ents) THEN s.ents[i].name ELSE P.parts[s.part + i - Len(s.ents)].hd.name]
Rank(names, i) == Cardinality({j \in 1..i : names[j] = names[i]})

(* The logged field at arrival position i, <<>> if there is none. *)
LoggedAt(e, names, i) ==
  LET G == {g \in 1..Len(e.groups) : e.groups[g].name = names[i]}
  IN IF Cardinality(G) # 1 THEN <<>>
     ELSE LET fs == e.groups[CHOOSE g \in G : TRUE].fields
          IN IF Rank(names, i) > Len(fs) THEN <<>> ELSE <<fs[Rank(names, i)]>>

AtPart(s, i) == [s EXCEPT !.part = i, !.off = 0, !.ph = "data", !.peek = 0]

(* The entries after the call are those before it plus the next k parts.     *)
EntsOk(P, s, e, k) ==
  LET names == EntNames(P, s, k)
      old == Len(s.ents)
  IN /\ \A i \in 1..old : LET f == LoggedAt(e, names, i) IN f # <<>> /\ f[1] = s.ents[i].f
     /\ \A i \in (old + 1)..(old + k) :
          LET f == LoggedAt(e, names, i)
              q == s.part + i - old
          IN /\ f # <<>>
             /\ SameHead(P.parts[q].hd, [f[1] EXCEPT !.name = names[i]])
             /\ FullOk(P, AtPart(s, q), FieldOpts(P, q, e.o), f[1].r)
EntsAfter(P, s, e, k) ==
  LET names == EntNames(P, s, k)
  IN [i \in 1..(Len(s.ents) + k) |-> [name |-> names[i], f |-> LoggedAt(e, names, i)[1]]]

(* Files in the save directory are exactly those of the entries and of the   *)
(* partial field.                                                            *)
FilesOk(e, ents, pr) ==
  LET F == {i \in 1..Len(ents) : ents[i].f.r.kind = "file"}
      p == IF pr # <<>> /\ pr[1].kind = "file" THEN 1 ELSE 0
  IN /\ e.strayfiles = 0
     /\ \A i \in F : ents[i].f.r.indir
     /\ (p = 1 => pr[1].indir)
     /\ Cardinality({ents[i].f.r.pid : i \in F}) = Cardinality(F)
     /\ (p = 1 => \A i \in F : ents[i].f.r.pid # pr[1].pid)

CountFull(o, n) == o.count # NoLimit /\ n >= o.count

AfterSaveAll(P, s, e) ==
  LET k == EntsTotal(e) - Len(s.ents)
      n == s.part + k + 1
      ents2 == EntsAfter(P, s, e, k)
      s2 == [s EXCEPT !.part = s.part + k, !.off = 0, !.ph = IF k > 0 THEN "between" ELSE @, !.peek = 0, !.ents = ents2]
      s3 == [AtPart(s2, n) EXCEPT !.ents = ents2]
      o3 == FieldOpts(P, n, e.o)
      pt == e.partial[1]
      dest == IF e.partial = <<>> THEN <<>> ELSE pt.dest
  IN IF e.res = "error" THEN (IF e.badtarget /\ k = 0 THEN {s} ELSE {})
     ELSE IF s.ph = "end" /\ (e.res # "full" \/ k # 0) THEN {}
     ELSE IF k < 0 \/ s.part + k > Len(P.parts) \/ (\E i \in (s.part + 1)..(s.part + k) : ~HeadOk(P, i)) THEN {}
     ELSE IF ~EntsOk(P, s, e, k) \/ ~FilesOk(e, ents2, dest) \/ e.count # Len(ents2) THEN {}
     ELSE IF k > 0 /\ e.o.count # NoLimit /\ Len(ents2) > e.o.count THEN {}
     ELSE
     CASE e.res = "full" -> IF Hard(e) THEN {} ELSE NextEnds(P, s2)
       [] e.res = "partial" /\ e.partial = <<>> ->
            IF e.why # "io" THEN {}
            ELSE IF Soft(e) THEN Lost(P, s2) \cup NextErrs(P, s2) ELSE NextErrs(P, s2)
       [] e.res = "partial" /\ e.partial # <<>> ->
            IF n > Len(P.parts) \/ ~HeadOk(P, n) \/ s.ph \in {"end", "dead"} \/ ~SameHead(P.parts[n].hd, pt) THEN {}
            ELSE IF e.why = "count"
                 THEN IF ~Hard(e) /\ dest = <<>> /\ CountFull(e.o, Len(ents2)) THEN {s3} ELSE {}
            ELSE IF CountFull(e.o, Len(ents2)) THEN {}
            ELSE IF dest = <<>>
                 THEN IF e.why = "io" /\ (Hard(e) \/ NoFile(P, s3, o3, e)) THEN {s3} ELSE {}
            ELSE IF PartOk(P, s3, o3, dest[1]) /\ Reason(P, s3, o3, e, e.why, dest[1].kind)
                 THEN {Saved(s3, Len(dest[1].bytes))} ELSE {}
       [] OTHER -> {}

(* The caller keeps the partial field (e.fields: its record) or removes      *)
(* entries; the entries are logged again.                                    *)
AfterKeep(P, s, e) ==
  IF s.ph # "data" \/ e.f.name # P.parts[s.part].hd.name THEN {}
  ELSE {[s EXCEPT !.ents = Append(@, [name |-> e.f.name, f |-> e.f])]}
AfterDropEnts(P, s, e) == {[s EXCEPT !.ents = SelectSeq(@, LAMBDA x : x.name # e.name)]}

-----------------------------------------------------------------------------
After(P, s, e) ==
  IF ~Bounded(e) THEN {}
  ELSE
  CASE e.op = "next" -> AfterNext(P, s, e)
    [] e.op = "read" -> AfterRead(P, s, e)
    [] e.op = "fill" -> AfterFill(P, s, e)
    [] e.op = "consume" -> AfterConsume(P, s, e)
    [] e.op = "setmin" -> AfterSetMin(P, s, e)
    [] e.op = "readall" -> AfterReadAll(P, s, e)
    [] e.op = "save" -> AfterSave(P, s, e)
    [] e.op = "writeto" -> AfterWriteTo(P, s, e)
    [] e.op = "saveall" -> AfterSaveAll(P, s, e)
    [] e.op = "keep" -> AfterKeep(P, s, e)
    [] e.op = "dropents" -> AfterDropEnts(P, s, e)
    [] OTHER -> {}     \* "panic", "hang", "abort": no state allows them
=============================================================================
