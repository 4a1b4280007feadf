----------------------------- MODULE ClientImpl -----------------------------
(***************************************************************************)
(* The design of the client side (src/client/mod.rs: MultipartWriter,      *)
(* sized.rs: SizedRequest, lazy.rs: PreparedFields, Multipart::send), over *)
(* arbitrary source streams (short reads, interruptions, failures) and an  *)
(* arbitrary transport (refusal, failure to open, short writes,            *)
(* interruptions, failures, writes of nothing, failure to finish), with a  *)
(* caller that stops at an error, goes on adding, or sends nevertheless.   *)
(*                                                                         *)
(* A header block is one byte: 72, 73 text fields, 82, 83 streams, 70, 71  *)
(* files; the boundary is one byte, 66.                                    *)
(***************************************************************************)
EXTENDS Client, TLC

CONSTANTS Modes, Kinds, Alphabet, MaxData, MaxFields,
          Caps,      \* window sizes the caller of a prepared request reads with
          MaxErr, MaxSoft, MaxReads,
          Shorts,    \* sizes of short reads and writes (beside whole ones)
          Rounds,    \* sizes of a first request that the same lazy Multipart is used for, before the rest of the fields
          Defects, Record

Has(x) == x \in Defects
VARIABLES lo, rnd  \* lazy: the fields of the requests made before with this Multipart, the number of this one
Cur == [lo |-> lo, round |-> rnd]
Bnd == IF Has("boundary-kept") THEN <<66>> ELSE <<65 + rnd>>
Delim0 == DASHES \o Bnd
KindOf(c) == IF c \in {72, 73} THEN "text" ELSE IF c \in {82, 83} THEN "stream" ELSE "file"
FileName == <<102>>
AbsHeaderOf(h) ==
  IF h \in {<<72>>, <<73>>} THEN [ok |-> TRUE, name |-> h, filename |-> <<>>, ctype |-> <<>>]
  ELSE IF h \in {<<82>>, <<83>>} THEN [ok |-> TRUE, name |-> h, filename |-> <<>>, ctype |-> <<S_OCTET>>]
  ELSE IF h \in {<<70>>, <<71>>} THEN [ok |-> TRUE, name |-> h, filename |-> <<FileName>>, ctype |-> <<S_OCTET>>]
  ELSE BadHeader

Datas == UNION {[1..k -> Alphabet] : k \in 0..MaxData}
Field(c, d, m) == [t |-> KindOf(c), name |-> <<c>>, data |-> d, missing |-> m,
                   filename |-> IF KindOf(c) = "file" THEN <<FileName>> ELSE <<>>,
                   ctype |-> IF KindOf(c) = "file" THEN <<S_OCTET>> ELSE <<>>]
(* a missing file has no contents *)
Fields == {Field(c, d, FALSE) : c \in Kinds, d \in Datas} \cup {Field(c, <<>>, TRUE) : c \in Kinds \cap {70, 71}}
Requests == UNION {[1..k -> Fields] : k \in 0..MaxFields}

VARIABLES P,      \* the request: mode, fields
          pc,     \* start, idle, run, put, fin, over
          op,     \* the call in progress: new, add, send, prep, pread
          n,      \* fields added so far
          q,      \* what is still to be written: <<[k |-> "b", b] or [k |-> "s", i]>>
          chunk,  \* read and not yet written
          cap,    \* prepared: the window of this read
          dw,     \* data_written
          buf,    \* measured: the content so far
          sized,  \* measured: the content is being sent
          src,    \* position in each field's data
          tev, fh, fw, fs, softs,  \* what the transport and the streams did during the call
          errs, sofs, reads, S, rec
vars == <<lo, rnd, P, pc, op, n, q, chunk, cap, dw, buf, sized, src, tev, fh, fw, fs, softs, errs, sofs, reads, S, rec>>

Init == /\ \E m \in Modes, f \in Requests :
                \/ P = [mode |-> m, fields |-> f, rounds |-> <<>>]
                \/ \E r \in Rounds : r > 0 /\ r <= Len(f) /\ m \in {"lazy", "prepared"}
                                     /\ P = [mode |-> m, fields |-> f, rounds |-> <<r, Len(f) - r>>]
        /\ lo = 0 /\ rnd = 1
        /\ pc = "start" /\ op = "" /\ n = 0 /\ q = <<>> /\ chunk = <<>> /\ cap = 0 /\ dw = FALSE /\ buf = <<>> /\ sized = FALSE
        /\ src = [i \in 1..Len(P.fields) |-> 0]
        /\ tev = <<>> /\ fh = <<>> /\ fw = <<>> /\ fs = <<>> /\ softs = 0
        /\ errs = 0 /\ sofs = 0 /\ reads = 0 /\ S = {CliStart} /\ rec = <<>>

F(i) == P.fields[i]
B(b) == [k |-> "b", b |-> b, i |-> 0]
Str(i) == [k |-> "s", b |-> <<>>, i |-> i]
Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec
Apply(len, ok) == [t |-> "apply", bnd |-> Bnd, len |-> len, ok |-> ok]
Open(ok) == [t |-> "open", ok |-> ok]
Fin(ok) == [t |-> "fin", ok |-> ok]
OutTo(t, b) == IF t # <<>> /\ t[Len(t)].t = "out" THEN [t EXCEPT ![Len(t)].b = @ \o b]
               ELSE Append(t, [t |-> "out", b |-> b])

(* The call returns. e: what it returned; t, h, w, s, x: all that happened during it. *)
Observe(e, t, h, w, s, x) ==
  /\ S' = UNION {CliAfter(P, z, e @@ [tev |-> t, hardt |-> h, hardw |-> w, hards |-> s, softs |-> x, post |-> 0]) : z \in S}
  /\ tev' = <<>> /\ fh' = <<>> /\ fw' = <<>> /\ fs' = <<>> /\ softs' = 0
Result(r, t, h, w, s, x, name) ==
  Observe([op |-> op, res |-> r, i |-> n, errname |-> name, n |-> cap, k |-> 0], t, h, w, s, x)
(* The call goes on; t: what the transport saw. *)
Quiet(t) == tev' = t /\ UNCHANGED <<fh, fw, fs, softs, S>>

Budget == errs < MaxErr /\ errs' = errs + 1
Rest == UNCHANGED <<errs, sofs>>

-----------------------------------------------------------------------------
(* Starting. *)

New == /\ pc = "start" /\ P.mode \in {"eager", "sized"}
       /\ op' = "new" /\ UNCHANGED <<P, n, q, chunk, cap, dw, buf, sized, src, sofs, reads>>
       /\ \/ /\ pc' = "idle" /\ UNCHANGED errs /\ Note([t |-> "new"])
             /\ S' = UNION {CliAfter(P, z, [op |-> "new", res |-> "ok", hardt |-> <<>>, hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0,
                                            tev |-> IF P.mode = "eager" THEN <<Apply(<<>>, TRUE), Open(TRUE)>> ELSE <<>>]) : z \in S}
          \/ /\ P.mode = "eager" /\ Budget /\ \E refuse \in BOOLEAN :
                /\ pc' = IF refuse THEN "idle" ELSE "over"
                /\ Note([t |-> IF refuse THEN "refuse" ELSE "openfail"])
                /\ S' = UNION {CliAfter(P, z, [op |-> "new", res |-> IF refuse THEN "ok" ELSE "err",
                           hardt |-> IF refuse THEN <<"refuse">> ELSE <<"open">>,
                           hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0,
                           tev |-> <<Apply(<<>>, ~refuse), Open(refuse)>>]) : z \in S}
       /\ UNCHANGED <<tev, fh, fw, fs, softs>>

(* PreparedFields::from_fields: texts are joined, streams are kept in a stack. *)
LDelim == CRLF \o Delim0
Item(i) == LDelim \o CRLF \o F(i).name \o <<13,10,13,10>>
(* The fields are taken out of the Multipart when a request is made of them. *)
MyIdx == IF Has("fields-kept") /\ P.rounds # <<>> THEN [i \in 1..lo + P.rounds[rnd] |-> i] ELSE AllIdx(P, Cur)
TextData == FoldLeft(LAMBDA a, i : IF F(i).t = "text" THEN a \o Item(i) \o F(i).data ELSE a, <<>>, MyIdx)
Stack == FoldLeft(LAMBDA a, i : IF F(i).t = "text" THEN a
                                ELSE IF Has("header-lost") THEN <<[k |-> "hs", b |-> Item(i), i |-> i]>> \o a
                                ELSE <<B(Item(i)), Str(i)>> \o a, <<>>, MyIdx)
LazyQ == (IF TextData = <<>> THEN <<>> ELSE <<B(TextData)>>)
         \o (IF Has("queue-order") THEN Reverse(Stack) ELSE Stack)
         \o (IF Has("no-final") THEN <<B(LDelim)>> ELSE <<B(LDelim \o DASHES)>>)
LazyLen ==
  IF HasStream(P, Cur) /\ ~Has("length-with-stream") THEN <<>>
  ELSE <<FoldLeft(LAMBDA a, i : IF F(i).t = "text" THEN a
                    ELSE a + Len(F(i).data) + (IF Has("length-without-headers") THEN 0 ELSE Len(Item(i))), 0, MyIdx)
         + Len(TextData) + (IF Has("length-without-end") THEN Len(LDelim) ELSE Len(LDelim) + 2)>>
FirstMissing == Min(Missing(P, Cur))
(* Files are opened in order, before anything is announced. *)
Early == Missing(P, Cur) # {} /\ ~Has("open-late")

LazyStart ==
  /\ pc = "start" /\ P.mode \in {"lazy", "prepared"}
  /\ UNCHANGED <<P, chunk, dw, buf, sized, src, sofs, reads, cap>>
  /\ op' = IF P.mode = "lazy" THEN "send" ELSE "prep"
  /\ n' = Len(P.fields)
  /\ IF Early
     THEN /\ pc' = "over" /\ q' = q /\ UNCHANGED errs /\ Note([t |-> "new"])
          /\ S' = UNION {CliAfter(P, z, [op |-> op', res |-> "err", errname |-> <<F(FirstMissing).name>>, tev |-> <<>>,
                           hardt |-> <<>>, hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0]) : z \in S}
          /\ UNCHANGED <<tev, fh, fw, fs, softs>>
     ELSE /\ q' = LazyQ
          /\ IF P.mode = "prepared"
             THEN /\ pc' = "idle" /\ UNCHANGED errs /\ Note([t |-> "new"])
                  /\ S' = UNION {CliAfter(P, z, [op |-> "prep", res |-> "ok", errname |-> <<>>, tev |-> <<Apply(LazyLen, TRUE), Open(TRUE)>>,
                                   hardt |-> <<>>, hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0]) : z \in S}
                  /\ UNCHANGED <<tev, fh, fw, fs, softs>>
             ELSE \/ /\ pc' = "run" /\ UNCHANGED <<errs, fh, fw, fs, softs, S>> /\ Note([t |-> "new"])
                     /\ tev' = <<Apply(LazyLen, TRUE), Open(TRUE)>>
                  \/ /\ Budget /\ UNCHANGED <<fw, fs, softs>>
                     /\ \/ /\ pc' = "run" /\ fh' = <<"refuse">> /\ Note([t |-> "refuse"]) /\ UNCHANGED S
                           /\ tev' = <<Apply(LazyLen, FALSE), Open(TRUE)>>
                        \/ /\ pc' = "over" /\ UNCHANGED <<fh, tev>> /\ Note([t |-> "openfail"])
                           /\ S' = UNION {CliAfter(P, z, [op |-> "send", res |-> "err", errname |-> <<>>,
                                     tev |-> <<Apply(LazyLen, TRUE), Open(FALSE)>>, hardt |-> <<"open">>,
                                     hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0]) : z \in S}

-----------------------------------------------------------------------------
(* Streaming and measured requests. *)

Sep == IF dw /\ ~Has("no-separator") THEN CRLF ELSE <<>>
Add == /\ pc = "idle" /\ P.mode \in {"eager", "sized"} /\ n < Len(P.fields)
       /\ UNCHANGED <<P, chunk, cap, buf, sized, src, errs, sofs, reads>>
       /\ n' = n + 1 /\ op' = "add" /\ Note([t |-> "add"])
       /\ IF F(n').missing
          THEN /\ pc' = "idle" /\ dw' = dw /\ q' = <<>>
               /\ S' = UNION {CliAfter(P, z, [op |-> "add", res |-> "err", i |-> n', tev |-> <<>>,
                          hardt |-> <<>>, hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0]) : z \in S}
               /\ UNCHANGED <<tev, fh, fw, fs, softs>>
          ELSE /\ pc' = "run" /\ dw' = dw
               /\ q' = <<B(Sep \o Delim0 \o CRLF), [k |-> "dw", b |-> <<>>, i |-> 0], B(F(n').name \o <<13,10,13,10>>)>>
                       \o (IF F(n').t = "text" THEN (IF F(n').data = <<>> THEN <<>> ELSE <<B(F(n').data)>>) ELSE <<Str(n')>>)
               /\ Quiet(tev)

Send == /\ pc = "idle" /\ P.mode \in {"eager", "sized"} /\ (n = Len(P.fields) \/ \E z \in S : z.failed)
        /\ UNCHANGED <<P, n, chunk, cap, dw, buf, sized, src, errs, sofs, reads>>
        /\ op' = "send" /\ pc' = "run" /\ Note([t |-> "send"])
        /\ q' = <<B((IF dw THEN CRLF ELSE <<>>) \o Delim0 \o (IF Has("no-final") THEN CRLF ELSE DASHES \o CRLF))>>
        /\ Quiet(tev)

(* A caller who stops after a failure. *)
GiveUp == /\ pc = "idle" /\ P.mode \in {"eager", "sized"} /\ (\E z \in S : z.failed) /\ pc' = "over" /\ Note([t |-> "stop"])
          /\ UNCHANGED <<P, op, n, q, chunk, cap, dw, buf, sized, src, tev, fh, fw, fs, softs, errs, sofs, reads, S>>

-----------------------------------------------------------------------------
(* Reading a prepared request; also what copying a lazy one does (with a     *)
(* window of some size). chunk: what is in the window.                      *)

Lazily == P.mode \in {"lazy", "prepared"}
Pread == /\ pc = "idle" /\ P.mode = "prepared" /\ reads < MaxReads
         /\ reads' = reads + 1 /\ op' = "pread" /\ cap' \in Caps /\ chunk' = <<>>
         /\ pc' = "run" /\ Quiet(tev) /\ UNCHANGED rec
         /\ UNCHANGED <<P, n, q, dw, buf, sized, src, errs, sofs>>

Window == IF P.mode = "prepared" THEN cap ELSE 1000
FillsUp == Has("fills-up") \/ Has("interrupted-loses") \/ Has("empty-read-ends")
(* a read ends as soon as it has something, as an error would lose that *)
Room == IF ~Lazily THEN 1000 ELSE IF chunk # <<>> /\ ~FillsUp THEN 0 ELSE Window - Len(chunk)
Done(r) == (* a read of the prepared request returns what it has *)
  /\ pc' = "idle" /\ chunk' = <<>> /\ UNCHANGED q /\ Rest /\ Note([t |-> "pread", b |-> chunk, n |-> cap])
  /\ LET t == IF chunk = <<>> THEN tev ELSE OutTo(tev, chunk)
     IN Observe([op |-> "pread", res |-> "ok", n |-> cap, k |-> Len(chunk), errname |-> <<>>], t, fh, fw, fs, softs)
Static == UNCHANGED <<P, op, n, cap, sized, reads>>

(* Nothing left, or no room. *)
Flush == /\ pc = "run" /\ Static /\ UNCHANGED <<dw, buf, src>>
         /\ Lazily
         /\ q = <<>> \/ Room = 0
         /\ IF P.mode = "prepared" THEN Done("ok")
            ELSE /\ Quiet(tev) /\ Rest /\ UNCHANGED <<q, chunk, rec>>
                 /\ pc' = IF chunk = <<>> THEN "fin" ELSE "put"

(* Bytes that are at hand. *)
Fixed == /\ pc = "run" /\ q # <<>> /\ q[1].k = "b" /\ Room > 0 /\ Static /\ Rest /\ UNCHANGED <<dw, buf, src, rec>> /\ Quiet(tev)
         /\ IF Lazily
            THEN LET k == MinI(Room, Len(q[1].b))
                 IN /\ chunk' = chunk \o SubSeq(q[1].b, 1, k) /\ pc' = "run"
                    /\ q' = IF k = Len(q[1].b) THEN Tail(q) ELSE <<B(Drop(q[1].b, k))>> \o Tail(q)
            ELSE chunk' = q[1].b /\ pc' = "put" /\ q' = Tail(q)

Mark == /\ pc = "run" /\ q # <<>> /\ q[1].k = "dw" /\ dw' = TRUE /\ q' = Tail(q) /\ Quiet(tev) /\ Static /\ Rest
        /\ UNCHANGED <<pc, chunk, buf, src, rec>>

(* header-lost: the header and the stream are one item, dropped together *)
Both == /\ pc = "run" /\ q # <<>> /\ q[1].k = "hs" /\ Room > 0 /\ Static /\ Rest /\ UNCHANGED <<dw, buf, src, rec>> /\ Quiet(tev)
        /\ LET k == MinI(Room, Len(q[1].b))
           IN chunk' = chunk \o SubSeq(q[1].b, 1, k) /\ pc' = "run" /\ q' = <<Str(q[1].i)>> \o Tail(q)

(* A stream: some bytes, its end, an interruption, a failure. *)
Fetch == /\ pc = "run" /\ q # <<>> /\ q[1].k = "s" /\ Room > 0 /\ Static /\ UNCHANGED <<dw, buf>>
         /\ LET i == q[1].i
                left == Len(F(i).data) - src[i]
            IN \/ /\ left = 0 /\ q' = Tail(q) /\ Quiet(tev) /\ Rest /\ UNCHANGED <<src, rec>>
                  /\ IF Has("empty-read-ends") /\ Lazily /\ chunk # <<>>
                     THEN pc' = "put" /\ UNCHANGED chunk ELSE UNCHANGED <<pc, chunk>>
               \/ /\ left > 0 /\ Rest
                  /\ \E k \in {MinI(left, Room)} \cup {x \in Shorts : x < MinI(left, Room)} :
                       /\ src' = [src EXCEPT ![i] = @ + k] /\ Note([t |-> "n", i |-> i, n |-> k])
                       /\ q' = IF Has("short-read-ends") /\ k < MinI(left, Room) THEN Tail(q) ELSE q
                       /\ LET b == SubSeq(F(i).data, src[i] + 1, src[i] + k)
                          IN IF Lazily THEN chunk' = chunk \o b /\ pc' = "run" ELSE chunk' = b /\ pc' = "put"
                  /\ Quiet(tev)
               \/ /\ F(i).t = "stream" /\ sofs < MaxSoft /\ sofs' = sofs + 1 /\ UNCHANGED <<errs, src>>
                  /\ Note([t |-> "Interrupted", i |-> i])
                  /\ IF Has("interrupted-loses") /\ Lazily /\ P.mode = "prepared"
                     THEN pc' = "idle" /\ chunk' = <<>> /\ q' = q /\ Observe([op |-> "pread", res |-> "err", n |-> cap, k |-> 0, errname |-> <<>>], tev, fh, fw, fs, softs + 1)
                     ELSE /\ UNCHANGED <<pc, chunk, tev, fh, fw, fs, S>> /\ softs' = softs + 1
                          /\ q' = IF Has("interrupted-drops") THEN Tail(q) ELSE q
               \/ /\ F(i).t = "stream" /\ Budget /\ UNCHANGED <<sofs, src>> /\ Note([t |-> "Other", i |-> i, b |-> chunk, n |-> cap])
                  /\ IF Has("failure-is-end")
                     THEN q' = Tail(q) /\ UNCHANGED <<pc, chunk, tev, fh, fw, softs, S>> /\ fs' = Append(fs, "Other")
                     ELSE /\ chunk' = <<>> /\ Result("err", tev, fh, fw, Append(fs, "Other"), softs, <<>>)
                          /\ IF P.mode = "prepared" THEN pc' = "idle" /\ q' = q
                             ELSE q' = <<>> /\ pc' = IF op = "add" THEN "idle" ELSE "over"

-----------------------------------------------------------------------------
(* write_all of chunk, to the measured content or the transport. *)
ToBuf == P.mode = "sized" /\ ~sized
PutBuf == /\ pc = "put" /\ ToBuf /\ buf' = buf \o chunk /\ chunk' = <<>> /\ pc' = "run" /\ Quiet(tev) /\ Static /\ Rest
          /\ UNCHANGED <<q, dw, src, rec>>

PutSink ==
  /\ pc = "put" /\ ~ToBuf /\ Static /\ UNCHANGED <<dw, buf, src>>
  /\ \/ /\ Rest /\ UNCHANGED q
        /\ \E k \in {Len(chunk)} \cup {x \in Shorts : x < Len(chunk)} :
             /\ Quiet(OutTo(tev, SubSeq(chunk, 1, k))) /\ Note([t |-> "out", b |-> SubSeq(chunk, 1, k)])
             /\ IF k = Len(chunk) \/ Has("write-once") THEN chunk' = <<>> /\ pc' = "run" ELSE chunk' = Drop(chunk, k) /\ pc' = "put"
     \/ /\ sofs < MaxSoft /\ sofs' = sofs + 1 /\ UNCHANGED <<errs, q, pc>> /\ Note([t |-> "wInterrupted"]) /\ Quiet(tev)
        /\ chunk' = IF Has("interrupted-skips") /\ Len(chunk) > 1 THEN Tail(chunk) ELSE chunk
     \/ /\ Budget /\ UNCHANGED sofs
        /\ \E w \in {"Other", "WriteZero"} :
             /\ Note([t |-> "w" \o w])
             /\ IF w = "WriteZero" /\ Has("zero-spins") THEN pc' = "stuck" /\ UNCHANGED <<chunk, q>> /\ Quiet(tev)
                ELSE IF Has("finish-despite-error") /\ op = "send"
                THEN UNCHANGED <<tev, fh, fs, softs, S>> /\ fw' = Append(fw, w) /\ chunk' = <<>> /\ q' = <<>> /\ pc' = "fin"
                ELSE /\ chunk' = <<>> /\ q' = <<>> /\ pc' = IF op = "add" THEN "idle" ELSE "over"
                     /\ Result("err", tev, fh, Append(fw, w), fs, softs, <<>>)

(* Everything of the call was written. *)
EndAdd == /\ pc = "run" /\ q = <<>> /\ ~Lazily /\ op = "add" /\ pc' = "idle" /\ Static /\ Rest /\ UNCHANGED <<q, chunk, dw, buf, src, rec>>
          /\ Result("ok", tev, fh, fw, fs, softs, <<>>)
Announce ==
  /\ pc = "run" /\ q = <<>> /\ ToBuf /\ op = "send" /\ UNCHANGED <<P, op, n, cap, dw, buf, src, chunk, sofs, reads>>
  /\ LET len == <<Len(buf)>> IN
     \/ /\ pc' = "run" /\ sized' = TRUE /\ UNCHANGED <<errs, rec>> /\ q' = (IF buf = <<>> THEN <<>> ELSE <<B(buf)>>)
        /\ Quiet(tev \o <<Apply(len, TRUE), Open(TRUE)>>)
     \/ /\ Budget
        /\ \/ IF Has("ignore-refusal")
              THEN /\ pc' = "run" /\ sized' = TRUE /\ q' = <<B(buf)>> /\ UNCHANGED <<fw, fs, softs, S>>
                   /\ tev' = tev \o <<Apply(len, FALSE), Open(TRUE)>> /\ fh' = Append(fh, "refuse") /\ Note([t |-> "refuse"])
              ELSE /\ pc' = "over" /\ UNCHANGED <<sized, q>> /\ Note([t |-> "refuse"])
                   /\ Result("err", Append(tev, Apply(len, FALSE)), Append(fh, "refuse"), fw, fs, softs, <<>>)
           \/ /\ pc' = "over" /\ UNCHANGED <<sized, q>> /\ Note([t |-> "openfail"])
              /\ Result("err", tev \o <<Apply(len, TRUE), Open(FALSE)>>, Append(fh, "open"), fw, fs, softs, <<>>)
AllOut == /\ pc = "run" /\ q = <<>> /\ ~Lazily /\ ~ToBuf /\ op = "send" /\ pc' = "fin" /\ Quiet(tev) /\ Static /\ Rest
          /\ UNCHANGED <<q, chunk, dw, buf, src, rec>>
Finish == /\ pc = "fin" /\ pc' = "over" /\ Static /\ UNCHANGED <<q, chunk, dw, buf, src, sofs>>
          /\ \/ UNCHANGED <<errs, rec>> /\ Result("ok", Append(tev, Fin(TRUE)), fh, fw, fs, softs, <<>>)
             \/ Budget /\ Note([t |-> "finfail"])
                /\ Result(IF Has("ignore-finish") THEN "ok" ELSE "err", Append(tev, Fin(FALSE)), Append(fh, "fin"), fw, fs, softs, <<>>)

(* The same Multipart is used for another request; what was prepared may be given up. *)
Again == /\ P.rounds # <<>> /\ rnd < Len(P.rounds) /\ \A z \in S : ~z.failed
         /\ pc = "over" \/ (pc = "idle" /\ P.mode = "prepared")
         /\ rnd' = rnd + 1 /\ lo' = lo + P.rounds[rnd] /\ pc' = "start"
         /\ op' = "" /\ n' = 0 /\ q' = <<>> /\ chunk' = <<>> /\ cap' = 0 /\ reads' = 0 /\ Note([t |-> "again"])
         /\ S' = UNION {CliAfter(P, z, [op |-> "next", tev |-> <<>>, hardt |-> <<>>, hardw |-> <<>>, hards |-> <<>>, softs |-> 0, post |-> 0]) : z \in S}
         /\ UNCHANGED <<P, dw, buf, sized, src, tev, fh, fw, fs, softs, errs, sofs>>

Work == /\ Flush \/ Fixed \/ Mark \/ Both \/ Fetch \/ PutBuf \/ PutSink \/ EndAdd \/ Announce \/ AllOut \/ Finish
        /\ UNCHANGED <<lo, rnd>>
Start0 == /\ New \/ LazyStart \/ Add \/ Send \/ GiveUp \/ Pread
          /\ UNCHANGED <<lo, rnd>>
Next == Start0 \/ Again \/ Work
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Work)

(* Everything observed is allowed. *)
Refines == S # {}
TypeOK == /\ pc \in {"start", "idle", "run", "put", "fin", "over"} /\ n \in 0..Len(P.fields)
          /\ \A i \in DOMAIN src : src[i] \in 0..Len(F(i).data)
          /\ (pc = "put" => chunk # <<>>)
(* A measured request sends nothing before everything is measured. *)
QuietUntilMeasured == ToBuf => tev = <<>> /\ \A z \in S : ~z.opened
(* A request that was not refused, with no failure, is sent. *)
NoFalseFailure == (errs = 0 /\ Missing(P, Cur) = {}) => \A z \in S : ~z.failed
Returns == (pc \in {"run", "put", "fin"}) ~> (pc \in {"idle", "over"})
=============================================================================
