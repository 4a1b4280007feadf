------------------------------- MODULE MockImpl -------------------------------
(***************************************************************************)
(* The design of the mock transports and of the tee writer (src/mock.rs):  *)
(* a buffer that takes an arbitrary non-empty prefix of every write, a     *)
(* reader that gives an arbitrary non-empty prefix of what is left, and a  *)
(* tee that writes all to its inner writer and then all to the other.      *)
(* S is the set of contract states (Mock).                                 *)
(***************************************************************************)
EXTENDS Mock

CONSTANTS MaxLen, MaxWrites, MaxRead, Defects, Record

VARIABLES P, kind,       \* "mock" or "tee"
          buf, pos,      \* mock: the stored bytes, and how many were given
          inner, out,    \* tee: what its two outputs have
          n,             \* bytes the caller has made, so that all differ
          w, left,       \* tee: the write under way, and what the inner writer has still to take
          calls, pc, ends, S, rec
vars == <<P, kind, buf, pos, inner, out, n, w, left, calls, pc, ends, S, rec>>

Has(x) == x \in Defects
Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec
New(k) == [i \in 1..k |-> n + i]

Init == /\ kind \in {"mock", "tee"}
        /\ \E k \in 0..1, len \in {<<>>, <<7>>}, f \in 0..2, ff \in BOOLEAN :
             /\ P = [pre |-> [i \in 1..k |-> 100 + i], mbnd |-> <<98>>, len |-> len, failat |-> f, flushfail |-> ff]
             /\ (kind = "mock" => f = 0 /\ ~ff) /\ (kind = "tee" => k = 0 /\ len = <<>>)
             /\ buf = [i \in 1..k |-> 100 + i]
        /\ pos = 0 /\ inner = <<>> /\ out = <<>> /\ n = 0 /\ w = <<>> /\ left = <<>> /\ calls = 0 /\ pc = "go" /\ ends = 0
        /\ S = {IF kind = "mock" THEN MockStart(P) ELSE TeeStart} /\ rec = <<>>

Tell(e) == S' = UNION {IF kind = "mock" THEN MockAfter(P, s, e) ELSE TeeAfter(P, s, e) : s \in S}

-----------------------------------------------------------------------------
(* The mock client stream: one write, or as many as write_all needs. *)
MWrite ==
  /\ kind = "mock" /\ pc = "go" /\ calls < MaxWrites /\ calls' = calls + 1
  /\ \E len \in 0..MaxLen : \E k \in (IF len = 0 THEN {0} ELSE IF Has("takes-nothing") THEN 0..len ELSE 1..len) :
       /\ buf' = buf \o (IF Has("stores-all") THEN New(len) ELSE Take(New(len), k))
       /\ Tell([op |-> "write", b |-> New(len), res |-> "ok", k |-> k, buf |-> buf'])
       /\ n' = n + len /\ Note([op |-> "write", n |-> len])
  /\ UNCHANGED <<P, kind, pos, inner, out, w, left, pc, ends>>
MWriteAll ==
  /\ kind = "mock" /\ pc = "go" /\ calls < MaxWrites /\ calls' = calls + 1
  /\ \E len \in 0..MaxLen :
       /\ buf' = buf \o New(len)
       /\ Tell([op |-> "writeall", b |-> New(len), res |-> "ok", buf |-> buf'])
       /\ n' = n + len /\ Note([op |-> "writeall", n |-> len])
  /\ UNCHANGED <<P, kind, pos, inner, out, w, left, pc, ends>>
(* The server request over the buffer, by way of the buffer or directly. *)
Serve ==
  /\ kind = "mock" /\ pc = "go" /\ pc' = "read"
  /\ \E direct \in BOOLEAN :
       /\ Tell([op |-> "server", data |-> buf, bnd |-> P.mbnd, direct |-> direct,
                len |-> IF direct THEN <<>> ELSE IF Has("measures") /\ P.len = <<>> THEN <<Len(buf)>> ELSE P.len])
       /\ Note([op |-> "serve", direct |-> direct])
  /\ UNCHANGED <<P, kind, buf, pos, inner, out, n, w, left, calls, ends>>
MRead ==
  /\ kind = "mock" /\ pc = "read" /\ ends < 2
  /\ \E len \in 0..MaxRead : \E want \in (IF len = 0 THEN {0} ELSE IF Has("gives-nothing") THEN 0..len ELSE 1..len) :
       LET k == MinI(want, Len(buf) - pos)
       IN /\ Tell([op |-> "sread", n |-> len, res |-> "ok", out |-> SubSeq(buf, pos + 1, pos + k), k |-> k, clean |-> TRUE])
          /\ pos' = pos + (IF Has("skips") THEN MinI(len, Len(buf) - pos) ELSE k)
          /\ ends' = IF k = 0 THEN ends + 1 ELSE ends
          /\ Note([op |-> "sread", n |-> len])
  /\ UNCHANGED <<P, kind, buf, inner, out, n, w, left, calls, pc>>

(* The tee: the inner writer takes what it likes, and its failat-th call fails.  *)
TStart ==
  /\ kind = "tee" /\ pc = "go" /\ n < MaxLen * MaxWrites
  /\ \E len \in 0..MaxLen : w' = New(len) /\ left' = New(len) /\ n' = n + len /\ Note([op |-> "twrite", n |-> len])
  /\ pc' = "inner"
  /\ UNCHANGED <<P, kind, buf, pos, inner, out, calls, ends, S>>
TInner ==
  /\ pc = "inner" /\ left # <<>> /\ calls' = calls + 1
  /\ IF calls' = P.failat
     THEN /\ Tell([op |-> "twrite", b |-> w, res |-> "err", k |-> 0]) /\ pc' = "failed"
          /\ out' = IF Has("tells-anyway") THEN out \o w ELSE out
          /\ UNCHANGED <<inner, left>>
     ELSE \E k \in 1..Len(left) :
            /\ inner' = inner \o Take(left, k)
            /\ IF Has("writes-once")
               THEN \* the inner writer's answer is passed on, the other output has it all
                    /\ left' = <<>> /\ out' = out \o w /\ pc' = "go" /\ Tell([op |-> "twrite", b |-> w, res |-> "ok", k |-> k])
               ELSE left' = Drop(left, k) /\ UNCHANGED <<out, pc, S>>
            /\ Note([op |-> "tinner", n |-> k])
  /\ (calls' = P.failat => UNCHANGED rec)
  /\ UNCHANGED <<P, kind, buf, pos, n, w, ends>>
TOut ==
  /\ pc = "inner" /\ left = <<>> /\ pc' = "go"
  /\ out' = out \o w /\ Tell([op |-> "twrite", b |-> w, res |-> "ok", k |-> Len(w)])
  /\ UNCHANGED <<P, kind, buf, pos, inner, n, w, left, calls, ends, rec>>
TFlush ==
  /\ kind = "tee" /\ pc \in {"go", "failed"} /\ pc' = IF pc = "go" THEN "flushed" ELSE "failed2"
  /\ Tell([op |-> "tflush", res |-> IF P.flushfail /\ ~Has("forgets-inner-flush") THEN "err" ELSE "ok"])
  /\ UNCHANGED <<P, kind, buf, pos, inner, out, n, w, left, calls, ends, rec>>
TDone ==
  /\ kind = "tee" /\ pc \in {"flushed", "failed2"} /\ pc' = "over"
  /\ Tell([op |-> "tdone", inner |-> inner, stdout |-> out, failed |-> pc = "failed2"])
  /\ UNCHANGED <<P, kind, buf, pos, inner, out, n, w, left, calls, ends, rec>>

Next == MWrite \/ MWriteAll \/ Serve \/ MRead \/ TStart \/ TInner \/ TOut \/ TFlush \/ TDone
Spec == Init /\ [][Next]_vars

Refines == S # {}
Same == kind = "tee" /\ pc = "go" => inner = out
=============================================================================
