-------------------------------- MODULE Mock --------------------------------
(***************************************************************************)
(* The mock transports and the tee writer.  Anchor: src/mock.rs.           *)
(***************************************************************************)
EXTENDS Bytes

(* buf: what the buffer must hold; phase; pos: bytes delivered. *)
MockStart(P) == [buf |-> P.pre, ph |-> "write", pos |-> 0]

MockAfter(P, s, e) ==
  CASE e.op = "write" ->
         IF /\ s.ph = "write" /\ e.res = "ok" /\ e.k <= Len(e.b) /\ (e.b # <<>> => e.k >= 1)
            /\ e.buf = s.buf \o SubSeq(e.b, 1, e.k)
         THEN {[s EXCEPT !.buf = e.buf]} ELSE {}
    [] e.op = "writeall" ->
         IF s.ph = "write" /\ e.res = "ok" /\ e.buf = s.buf \o e.b THEN {[s EXCEPT !.buf = e.buf]} ELSE {}
    [] e.op = "server" ->
         IF s.ph = "write" /\ e.data = s.buf /\ e.bnd = P.mbnd /\ e.len = (IF e.direct THEN <<>> ELSE P.len)
         THEN {[s EXCEPT !.ph = "read"]} ELSE {}
    [] e.op = "sread" ->
         IF /\ s.ph = "read" /\ e.res = "ok" /\ e.k = Len(e.out) /\ e.k <= e.n /\ e.clean
            /\ s.pos + e.k <= Len(s.buf)
            /\ e.out = SubSeq(s.buf, s.pos + 1, s.pos + e.k)
            /\ (e.k = 0 /\ e.n > 0 => s.pos = Len(s.buf))
         THEN {[s EXCEPT !.pos = @ + e.k]} ELSE {}
    [] OTHER -> {}

(* out: the bytes the caller was told were taken; loose: a write failed, so   *)
(* that some more may have been.                                             *)
TeeStart == [out |-> <<>>, tail |-> <<>>, failed |-> FALSE]

TeeAfter(P, s, e) ==
  CASE e.op = "twrite" ->
         IF s.failed THEN {s}
         ELSE IF e.res = "ok" THEN (IF e.k <= Len(e.b) /\ (e.b # <<>> => e.k >= 1)
                                    THEN {[s EXCEPT !.out = @ \o SubSeq(e.b, 1, e.k)]} ELSE {})
         ELSE IF P.failat > 0 THEN {[s EXCEPT !.failed = TRUE, !.tail = e.b]} ELSE {}
    [] e.op = "twriteall" ->
         IF s.failed THEN {s}
         ELSE IF e.res = "ok" THEN {[s EXCEPT !.out = @ \o e.b]}
         ELSE IF P.failat > 0 THEN {[s EXCEPT !.failed = TRUE, !.tail = e.b]} ELSE {}
    \* P.flushfail: flushing the inner writer fails
    [] e.op = "tflush" -> IF (e.res = "err") = P.flushfail THEN {s} ELSE {}
    [] e.op = "tdone" ->
         IF s.failed
         THEN \* after a failure the inner writer may be ahead of standard output, never behind or different
              IF e.failed /\ IsPre(s.out, e.inner) /\ IsPre(e.stdout, e.inner) /\ IsPre(s.out, e.stdout) THEN {s} ELSE {}
         ELSE IF ~e.failed /\ e.inner = s.out /\ e.stdout = s.out THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================
