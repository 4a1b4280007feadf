------------------------------ MODULE Intercept ------------------------------
(***************************************************************************)
(* The iron middleware. P: [ctypes, method, body, strict, size, count,     *)
(* bnd (as sent)], P.m the meaning of the body.                            *)
(* Anchors: src/server/iron.rs, src/server/save.rs.                        *)
(***************************************************************************)
EXTENDS Detect

Dl(P, i) == P.m.parts[i].de - P.m.parts[i].ds + 1
DataOf(P, i) == SubSeq(P.body, P.m.parts[i].ds, P.m.parts[i].de)
Np(P) == Len(P.m.parts)
BrokenAt(P, i) == ~P.m.parts[i].hd.ok \/ P.m.parts[i].open
Whole(P) == P.m.fin = "end" /\ \A i \in 1..Np(P) : ~BrokenAt(P, i)

(* The first thing in the request, in its order, that is in the way.        *)
Over(P, i) == i > P.count \/ Dl(P, i) > P.size
Stops(P) == {i \in 1..Np(P) : BrokenAt(P, i) \/ Over(P, i)}
FirstStop(P) == FirstOr(Stops(P), 0)

(* The stored fields: the first k of the request, whole or cut. An entry:   *)
(* groups <<[name, fields]>> with the fields of one name in order.          *)
StoredAt(e, P, i) ==
  LET nm == P.m.parts[i].hd.name
      G == {g \in 1..Len(e.groups) : e.groups[g].name = nm}
      rank == Cardinality({j \in 1..i : P.m.parts[j].hd.name = nm})
  IN IF Cardinality(G) # 1 THEN <<>>
     ELSE LET fs == e.groups[CHOOSE g \in G : TRUE].fields
          IN IF rank > Len(fs) THEN <<>> ELSE <<fs[rank]>>
StoredN(e) == FoldFunction(LAMBDA g, acc : acc + Len(g.fields), 0, e.groups)

FieldOk(P, i, f) ==
  LET hd == P.m.parts[i].hd
      b == f.r.bytes
  IN /\ f.filename = hd.filename
     /\ Len(f.ctype) = Len(hd.ctype)
     /\ (f.ctype # <<>> => SameMime(f.ctype[1], hd.ctype[1]))
     /\ f.r.kind \in {"text", "bytes", "file"}
     /\ f.r.indir /\ f.r.size = Len(b)
     /\ (f.r.kind = "text" => ValidUtf8(b))
     /\ IF Dl(P, i) <= P.size THEN b = DataOf(P, i)
        ELSE ~P.strict /\ Len(b) <= P.size /\ IsPre(b, DataOf(P, i))
Stored(P, e, k) ==
  /\ e.stored = 1 /\ StoredN(e) = k /\ e.count = k
  /\ \A i \in 1..k : LET f == StoredAt(e, P, i) IN f # <<>> /\ FieldOk(P, i, f[1])

IcpStart == [done |-> FALSE, ok |-> FALSE]

(* e: [res, why, errname, errfile, errnums, stored, groups, count, dirs,    *)
(* files, parent, faults]; dirs and files: what lies in the parent          *)
(* directory after the call.                                                *)
Refused(P, e) == e.res = "err" /\ e.stored = 0 /\ e.dirs = 0 /\ e.files = 0

(* A message contains a name, unless that has bytes which may be written in  *)
(* another way.                                                             *)
Plain(c) == c \in 32..126 /\ c \notin {34, 39, 92}
Says(t, n) == n = <<>> \/ (\E i \in DOMAIN n : ~Plain(n[i])) \/ Occ(t, n) # {}
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))

AfterBefore(P, s, e) ==
  LET d == IF P.method = S_POST THEN Declared(P) ELSE <<>>
      i == FirstStop(P)
      k == IF Np(P) < P.count THEN Np(P) ELSE P.count
      done == {[done |-> TRUE, ok |-> e.res = "ok"]}
      full == e.res = "ok" /\ Stored(P, e, k) /\ e.parent
      broken == Refused(P, e) /\ e.why = "other"
      sizeErr == Refused(P, e) /\ e.why = "size" /\ i > 0 /\ e.errname = <<P.m.parts[i].hd.name>>
                   /\ e.errfile = P.m.parts[i].hd.filename
                   /\ \A t \in ToSet(e.texts) : Says(t, P.m.parts[i].hd.name) /\ \A f \in ToSet(P.m.parts[i].hd.filename) : Says(t, f)
      countErr == Refused(P, e) /\ e.why = "count" /\ P.count \in ToSet(e.errnums)
                   /\ \A t \in ToSet(e.texts) : Says(t, Digits(P.count))
  IN IF d = <<>>
     THEN \* not for the middleware
          IF e.res = "ok" /\ e.stored = 0 /\ e.dirs = 0 /\ e.files = 0 /\ e.out = P.body THEN done ELSE {}
     ELSE IF e.faults # <<>>
     THEN \* the connection failed: refused, unless everything had arrived
          IF broken \/ (P.strict /\ (sizeErr \/ countErr)) \/ (Whole(P) /\ full /\ (P.strict => i = 0)) THEN done ELSE {}
     ELSE IF P.strict
     THEN IF i = 0 THEN (IF Whole(P) THEN (IF full THEN done ELSE {}) ELSE (IF broken THEN done ELSE {}))
          ELSE IF i > P.count THEN (IF countErr \/ (BrokenAt(P, i) /\ broken) THEN done ELSE {})
          ELSE IF ~P.m.parts[i].hd.ok THEN (IF broken THEN done ELSE {})
          ELSE IF P.m.parts[i].open
               THEN (IF broken \/ (Dl(P, i) > P.size /\ sizeErr) THEN done ELSE {})
          ELSE (IF sizeErr THEN done ELSE {})
     ELSE IF Whole(P) THEN (IF full THEN done ELSE {})
     ELSE (IF broken THEN done ELSE {})

(* The request, and what the middleware stored in it, is gone. *)
AfterDropped(P, s, e) == IF s.done /\ e.dirs = 0 /\ e.files = 0 THEN {s} ELSE {}
AfterDefaults(P, s, e) == IF e.size = 2097152 /\ e.count = 16 /\ e.strict THEN {s} ELSE {}

IcpAfter(P, s, e) ==
  CASE e.op = "before" -> IF e.post > 64 THEN {} ELSE AfterBefore(P, s, e)
    [] e.op = "dropped" -> AfterDropped(P, s, e)
    [] e.op = "defaults" -> AfterDefaults(P, s, e)
    [] OTHER -> {}
=============================================================================
