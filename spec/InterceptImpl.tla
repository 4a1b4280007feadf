---------------------------- MODULE InterceptImpl ----------------------------
(***************************************************************************)
(* The design of the iron middleware (src/server/iron.rs: read_request and *)
(* its strict and lenient forms over with_entries of save.rs): a temporary *)
(* directory per request, one save in strict mode, repeated saves into the *)
(* same entries in lenient mode, results handed to the request or refused. *)
(* Saving one field is SaveImpl's business and one step here. S is the set *)
(* of contract states (Intercept) that explain what was observed.          *)
(***************************************************************************)
EXTENDS Intercept

CONSTANTS Names, MaxLen,   \* fields: their names, lengths 0..MaxLen
          MaxParts, MaxSize, MaxCount,
          Mem,             \* longer fields are in files
          MaxErr, Defects, Record

NoField == 300             \* a header block that declares no field
Shapes == (Names \cup {NoField}) \X (0..MaxLen)
(* Requests: the fields, and whether the body ends properly (0), within the last   *)
(* field's data (1), or before the next delimiter's end (2, with no open field).   *)
Bodies == SetToSeq({x \in (UNION {[1..k -> Shapes] : k \in 0..MaxParts}) \X (0..2) : x[2] = 1 => x[1] # <<>>})
Fill(n, from) == [i \in 1..n |-> 97 + ((from + i) % 7)]
RECURSIVE Layout(_, _, _)
Layout(sh, from, e) == IF sh = <<>> THEN <<>>
  ELSE <<[ds |-> from + 1, de |-> from + sh[1][2], open |-> e = 1 /\ Len(sh) = 1, hl |-> 5,
          hd |-> [ok |-> sh[1][1] # NoField, name |-> <<sh[1][1]>>, filename |-> <<>>, ctype |-> <<>>]]>>
       \o Layout(Tail(sh), from + sh[1][2], e)
(* "multipart/form-data;boundary=b", "x/y" *)
CtYes == S_MFD \o <<59>> \o S_BOUNDARY \o <<61, 98>>
CtNo == <<120, 47, 121>>
MM == [i \in 1..Len(Bodies) |-> [parts |-> Layout(Bodies[i][1], 0, Bodies[i][2]), fin |-> IF Bodies[i][2] = 0 THEN "end" ELSE "eof"]]

VARIABLES P, B,
          at,         \* fields read
          kept,       \* <<[i, bytes]>>: the entries, in the order they came
          cnt,        \* the count beside them
          dir, files, \* the directory exists; files in it
          parent,
          pc, rounds, faults,
          S, rec
vars == <<P, B, at, kept, cnt, dir, files, parent, pc, rounds, faults, S, rec>>

Has(x) == x \in Defects
Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec

(* What a request means does not depend on its settings; the empty boundary of a      *)
(* request that is not multipart gives it no parts.                                   *)
Init == /\ B \in 1..Len(Bodies)
        /\ \E yes \in BOOLEAN, strict \in BOOLEAN, size \in 0..MaxSize, count \in 0..MaxCount :
             P = [ctypes |-> <<IF yes THEN CtYes ELSE CtNo>>, method |-> S_POST, strict |-> strict, size |-> size, count |-> count,
                  m |-> IF yes THEN MM[B] ELSE [parts |-> <<>>, fin |-> "eof"],
                  body |-> LET l == MM[B].parts IN Fill(IF l = <<>> THEN 0 ELSE l[Len(l)].de, B)]
        /\ at = 0 /\ kept = <<>> /\ cnt = 0 /\ dir = FALSE /\ files = 0 /\ parent = FALSE
        /\ pc = "start" /\ rounds = 0 /\ faults = <<>> /\ S = {IcpStart} /\ rec = <<>>

-----------------------------------------------------------------------------
(* The entries as the request's handler sees them. *)
Rec(x) == [name |-> P.m.parts[x.i].hd.name, filename |-> <<>>, ctype |-> <<>>,
           r |-> [kind |-> IF x.file THEN "file" ELSE "bytes", bytes |-> x.bytes, size |-> Len(x.bytes), indir |-> TRUE]]
NamesIn(k) == SetToSeq({P.m.parts[k[j].i].hd.name : j \in DOMAIN k})
Groups(k) == LET ns == NamesIn(k)
             IN [g \in DOMAIN ns |-> [name |-> ns[g], fields |-> LET mine == SelectSeq(k, LAMBDA x : P.m.parts[x.i].hd.name = ns[g])
                                                                  IN [j \in DOMAIN mine |-> Rec(mine[j])]]]

(* The middleware returns; what it does not hand over goes with its directory.   *)
Tell(res, why, errname, errnums, fs) ==
  LET stays == res = "ok" /\ dir /\ why # "none of mine"
      d == IF stays \/ (Has("strict-leaks") /\ dir /\ why = "size") THEN 1 ELSE 0
  IN /\ S' = UNION {IcpAfter(P, s, [op |-> "before", res |-> res, why |-> IF res = "ok" THEN "none" ELSE why, errname |-> errname, errfile |-> <<>>,
                                    errnums |-> errnums, texts |-> <<>>, stored |-> IF stays THEN 1 ELSE 0,
                                    groups |-> IF stays THEN Groups(kept) ELSE <<>>, count |-> IF stays THEN cnt ELSE 0,
                                    dirs |-> d, files |-> IF d = 1 THEN files ELSE 0, parent |-> parent,
                                    out |-> P.body, faults |-> fs, post |-> 0]) : s \in S}
     /\ dir' = (d = 1) /\ files' = IF d = 1 THEN files ELSE 0
     /\ pc' = "told"

Begin ==
  /\ pc = "start"
  /\ IF Declared(P) = <<>>
     THEN Tell("ok", "none of mine", <<>>, <<>>, <<>>) /\ UNCHANGED parent
     ELSE pc' = "save" /\ dir' = TRUE /\ parent' = TRUE /\ UNCHANGED <<files, S>>
  /\ UNCHANGED <<P, B, at, kept, cnt, rounds, faults, rec>>

Lenient == ~P.strict
SizeLim == IF Has("second-unlimited") /\ rounds > 0 THEN 1000 ELSE P.size
CountLim == IF Has("second-uncounted") /\ rounds > 0 THEN 1000 ELSE P.count
(* with_entries returned a partial result with this reason; strict: refuse,      *)
(* lenient: keep what there is and go on.                                        *)
Partly(why, i, dest) ==
  IF Lenient
  THEN /\ kept' = IF dest = <<>> \/ Has("lenient-drops-cut") THEN kept ELSE Append(kept, dest[1])
       /\ cnt' = IF dest = <<>> \/ Has("lenient-drops-cut") THEN cnt ELSE cnt + 1
       /\ rounds' = MinI(rounds + 1, 1) /\ pc' = IF Has("lenient-stops-at-count") /\ why = "count" THEN "done" ELSE "save"
       /\ UNCHANGED <<dir, files, S>>
  ELSE /\ Tell("err", why, IF why = "size" THEN <<IF Has("names-first") THEN P.m.parts[1].hd.name ELSE P.m.parts[i].hd.name>> ELSE <<>>,
               IF why = "count" THEN <<IF Has("counts-wrong") THEN at + 1 ELSE P.count>> ELSE <<>>, faults)
       /\ UNCHANGED <<kept, cnt, rounds>>
(* An error, at the start or midway, is the same to both. *)
Fails == IF Has("lenient-forgives") /\ Lenient /\ rounds > 0 THEN Tell("ok", "none", <<>>, <<>>, faults)
         ELSE Tell("err", "other", <<>>, <<>>, faults)

(* with_entries reads the next field's headers; then the count, then the data.   *)
Field ==
  /\ pc = "save" /\ at < Np(P)
  /\ LET i == at + 1
         n == Dl(P, i)
         p == P.m.parts[i]
         dest(k) == [i |-> i, bytes |-> Take(DataOf(P, i), k), file |-> k > Mem]
     IN IF ~p.hd.ok THEN Fails /\ at' = i /\ UNCHANGED <<kept, cnt, rounds>>
        ELSE IF cnt >= CountLim THEN Partly("count", i, <<>>) /\ at' = i
        ELSE IF n > SizeLim
             THEN \E k \in 0..SizeLim : Partly("size", i, <<dest(k)>>) /\ at' = i
        ELSE IF p.open THEN Fails /\ at' = i /\ UNCHANGED <<kept, cnt, rounds>>
        ELSE /\ kept' = Append(kept, dest(n)) /\ cnt' = cnt + 1 /\ at' = i
             /\ files' = IF n > Mem THEN files + 1 ELSE files
             /\ UNCHANGED <<dir, pc, rounds, S>>
  /\ UNCHANGED <<P, B, parent, faults, rec>>
(* A field which was cut short by the end of the body was passed over: the       *)
(* search for the next delimiter fails.                                          *)
End ==
  /\ pc \in {"save", "done"} /\ (pc = "save" => at = Np(P))
  /\ IF P.m.fin # "end" /\ pc = "save" THEN Fails ELSE Tell("ok", "none", <<>>, <<>>, faults)
  /\ UNCHANGED <<P, B, at, kept, cnt, parent, rounds, faults, rec>>
(* The connection fails: while a field is read or between two. *)
Fault ==
  /\ pc = "save" /\ Len(faults) < MaxErr
  /\ faults' = Append(faults, "Other")
  /\ Tell(IF Has("fault-is-end") /\ at > 0 THEN "ok" ELSE "err", "other", <<>>, <<>>, faults')
  /\ Note([t |-> "fault", at |-> at])
  /\ UNCHANGED <<P, B, at, kept, cnt, parent, rounds>>
Dropped ==
  /\ pc = "told" /\ pc' = "dropped"
  /\ LET left == Has("keeps-dir") /\ dir
     IN S' = UNION {IcpAfter(P, s, [op |-> "dropped", dirs |-> IF left THEN 1 ELSE 0, files |-> IF left THEN files ELSE 0]) : s \in S}
  /\ dir' = FALSE /\ files' = 0
  /\ UNCHANGED <<P, B, at, kept, cnt, parent, rounds, faults, rec>>

Next == Begin \/ Field \/ End \/ Fault \/ Dropped
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Begin \/ Field \/ End)

Refines == S # {}
(* However often the lenient form goes on, the limits hold over all its saves. *)
Limited == Len(kept) <= P.count /\ \A j \in DOMAIN kept : Len(kept[j].bytes) <= P.size
CountRight == cnt = Len(kept)
Returns == (pc = "start") ~> (pc \in {"told", "dropped"})
=============================================================================
