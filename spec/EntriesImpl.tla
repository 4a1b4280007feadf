----------------------------- MODULE EntriesImpl -----------------------------
(***************************************************************************)
(* The design of saving a whole request (src/server/save.rs: with_entries, *)
(* Entries, PartialEntries): the loop over the fields, the map from names  *)
(* to fields with a count kept beside it, the limits, and a caller who     *)
(* keeps or drops the partial field, removes entries and goes on with the  *)
(* same entries. Saving one field is SaveImpl's business and one step      *)
(* here. S is the set of contract states that explain what was observed.   *)
(***************************************************************************)
EXTENDS Server, TLC, SequencesExt

CONSTANTS Names, MaxLen,   \* fields: their names, lengths 0..MaxLen
          MaxParts, MaxCount, MaxSaves, MaxErr,
          Defects, Record

Shapes == Names \X (0..MaxLen)
Bodies == SetToSeq(UNION {[1..k -> Shapes] : k \in 0..MaxParts})
Fill(n, from) == [i \in 1..n |-> 97 + ((from + i) % 7)]
(* A body is its fields' data one after the other. *)
RECURSIVE Layout(_, _)
Layout(sh, from) == IF sh = <<>> THEN <<>>
  ELSE <<[ds |-> from + 1, de |-> from + sh[1][2], open |-> FALSE, hl |-> 5,
          hd |-> [ok |-> TRUE, name |-> <<sh[1][1]>>, filename |-> <<>>, ctype |-> <<>>]]>>
       \o Layout(Tail(sh), from + sh[1][2])
PP == [i \in 1..Len(Bodies) |->
         LET l == Layout(Bodies[i], 0)
         IN [parts |-> l, fin |-> "end", slack |-> 0, b |-> Fill(IF l = <<>> THEN 0 ELSE l[Len(l)].de, i)]]
Limits == {NoLimit} \cup 0..MaxLen
Counts == {NoLimit} \cup 0..MaxCount

VARIABLES B,
          at, off,    \* the reader: parts handed out, bytes of the current one delivered
          ended,
          names,      \* the map: names in the order of first arrival,
          fields,     \* and the fields of each
          cnt,        \* the count beside it
          pc,         \* idle, loop, held (the caller holds a partial field)
          o, held,    \* <<[f, dest]>>
          errs, saves, S, rec
vars == <<B, at, off, ended, names, fields, cnt, pc, o, held, errs, saves, S, rec>>

P == PP[B]
Has(x) == x \in Defects
Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec
Lim(l) == IF l = NoLimit THEN 1000 ELSE l

Init == /\ B \in 1..Len(Bodies) /\ at = 0 /\ off = 0 /\ ended = FALSE /\ names = <<>> /\ fields = <<>> /\ cnt = 0
        /\ pc = "idle" /\ o = [size |-> NoLimit, mem |-> NoLimit, text |-> "try", count |-> NoLimit]
        /\ held = <<>> /\ errs = 0 /\ saves = 0 /\ S = {Start} /\ rec = <<>>

-----------------------------------------------------------------------------
Heading(i) == [name |-> P.parts[i].hd.name, filename |-> <<>>, ctype |-> <<>>, istext |-> TRUE]
Kept(bs) == [kind |-> "text", bytes |-> bs, size |-> Len(bs), indir |-> TRUE, pid |-> 0]
FieldRec(i, bs) == Heading(i) @@ [r |-> Kept(bs)]
Push(ns, fs, f) == LET g == {k \in 1..Len(ns) : ns[k] = f.name}
                   IN IF g = {} THEN [n |-> Append(ns, f.name), f |-> Append(fs, <<f>>)]
                      ELSE [n |-> ns, f |-> [fs EXCEPT ![CHOOSE k \in g : TRUE] = IF Has("push-front") THEN <<f>> \o @ ELSE Append(@, f)]]
Total(fs) == FoldLeft(LAMBDA a, x : a + Len(x), 0, fs)
Groups(ns, fs) == [k \in 1..Len(ns) |-> [name |-> ns[k], fields |-> fs[k]]]

Tell(res, why, ns, fs, c, partial, faults) ==
  S' = UNION {After(P, s, [op |-> "saveall", o |-> o, res |-> res, why |-> why, badtarget |-> FALSE, disk |-> <<>>, strayfiles |-> 0, groups |-> Groups(ns, fs),
                           count |-> c, partial |-> partial, faults |-> faults, post |-> 0]) : s \in S}

Begin == /\ pc = "idle" /\ saves < MaxSaves /\ saves' = saves + 1
         /\ o' \in [size : Limits, mem : {NoLimit}, text : {"try"}, count : Counts]
         /\ pc' = "loop"
         /\ cnt' = IF Has("no-recount") THEN cnt ELSE Total(fields)
         /\ Note([t |-> "saveall", o |-> o'])
         /\ UNCHANGED <<B, at, off, ended, names, fields, held, errs, S>>

(* The next field: what is left of the one before is passed over. *)
Field == /\ pc = "loop" /\ at < Len(P.parts) /\ ~ended
         /\ LET i == at + 1
                n == DataLen(P, i)
                full == IF Has("count-above") THEN cnt > Lim(o.count) ELSE cnt >= Lim(o.count)
                stop(dest, why, k) ==
                  /\ pc' = "held" /\ held' = <<[i |-> i, dest |-> dest]>>
                  /\ at' = i /\ off' = k
                  /\ Tell("partial", why, names, fields, cnt, <<Heading(i) @@ [dest |-> dest]>>, <<>>)
                  /\ UNCHANGED <<names, fields, cnt>>
            IN IF full THEN stop(<<>>, "count", 0)
               ELSE IF n > Lim(o.size) THEN \E k \in 0..Lim(o.size) : stop(<<Kept(SubSeq(Data(P, i), 1, k))>>, "size", k)
               ELSE LET p == Push(names, fields, FieldRec(i, Data(P, i)))
                    IN /\ names' = p.n /\ fields' = p.f
                       /\ cnt' = IF Has("count-names") THEN Len(p.n) ELSE cnt + 1
                       /\ at' = i /\ off' = n /\ UNCHANGED <<pc, held, S>>
         /\ UNCHANGED <<B, ended, o, errs, saves, rec>>
End == /\ pc = "loop" /\ (at = Len(P.parts) \/ ended)
       /\ ended' = TRUE /\ pc' = "idle"
       /\ Tell("full", "none", names, fields, cnt, <<>>, <<>>)
       /\ UNCHANGED <<B, at, off, names, fields, cnt, o, held, errs, saves, rec>>
(* The transport fails between two fields: one may be lost. *)
Fault == /\ pc = "loop" /\ ~ended /\ errs < MaxErr /\ errs' = errs + 1
         /\ \E lost \in 0..MinI(1, Len(P.parts) - at) : at' = at + lost /\ off' = 0
         /\ pc' = "idle" /\ Note([t |-> "Other", n |-> at])
         /\ IF Has("error-empties")
            THEN names' = <<>> /\ fields' = <<>> /\ cnt' = 0 /\ Tell("partial", "io", <<>>, <<>>, 0, <<>>, <<"Other">>)
            ELSE Tell("partial", "io", names, fields, cnt, <<>>, <<"Other">>) /\ UNCHANGED <<names, fields, cnt>>
         /\ UNCHANGED <<B, ended, o, held, saves>>

(* The caller keeps the partial field, reads the rest of it, or drops it.    *)
Keep == /\ pc = "held" /\ held[1].dest # <<>>
        /\ LET f == FieldRec(held[1].i, held[1].dest[1].bytes)
               p == Push(names, fields, f)
           IN /\ names' = p.n /\ fields' = p.f /\ cnt' = cnt + 1
              /\ S' = UNION {After(P, s, [op |-> "keep", f |-> f, faults |-> <<>>, post |-> 0]) : s \in S}
        /\ pc' = "idle" /\ held' = <<>> /\ Note([t |-> "keep"])
        /\ UNCHANGED <<B, at, off, ended, o, errs, saves>>
Rest == /\ pc = "held"
        /\ S' = UNION {After(P, s, [op |-> "readall", res |-> "ok", out |-> SubSeq(Data(P, at), off + 1, DataLen(P, at)),
                                    faults |-> <<>>, post |-> 0]) : s \in S}
        /\ off' = DataLen(P, at) /\ pc' = "idle" /\ held' = <<>> /\ Note([t |-> "rest"])
        /\ UNCHANGED <<B, at, ended, names, fields, cnt, o, errs, saves>>
DropIt == /\ pc = "held" /\ pc' = "idle" /\ held' = <<>> /\ Note([t |-> "drop"])
        /\ UNCHANGED <<B, at, off, ended, names, fields, cnt, o, errs, saves, S>>
(* The caller removes the fields of a name; the count knows nothing of it.   *)
RemoveName == /\ pc = "idle" /\ saves > 0 /\ saves < MaxSaves
          /\ \E k \in 1..Len(names) :
               /\ S' = UNION {After(P, s, [op |-> "dropents", name |-> names[k], faults |-> <<>>, post |-> 0]) : s \in S}
               /\ names' = RemoveAt(names, k) /\ fields' = RemoveAt(fields, k)
               /\ Note([t |-> "remove", name |-> names[k]])
          /\ UNCHANGED <<B, at, off, ended, cnt, pc, o, held, errs, saves>>

Next == Begin \/ Field \/ End \/ Fault \/ Keep \/ Rest \/ DropIt \/ RemoveName
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Field \/ End)

Refines == S # {}
InStep == pc = "idle" => \E s \in S : s.part = at
(* No field is kept twice, and none disappears: each part that was passed    *)
(* over is in the entries, was handed to the caller, or was lost to a fault. *)
NothingTwice == Total(fields) <= at
CountRight == pc = "held" => cnt = Total(fields)
Returns == (pc = "loop") ~> (pc # "loop")
=============================================================================
