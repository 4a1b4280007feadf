----------------------------- MODULE SaveDirImpl -----------------------------
(***************************************************************************)
(* The design of save directories (src/server/save.rs: SaveDir, the forms  *)
(* of SaveBuilder that make one, Entries): a TempDir that removes its      *)
(* directory when it goes away, or a path; keep replaces the one by the    *)
(* other in place. S is the set of contract states (SaveDir).              *)
(***************************************************************************)
EXTENDS SaveDir

CONSTANTS MaxRes, MaxOps, MaxFiles, Defects, Record

VARIABLES disk,    \* the directories that exist: 0 the permanent one, i that of result i
          held,    \* per result: what the caller holds
          there,   \* per result: [d, n, all: the files of it that exist]
          prec,    \* the caller's own file in the permanent directory
          ops, pc, S, rec
vars == <<disk, held, there, prec, ops, pc, S, rec>>

Has(x) == x \in Defects
Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec
P == [precious |-> TRUE]

Init == /\ disk = {0} /\ held = <<>> /\ there = <<>> /\ prec = TRUE /\ ops = 0 /\ pc = "go" /\ S = {DirStart} /\ rec = <<>>

Looks(dk, th) == [i \in DOMAIN th |-> [exists |-> th[i].d \in dk, intact |-> th[i].all, gone |-> ~th[i].all \/ th[i].n = 0, files |-> th[i].n]]
Tell(e, dk, th, pr) == S' = UNION {DirAfter(P, s, e @@ [looks |-> Looks(dk, th), precious |-> pr]) : s \in S}
(* intact holds of no files, too *)
Wipe(th, d) == [i \in DOMAIN th |-> IF th[i].d = d THEN [th[i] EXCEPT !.all = th[i].n = 0] ELSE th[i]]
Set(dk, th, pr) == disk' = dk /\ there' = th /\ prec' = pr

Save ==
  /\ pc = "go" /\ ops < MaxOps /\ Len(held) < MaxRes
  /\ \E perm \in BOOLEAN, n \in 0..MaxFiles, taken \in BOOLEAN :
       LET h == Len(held) + 1
           d == IF perm THEN 0 ELSE h
           dk == disk \cup {d}
           th == Append(there, [d |-> d, n |-> n, all |-> TRUE])
       IN /\ held' = Append(held, [own |-> "entries", kind |-> IF perm THEN "perm" ELSE "temp", path |-> TRUE])
          /\ Tell([op |-> "saved", h |-> h, res |-> IF perm THEN "perm" ELSE "temp", n |-> n, fresh |-> TRUE, target |-> IF perm THEN "dir" ELSE "temp"], dk, th, prec)
          /\ Set(dk, th, prec) /\ taken = FALSE
          /\ Note([op |-> "save", h |-> h, perm |-> perm, n |-> n])
  /\ ops' = ops + 1 /\ UNCHANGED pc
Owned(h) == held[h].own # "none"
Step(h) == pc = "go" /\ ops < MaxOps /\ Owned(h) /\ ops' = ops + 1 /\ UNCHANGED pc
More(h) == \* another request into the same entries
  /\ Step(h) /\ held[h].own = "entries" /\ there[h].d \in disk /\ there[h].n < MaxFiles /\ (there[h].all /\ there[h].n > 0)
  /\ LET th == [there EXCEPT ![h].n = @ + 1]
     IN Tell([op |-> "more", h |-> h, res |-> held[h].kind, n |-> th[h].n, fresh |-> TRUE, target |-> ""], disk, th, prec) /\ Set(disk, th, prec)
  /\ UNCHANGED held /\ Note([op |-> "more", h |-> h])
(* What happens to a directory when its TempDir goes away. *)
Keep(h) ==
  /\ Step(h)
  /\ LET was == held[h].kind
         lost == Has("keep-drops") /\ was = "temp"
         dk == IF lost THEN disk \ {there[h].d} ELSE disk
         th == IF lost THEN Wipe(there, there[h].d) ELSE there
         p == held[h].path /\ ~(Has("keep-empties") /\ was = "perm")
     IN /\ held' = [held EXCEPT ![h].kind = IF Has("keep-noop") THEN was ELSE "perm", ![h].path = p]
        /\ Tell([op |-> "keep", h |-> h, res |-> IF ~p THEN "moved" ELSE held'[h].kind], dk, th, prec) /\ Set(dk, th, prec)
  /\ Note([op |-> "keep", h |-> h])
Gone0(h, removes, e, nh) ==
  LET d == there[h].d
      dk == IF removes THEN disk \ {d} ELSE disk
      th == IF removes THEN Wipe(there, d) ELSE there
      pr == prec /\ ~(removes /\ d = 0)
  IN held' = nh /\ Tell(e, dk, th, pr) /\ Set(dk, th, pr)
IntoPath(h) ==
  /\ Step(h)
  /\ Gone0(h, Has("intopath-drops") /\ held[h].kind = "temp", [op |-> "intopath", h |-> h, res |-> "perm"],
           [held EXCEPT ![h].own = "none"])
  /\ Note([op |-> "intopath", h |-> h])
TakeDir(h) ==
  /\ Step(h) /\ held[h].own = "entries"
  /\ Gone0(h, Has("entries-drop-deletes") /\ held[h].kind = "temp", [op |-> "takedir", h |-> h, res |-> "ok"], [held EXCEPT ![h].own = "dir"])
  /\ Note([op |-> "takedir", h |-> h])
Delete(h) ==
  /\ Step(h)
  /\ Gone0(h, ~(Has("delete-temp-leaks") /\ held[h].kind = "temp") /\ ~(Has("delete-perm-keeps") /\ held[h].kind = "perm"),
           [op |-> "delete", h |-> h, res |-> IF there[h].d \in disk THEN "ok" ELSE "err"], [held EXCEPT ![h].own = "none"])
  /\ Note([op |-> "delete", h |-> h])
LetGo(h) ==
  /\ Step(h)
  /\ Gone0(h, (held[h].kind = "temp" /\ ~Has("drop-leaks")) \/ Has("drop-deletes"), [op |-> "drop", h |-> h, res |-> "ok"], [held EXCEPT ![h].own = "none"])
  /\ Note([op |-> "drop", h |-> h])
(* At the end everything is dropped. *)
Over ==
  /\ pc = "go" /\ pc' = "over"
  /\ LET temps == {there[h].d : h \in {x \in DOMAIN held : Owned(x) /\ held[x].kind = "temp"}}
         dk == disk \ temps
         th == [i \in DOMAIN there |-> IF there[i].d \in temps THEN [there[i] EXCEPT !.all = there[i].n = 0] ELSE there[i]]
     IN Tell([op |-> "over", h |-> 1, res |-> "ok"], dk, th, prec) /\ Set(dk, th, prec)
  /\ held' = [i \in DOMAIN held |-> [held[i] EXCEPT !.own = "none"]]
  /\ UNCHANGED <<ops, rec>>

Next == Save \/ Over
        \/ \E h \in DOMAIN held : More(h) \/ Keep(h) \/ IntoPath(h) \/ TakeDir(h) \/ Delete(h) \/ LetGo(h)
Spec == Init /\ [][Next]_vars

Refines == S # {}
(* A directory that somebody still holds, or that was made permanent, is there *)
(* unless it was deleted; a temporary one is there only while it is held.      *)
NoLeak == \A d \in disk : d = 0 \/ held[d].own # "none" \/ held[d].kind = "perm" \/ \E s \in S : s.r[d].perm
=============================================================================
