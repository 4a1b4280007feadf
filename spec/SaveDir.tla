------------------------------ MODULE SaveDir ------------------------------
(***************************************************************************)
(* The lives of save directories: temporary ones go with their owner,      *)
(* until made permanent; permanent ones stay until deleted; what happens   *)
(* to one is of no consequence to another. Several results may lie in one  *)
(* permanent directory.                                                    *)
(* P: [precious (a file of the caller's lies in the permanent directory)]. *)
(* Anchors: src/server/save.rs SaveDir, Entries.                           *)
(***************************************************************************)
EXTENDS Bytes

(* A result: its directory d, whether the caller still owns it, whether it is     *)
(* permanent, the number of its files, and whether they are (all) there. Directory 0 *)
(* is the permanent one. prec: the caller's own file is still expected.          *)
DirStart == [r |-> <<>>, prec |-> TRUE]

(* looks[i]: [exists (the directory), intact, gone (all files are), files].      *)
There(x, e) == e.exists /\ e.intact /\ e.files = x.n
(* Directory 0 may exist for another result's sake. *)
Gone(rs, x, e) == e.gone /\ e.files = x.n /\ (e.exists => \E y \in ToSet(rs) : y.d = x.d /\ y.alive)
AsLooked(s, e) ==
  /\ Len(e.looks) = Len(s.r)
  /\ \A i \in DOMAIN s.r : IF s.r[i].alive THEN There(s.r[i], e.looks[i]) ELSE Gone(s.r, s.r[i], e.looks[i])
  /\ (s.prec => e.precious)
Then(s, e) == IF AsLooked(s, e) THEN {s} ELSE {}

(* The directory of result h is removed with everything in it. *)
Removed(s, h) ==
  [r |-> [i \in DOMAIN s.r |-> IF s.r[i].d = s.r[h].d THEN [s.r[i] EXCEPT !.alive = FALSE, !.owned = @ /\ i # h] ELSE s.r[i]],
   prec |-> s.prec /\ s.r[h].d # 0]
Let(s, h) == [s EXCEPT !.r[h].owned = FALSE]
(* The caller lets go of a result. *)
Forget(s, h) == IF s.r[h].perm \/ ~s.r[h].alive THEN Let(s, h) ELSE Removed(s, h)

DirAfter(P, s, e) ==
  CASE e.op = "saved" -> \* e.want: what was asked for, and how many files that must make
         LET x == [d |-> IF e.target = "dir" THEN 0 ELSE Len(s.r) + 1, owned |-> TRUE, perm |-> e.target = "dir", n |-> e.n, alive |-> TRUE]
             s2 == [s EXCEPT !.r = Append(@, x)]
             l == e.looks[Len(s2.r)]
         IN IF ~e.fresh \/ e.res # (IF x.perm THEN "perm" ELSE "temp") THEN {}
            ELSE Then(s2, e)
    [] e.op = "more" ->
         IF s.r[e.h].owned /\ s.r[e.h].alive /\ e.fresh THEN Then([s EXCEPT !.r[e.h].n = e.n], e) ELSE {}
    [] e.op = "keep" ->
         IF s.r[e.h].owned /\ e.res = "perm" THEN Then([s EXCEPT !.r[e.h].perm = TRUE], e) ELSE {}
    [] e.op = "intopath" ->
         IF s.r[e.h].owned /\ e.res = "perm" THEN Then([s EXCEPT !.r[e.h].perm = TRUE, !.r[e.h].owned = FALSE], e) ELSE {}
    [] e.op = "read" -> Then(s, e)
    [] e.op = "takedir" -> IF s.r[e.h].owned THEN Then(s, e) ELSE {}
    [] e.op = "delete" -> \* what is already gone may be reported
         IF s.r[e.h].owned /\ (s.r[e.h].alive => e.res = "ok") THEN Then(Removed(s, e.h), e) ELSE {}
    [] e.op = "drop" -> IF s.r[e.h].owned THEN Then(Forget(s, e.h), e) ELSE {}
    [] e.op = "over" -> Then(FoldLeft(LAMBDA a, i : IF a.r[i].owned THEN Forget(a, i) ELSE a, s, [i \in DOMAIN s.r |-> i]), e)
    [] OTHER -> {}
=============================================================================
