----------------------------- MODULE ReaderImpl -----------------------------
(***************************************************************************)
(* The design of the request reader, shaped like the code: BoundaryReader  *)
(* over a growing window (src/server/boundary.rs), the request for the     *)
(* next entry (ReadEntry::read_entry) and the header block loop            *)
(* (with_headers, src/server/field.rs), driven by an arbitrary caller and  *)
(* an arbitrary transport. The caller's view is checked against the        *)
(* contract in Server: S is the set of contract states that explain        *)
(* everything observed so far; the design refines the contract iff S never *)
(* becomes empty (Refines), and every call returns (Returns).              *)
(*                                                                         *)
(* The header blocks are one byte each (72, 73 = 'H', 'I'); HeaderOf is    *)
(* replaced accordingly in the configuration. Everything else, Parse       *)
(* included, is the contract that the recorded traces are validated with.  *)
(***************************************************************************)
EXTENDS Server

CONSTANTS Alphabet,   \* the bytes field data is made of
          MaxLen,     \* length of the first field's data
          Pads,       \* how many bytes of filler it begins with
          MaxLen2,    \* length of the second field's data
          Cut,        \* TRUE: also every truncation of the bodies and damaged delimiter tails
          MaxErr,     \* how many transport errors may occur
          Reads,      \* sizes a caller reads
          MinBig,     \* the other minimum buffer size a caller may ask for
          MinNext,    \* the minimum buffer size while looking for an entry
          Geometry,   \* TRUE: the buffer has a capacity, reads are limited by the free space
          Cap0,       \* its initial capacity
          Defects,    \* which known defects the design is given: see below
          Record      \* TRUE: keep a record of the run for replaying it (simulation only)

Bnd == <<66>>
D == Delim(Bnd)
(* The header block of the abstract body. *)
AbsHeaderOf(h) == IF h \in {<<72>>, <<73>>}
                  THEN [ok |-> TRUE, name |-> h, filename |-> <<>>, ctype |-> <<>>] ELSE BadHeader

Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Fill(k) == [i \in 1..k |-> 120]
Hdr(c) == CRLF \o <<c, 13, 10, 13, 10>>
Whole2(a, b) == D \o Hdr(72) \o a \o CRLF \o D \o Hdr(73) \o b \o CRLF \o D \o DASHES
Clean(x) == Occ(CRLF \o x \o CRLF, D) = {}
Good == {Whole2(Fill(k) \o a, b) : k \in Pads, a \in {x \in Strings(MaxLen) : Clean(x)}, b \in {x \in Strings(MaxLen2) : Clean(x)}}
Damaged(x) == {SubSeq(x, 1, n) : n \in 0..(Len(x) - 1)}
              \cup {SubSeq(x, 1, i + Len(D) - 1) \o t \o Drop(x, i + Len(D) + 1) :
                      i \in Occ(x, D), t \in {<<13, 13>>, <<45, 13>>, <<120, 120>>}}
Bodies == IF Cut THEN UNION {Damaged(x) : x \in Good} ELSE {x \o <<13, 10>> : x \in Good}
BodySeq == SetToSeq(Bodies)
PP == [i \in 1..Len(BodySeq) |->
         LET p == Parse(BodySeq[i], Bnd)
         IN [parts |-> p.parts, fin |-> p.fin, b |-> BodySeq[i], slack |-> Slack(Bnd)]]

(* Where the transport may pause: not inside a header block, it only costs states. *)
InHeader(x, t) == \E i \in {72, 73} : t >= 1 /\ x[t] = i
CutsOf(x) == {t \in 1..Len(x) : t = Len(x) \/ ~InHeader(x, t)}
CutSeq == [i \in 1..Len(BodySeq) |-> CutsOf(BodySeq[i])]

VARIABLES B,      \* which body
          cons,   \* bytes consumed from the buffer
          top,    \* bytes fetched from the transport
          ended,  \* the transport has reported its end
          idx,    \* search_idx
          st,     \* "S", "B" or "E": Searching, BoundaryRead, AtEnd
          minb,   \* the minimum buffer size
          off, cap, \* where the window starts in the buffer, how large the buffer is
          pc, call, hlen, \* the call in progress
          peek,   \* what the caller has been shown
          infield,\* the caller holds an entry
          errs,   \* transport errors so far
          soft,   \* those during the current call
          S,      \* contract states
          rec
vars == <<B, cons, top, ended, idx, st, minb, off, cap, pc, call, hlen, peek, infield, errs, soft, S, rec>>

b == BodySeq[B]
N == Len(b)
Win == SubSeq(b, cons + 1, top)
WLen == top - cons
Has(x) == x \in Defects

Init == /\ B \in 1..Len(BodySeq)
        /\ cons = 0 /\ top = 0 /\ ended = FALSE /\ idx = 0 /\ st = "S" /\ minb = MinNext
        /\ off = 0 /\ cap = Cap0
        /\ pc = "idle" /\ call = [op |-> "none", n |-> 0] /\ hlen = 0 /\ peek = 0 /\ infield = FALSE
        /\ errs = 0 /\ soft = <<>> /\ S = {Start} /\ rec = <<>>

Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec

-----------------------------------------------------------------------------
(* The buffered source: BufReader with the MinBuffered policy. *)

(* MinBuffered::before_read moves the window to the front of the buffer when *)
(* there is too little room behind it.                                       *)
Moved == IF ~Geometry \/ WLen >= minb THEN 0
         ELSE IF cap - (off + WLen) < minb /\ cap - WLen >= minb THEN 0 ELSE off
Grown == IF Geometry /\ WLen < minb /\ ~(cap - (off + WLen) < minb /\ cap - WLen >= minb) /\ cap < minb THEN minb ELSE cap
Room == IF Geometry THEN Grown - (Moved + WLen) ELSE N
NeedsMore == WLen < minb /\ ~ended /\ Room > 0

(* One read from the transport within fill_buf. ReadEnd, ReadErr, ReadSome.  *)
ReadSome == /\ NeedsMore
            /\ \E t \in CutSeq[B] :
                 /\ t > top /\ t - top <= Room
                 /\ top' = t /\ off' = Moved /\ cap' = Grown
                 /\ Note([t |-> "n", n |-> t])
            /\ UNCHANGED <<cons, ended, idx, st, minb, pc, call, hlen, peek, infield, errs, soft, S>>
ReadEnd == /\ NeedsMore /\ top = N
           /\ ended' = TRUE /\ off' = Moved /\ cap' = Grown
           /\ UNCHANGED <<cons, top, idx, st, minb, pc, call, hlen, peek, infield, errs, soft, S, rec>>

(* What read_to_boundary makes of the window. *)
FindIn(w) ==
  LET occ == Occ(w, D)
      from == MaxI(0, Len(w) - (IF Has("short-holdback") THEN Len(D) - 2 ELSE Len(D)))
      frag == {i \in from..(Len(w) - 1) : IsPre(Drop(w, i), D)}
  IN IF occ # {} THEN [found |-> TRUE, n |-> Min(occ) - 1]
     ELSE IF frag # {} THEN [found |-> FALSE, n |-> Min(frag)]
     ELSE IF ~Has("no-cr-holdback") /\ EndsWith(w, <<13>>) THEN [found |-> FALSE, n |-> Len(w) - 1]
     ELSE [found |-> FALSE, n |-> Len(w)]
Rtb ==
  IF st # "S" THEN [idx |-> idx, st |-> st]
  ELSE LET look == idx < WLen
           f == FindIn(Drop(Win, idx))
           i1 == IF look THEN idx + f.n ELSE idx
           s1 == IF look /\ f.found THEN "B" ELSE st
           back == i1 >= 2 /\ ~At(Win, i1 + 1, CRLF) /\ SubSeq(Win, i1 - 1, i1) = CRLF
       IN [idx |-> IF back THEN i1 - 2 ELSE i1, st |-> s1]

Filled == ~NeedsMore      \* the source has no more to add to the window now

-----------------------------------------------------------------------------
(* Returning to the caller: the contract judges the event. *)
Ret(ev) == /\ S' = UNION {After(PP[B], s, ev @@ [faults |-> soft, post |-> 0]) : s \in S}
           /\ pc' = "idle" /\ call' = [op |-> "none", n |-> 0] /\ hlen' = 0 /\ soft' = <<>>

(* An error from the transport ends the call (an interruption ends it too, here). *)
ReadErr == /\ NeedsMore /\ errs < MaxErr
           /\ \E k \in {"Interrupted", "Other"} :
                /\ errs' = errs + 1
                /\ Note([t |-> k, n |-> top])
                /\ S' = UNION {After(PP[B], s, CASE call.op = "next" -> [op |-> "next", res |-> "err", faults |-> <<k>>, post |-> 0]
                                            [] call.op = "fill" -> [op |-> "fill", res |-> "err", out |-> <<>>, faults |-> <<k>>, post |-> 0]
                                            [] OTHER -> [op |-> "read", res |-> "err", n |-> call.n, out |-> <<>>, faults |-> <<k>>, post |-> 0])
                             : s \in S}
           /\ infield' = (infield /\ call.op # "next")
           /\ off' = Moved /\ cap' = Grown
           /\ pc' = "idle" /\ call' = [op |-> "none", n |-> 0] /\ hlen' = 0 /\ soft' = <<>>
           /\ UNCHANGED <<B, cons, top, ended, idx, st, minb, peek>>

Consume(n) == /\ cons' = cons + n
              /\ idx' = idx - n
              /\ off' = IF n = WLen THEN 0 ELSE IF Geometry THEN off + n ELSE 0

-----------------------------------------------------------------------------
(* The caller starts a call. *)
Begin == /\ pc = "idle"
         /\ \/ infield /\ call' = [op |-> "fill", n |-> 0] /\ pc' = "data" /\ UNCHANGED <<minb, cap, off>>
            \/ infield /\ (\E n \in Reads : call' = [op |-> "read", n |-> n]) /\ pc' = "data" /\ UNCHANGED <<minb, cap, off>>
            \/ call' = [op |-> "next", n |-> 0] /\ pc' = "find" /\ minb' = MaxI(MinNext, IF Has("min-too-small") THEN 0 ELSE 2 * Len(D))
               /\ UNCHANGED <<cap, off>>
         /\ Note([t |-> call'.op, n |-> call'.n])
         /\ UNCHANGED <<B, cons, top, ended, idx, st, hlen, peek, infield, errs, soft, S>>

(* Calls that touch nothing but the bookkeeping. *)
DoConsume == /\ pc = "idle" /\ infield
             /\ \E k \in 1..peek :
                  /\ Consume(MinI(k, idx))
                  /\ peek' = peek - k
                  /\ S' = UNION {After(PP[B], s, [op |-> "consume", n |-> k, faults |-> <<>>, post |-> 0]) : s \in S}
                  /\ Note([t |-> "consume", n |-> k])
             /\ UNCHANGED <<B, top, ended, st, minb, cap, pc, call, hlen, infield, errs, soft>>
DoSetMin == /\ pc = "idle" /\ infield
            /\ \E m \in {0, MinBig} :
                 LET m2 == MaxI(m, IF Has("min-too-small") THEN 0 ELSE 2 * Len(D)) IN
                 /\ minb # m2
                 /\ minb' = m2
                 /\ IF Geometry /\ ~Has("no-reserve") /\ cap < 2 * m2 THEN cap' = 2 * m2 /\ off' = 0 ELSE UNCHANGED <<cap, off>>
                 /\ Note([t |-> "setmin", n |-> m])
                 /\ S' = UNION {After(PP[B], s, [op |-> "setmin", n |-> m, faults |-> <<>>, post |-> 0]) : s \in S}
            /\ UNCHANGED <<B, cons, top, ended, idx, st, pc, call, hlen, peek, infield, errs, soft>>

(* fill_buf and read of a field. *)
DoData ==
        /\ pc = "data" /\ Filled
        /\ LET r == Rtb
               shown == SubSeq(Win, 1, r.idx)
               k == MinI(call.n, r.idx)
           IN IF call.op = "fill"
              THEN /\ idx' = r.idx /\ st' = r.st /\ peek' = r.idx
                   /\ Ret([op |-> "fill", res |-> "ok", out |-> shown])
                   /\ UNCHANGED <<cons, off>>
              ELSE /\ st' = r.st /\ peek' = MaxI(0, peek - k)
                   /\ cons' = cons + k /\ idx' = r.idx - k
                   /\ off' = IF k = WLen THEN 0 ELSE IF Geometry THEN off + k ELSE 0
                   /\ Ret([op |-> "read", res |-> "ok", n |-> call.n, out |-> Take(shown, k)])
        /\ UNCHANGED <<B, top, ended, minb, cap, infield, errs, rec>>

(* consume_boundary: look for the delimiter, discarding data. *)
NextErr == Ret([op |-> "next", res |-> "err"]) /\ infield' = FALSE
Find == /\ pc = "find"
        /\ IF st = "E" THEN /\ Ret([op |-> "next", res |-> "end"]) /\ infield' = FALSE
                            /\ UNCHANGED <<cons, idx, off, st>>
           ELSE IF st = "B" THEN /\ pc' = "verify"
                                 /\ IF Has("keep-unread") THEN UNCHANGED <<cons, idx, off>> ELSE Consume(idx)
                                 /\ UNCHANGED <<st, S, call, hlen, soft, infield>>
           ELSE /\ Filled
                /\ LET r == Rtb IN
                   IF r.idx = 0 /\ r.st = "S"
                   THEN /\ idx' = 0 /\ UNCHANGED <<cons, off, st>> /\ NextErr
                   ELSE /\ st' = r.st /\ cons' = cons + r.idx /\ idx' = 0
                        /\ off' = IF r.idx = WLen THEN 0 ELSE IF Geometry THEN off + r.idx ELSE 0
                        /\ UNCHANGED <<S, pc, call, hlen, soft, infield>>
        /\ UNCHANGED <<B, top, ended, minb, cap, peek, errs, rec>>
Verify == /\ pc = "verify" /\ Filled
          /\ LET seg == Drop(Win, idx)
                 pre == IF StartsWith(seg, CRLF) THEN 2 ELSE 0
                 n == idx + pre + Len(D) + 2
                 tl == Sub(Win, n - 1, n)
             IN IF WLen < n
                THEN NextErr /\ UNCHANGED <<cons, idx, off, st>>
                ELSE IF tl = CRLF
                THEN /\ st' = "S" /\ cons' = cons + n /\ idx' = 0
                     /\ off' = IF n = WLen THEN 0 ELSE IF Geometry THEN off + n ELSE 0
                     /\ pc' = "head" /\ hlen' = 0 /\ UNCHANGED <<S, call, soft, infield>>
                ELSE IF tl = DASHES
                THEN /\ st' = "E" /\ cons' = cons + n /\ idx' = 0
                     /\ off' = IF n = WLen THEN 0 ELSE IF Geometry THEN off + n ELSE 0
                     /\ Ret([op |-> "next", res |-> "end"]) /\ infield' = FALSE
                ELSE /\ st' = (IF Has("bad-tail-ends") THEN "E" ELSE "S") /\ NextErr /\ UNCHANGED <<cons, idx, off>>
          /\ UNCHANGED <<B, top, ended, minb, cap, peek, errs, rec>>
(* with_headers: the visible bytes must grow or hold a whole block. *)
DoHead ==
        /\ pc = "head" /\ Filled
        /\ LET r == Rtb
               v == SubSeq(Win, 1, r.idx)
               blk(c) == <<c, 13, 10, 13, 10>>
           IN IF r.idx = hlen
              THEN st' = r.st /\ idx' = r.idx /\ NextErr /\ UNCHANGED <<cons, off>>
              ELSE IF \E c \in {72, 73} : StartsWith(v, blk(c))
              THEN /\ st' = r.st /\ cons' = cons + 5 /\ idx' = r.idx - 5
                   /\ off' = IF 5 = WLen THEN 0 ELSE IF Geometry THEN off + 5 ELSE 0
                   /\ Ret([op |-> "next", res |-> "entry", name |-> <<v[1]>>, filename |-> <<>>, ctype |-> <<>>, istext |-> TRUE])
                   /\ infield' = TRUE
              ELSE IF \E c \in {72, 73} : IsPre(v, blk(c))
              THEN st' = r.st /\ idx' = r.idx /\ hlen' = r.idx /\ UNCHANGED <<cons, off, pc, call, soft, S, infield>>
              ELSE st' = r.st /\ idx' = r.idx /\ NextErr /\ UNCHANGED <<cons, off>>
        /\ peek' = 0
        /\ UNCHANGED <<B, top, ended, minb, cap, errs, rec>>

Internal == (pc # "idle" /\ (ReadSome \/ ReadEnd) /\ UNCHANGED <<B>>) \/ (pc # "idle" /\ ReadErr) \/ DoData \/ Find \/ Verify \/ DoHead
Caller == Begin \/ DoConsume \/ DoSetMin
Next == Caller \/ Internal

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Internal)

Refines == S # {}
Returns == (pc # "idle") ~> (pc = "idle")
TypeOK == cons <= top /\ top <= N /\ idx <= WLen
=============================================================================
