------------------------------ MODULE SaveImpl ------------------------------
(***************************************************************************)
(* The design of saving one field (src/server/save.rs: with_path,          *)
(* save_text, save_mem, read_mem, write_limited, try_copy_limited,         *)
(* try_read_buf, try_write_all), over an arbitrary reader and an arbitrary *)
(* writer, for every combination of the limits, the text mode and a target *)
(* that can or cannot be opened. A caller saves, and goes on saving after  *)
(* an incomplete save. As in ReaderImpl, S is the set of contract states   *)
(* that explain what was observed, and must never become empty; the place  *)
(* the contract says the caller is at must be where the reader is.         *)
(***************************************************************************)
EXTENDS Server, TLC, SequencesExt

CONSTANTS Alphabet,  \* the bytes of the data: some of a letter, a longer character's lead and tail
          MaxLen,
          MaxLim,    \* size limits and thresholds: none, or up to this
          Texts,     \* text modes
          MinShow,   \* the reader shows at least so many bytes, if they are there
          MaxErr, MaxSaves,
          Writers,   \* TRUE: also saving through a writer
          Defects, Record

Datas == SetToSeq(UNION {[1..k -> Alphabet] : k \in 0..MaxLen})
PP == [i \in 1..Len(Datas) |->
         [parts |-> <<[ds |-> 1, de |-> Len(Datas[i]), open |-> FALSE, hl |-> 5,
                       hd |-> [ok |-> TRUE, name |-> <<72>>, filename |-> <<>>, ctype |-> <<>>]]>>,
          fin |-> "end", b |-> Datas[i], slack |-> 0]]
Limits == {NoLimit} \cup 0..MaxLim
Opts == [size : Limits, mem : Limits, text : Texts, count : {NoLimit}]
InField == [Start EXCEPT !.part = 1, !.ph = "data"]

VARIABLES B,      \* which data
          pos,    \* consumed from the reader
          shown,  \* at least up to here it has been shown
          pc,     \* idle, text, mem, spill, file, write
          o, bad, \* options of the save in progress; its target cannot be opened
          copied, \* in the current copy loop
          kept,   \* read to memory
          file,   \* <<>> or <<contents>>
          out,    \* what the writer accepted
          wfault, \* the writer failed
          errs, soft, saves, S, rec
vars == <<B, pos, shown, pc, o, bad, copied, kept, file, out, wfault, errs, soft, saves, S, rec>>

d == Datas[B]
N == Len(d)
Has(x) == x \in Defects
Note(x) == IF Record THEN rec' = Append(rec, x) ELSE UNCHANGED rec

Init == /\ B \in 1..Len(Datas) /\ pos = 0 /\ shown = 0 /\ pc = "idle" /\ bad = FALSE
        /\ o = [size |-> NoLimit, mem |-> NoLimit, text |-> "try", count |-> NoLimit]
        /\ copied = 0 /\ kept = <<>> /\ file = <<>> /\ out = <<>> /\ wfault = FALSE
        /\ errs = 0 /\ soft = <<>> /\ saves = 0 /\ S = {InField} /\ rec = <<>>

-----------------------------------------------------------------------------
Lim(l) == IF l = NoLimit THEN 1000 ELSE l
MinLim(a, b) == MinI(Lim(a), Lim(b))

(* The length of the longest prefix of b that is text, and whether what     *)
(* follows it may become text with more bytes.                             *)
ValidLen(b) == Max({k \in 0..Len(b) : ValidUtf8(SubSeq(b, 1, k))})
CutOff(b) == LET rest == SubSeq(b, ValidLen(b) + 1, Len(b))
             IN /\ Len(rest) \in 1..3
                /\ \E m \in 1..3, x \in {143, 160} : ValidUtf8(rest \o [i \in 1..m |-> IF i = 1 THEN x ELSE 128])

(* A result: the call returns. *)
Blank == /\ pc' = "idle" /\ copied' = 0 /\ kept' = <<>> /\ file' = <<>> /\ out' = <<>> /\ wfault' = FALSE /\ soft' = <<>>
Observe(e, p) == /\ S' = UNION {After(PP[B], s, e @@ [faults |-> soft', post |-> 0]) : s \in S}
                 /\ pos' = p
GiveD(res, why, kind, bs, p, faults, disk) ==
  /\ S' = UNION {After(PP[B], s,
             [op |-> "save", o |-> o, res |-> res, why |-> why, badtarget |-> bad, disk |-> disk, strayfiles |-> 0,
              newfiles |-> IF file # <<>> THEN 1 ELSE 0,
              r |-> IF res = "error" THEN <<>> ELSE <<[kind |-> kind, bytes |-> bs, size |-> Len(bs)]>>,
              faults |-> faults, post |-> 0]) : s \in S}
  /\ pos' = p /\ Blank
Give(res, why, kind, bs, p, faults) == GiveD(res, why, kind, bs, p, faults, <<>>)
GiveW(res, why, p, bs, wf, faults) ==
  /\ S' = UNION {After(PP[B], s, [op |-> "writeto", o |-> o, res |-> res, why |-> why, n |-> Len(bs), out |-> bs,
                                  wfault |-> wf, faults |-> faults, post |-> 0]) : s \in S}
  /\ pos' = p /\ Blank

Begin == /\ pc = "idle" /\ saves < MaxSaves
         /\ saves' = saves + 1
         /\ o' \in Opts
         /\ bad' \in BOOLEAN
         /\ \E w \in (IF Writers THEN BOOLEAN ELSE {FALSE}) :
              /\ (w => bad' = FALSE /\ o'.mem = NoLimit /\ o'.text = "ignore")
              /\ pc' = IF w THEN "write" ELSE IF o'.text = "ignore" THEN "mem" ELSE "text"
              /\ Note([t |-> IF w THEN "writeto" ELSE "save", n |-> pos, o |-> o', bad |-> bad'])
         /\ UNCHANGED <<B, pos, shown, copied, kept, file, out, wfault, errs, soft, S>>

(* What the reader shows: at least what it has shown before, at least a few  *)
(* bytes, everything at the end.                                            *)
Shows == {k \in pos..N : k >= shown /\ (k >= pos + MinShow \/ k = N)}
Buf(k) == SubSeq(d, pos + 1, k)

-----------------------------------------------------------------------------
(* The step from the memory phase to a file. ks: what was read to memory.   *)
ToFile(ks, p) ==
  IF bad
  THEN IF ks = <<>> \/ Has("lose-on-open") THEN Give("error", "io", "none", <<>>, p, soft) /\ UNCHANGED shown
       ELSE Give("partial", "io", "bytes", ks, p, soft) /\ UNCHANGED shown
  ELSE /\ pc' = "spill" /\ file' = <<<<>>>> /\ kept' = ks /\ copied' = 0 /\ pos' = p
       /\ UNCHANGED <<shown, out, wfault, soft, S>>
AfterMem(ks, p, why) ==
  IF why = "size" /\ (Has("disk-despite-limit") \/ Lim(o.size) > Lim(o.mem)) THEN ToFile(ks, p)
  ELSE Give("partial", why, "bytes", ks, p, soft) /\ UNCHANGED shown
(* From the text phase to the memory phase, or the end. *)
AfterText(ks, p, why) ==
  LET on == CASE why = "size" -> Len(ks) < Lim(o.size)
              [] why = "utf8" -> o.text # "force" \/ Has("force-falls-back")
              [] OTHER -> FALSE
  IN IF on THEN /\ pc' = "mem" /\ kept' = ks /\ copied' = 0 /\ pos' = p
                /\ UNCHANGED <<shown, file, out, wfault, soft, S>>
     ELSE Give("partial", why, "text", ks, p, soft) /\ UNCHANGED shown

TextLim == MinLim(o.size, o.mem)
MemLim == IF Has("limit-forgets-text") THEN MinLim(o.size, o.mem) ELSE MaxI(0, MinLim(o.size, o.mem) - (Len(kept) - copied))
FileLim == IF Has("file-limit-forgets-memory") THEN Lim(o.size) ELSE MaxI(0, Lim(o.size) - Len(kept))

Text == /\ pc = "text"
        /\ \E k \in Shows : Note([t |-> "n", n |-> k]) /\
             LET w == Buf(k)
                 v == ValidLen(w)
             IN IF w = <<>> THEN Give("full", "none", "text", kept, pos, soft) /\ UNCHANGED shown
                ELSE IF copied + Len(w) > TextLim THEN AfterText(kept, pos, "size")
                ELSE IF v = Len(w) \/ (v > 0 /\ CutOff(w) /\ ~Has("cut-is-invalid"))
                THEN /\ kept' = kept \o SubSeq(w, 1, v) /\ copied' = copied + v /\ pos' = pos + v /\ shown' = k
                     /\ UNCHANGED <<pc, file, out, wfault, soft, S>>
                ELSE IF o.text = "force" /\ Has("retry-invalid")
                THEN /\ kept' = kept \o SubSeq(w, 1, v) /\ copied' = copied + v /\ pos' = pos + v /\ shown' = k
                     /\ UNCHANGED <<pc, file, out, wfault, soft, S>>
                ELSE AfterText(kept \o SubSeq(w, 1, v), pos + v, "utf8")
        /\ UNCHANGED <<B, o, bad, errs, saves>>

Mem == /\ pc = "mem"
       /\ \E k \in Shows : Note([t |-> "n", n |-> k]) /\
            LET w == Buf(k)
            IN IF w = <<>> THEN Give("full", "none", "bytes", kept, pos, soft) /\ UNCHANGED shown
               ELSE IF copied + Len(w) > MemLim THEN AfterMem(kept, pos, "size")
               ELSE /\ kept' = kept \o w /\ copied' = copied + Len(w) /\ pos' = k /\ shown' = k
                    /\ UNCHANGED <<pc, file, out, wfault, soft, S>>
       /\ UNCHANGED <<B, o, bad, errs, saves>>

(* What was read to memory is written to the file; it may have no room.     *)
Spill == /\ pc = "spill"
         /\ \/ /\ pc' = "file" /\ file' = <<kept>>
               /\ UNCHANGED <<shown, kept, copied, pos, out, wfault, soft, S, rec>>
            \/ /\ MaxErr > 0
               /\ \E j \in 0..(Len(kept) - 1) :
                    /\ Note([t |-> "full", n |-> shown, len |-> j])
                    /\ IF ~Has("lose-on-write") THEN GiveD("partial", "io", "bytes", kept, pos, soft, <<j>>)
                       ELSE IF j = 0 THEN GiveD("error", "io", "none", <<>>, pos, soft, <<j>>)
                       ELSE GiveD("partial", "io", "file", SubSeq(kept, 1, j), pos, soft, <<j>>)
               /\ UNCHANGED shown
         /\ UNCHANGED <<B, o, bad, errs, saves>>

ToDisk == /\ pc = "file"
          /\ \E k \in Shows : Note([t |-> "n", n |-> k]) /\
               LET w == Buf(k)
               IN IF w = <<>> THEN Give("full", "none", "file", file[1], pos, soft) /\ UNCHANGED shown
                  ELSE IF o.size # NoLimit /\ copied + Len(w) > FileLim
                  THEN Give("partial", "size", "file", file[1], pos, soft) /\ UNCHANGED shown
                  ELSE /\ file' = <<file[1] \o w>> /\ copied' = copied + Len(w) /\ pos' = k /\ shown' = k
                       /\ UNCHANGED <<pc, kept, out, wfault, soft, S>>
          /\ UNCHANGED <<B, o, bad, errs, saves>>

(* The file has no room for all of what is shown. *)
NoRoom == /\ pc = "file" /\ MaxErr > 0
          /\ \E k \in Shows :
               LET w == Buf(k)
               IN /\ w # <<>> /\ (o.size = NoLimit \/ copied + Len(w) <= FileLim)
                  /\ \E j \in 0..(Len(w) - 1) :
                       LET got == file[1] \o SubSeq(w, 1, j)
                       IN /\ Note([t |-> "full", n |-> k, len |-> Len(got)])
                          /\ GiveD("partial", "io", "file", got, IF Has("consume-all-on-failure") THEN k ELSE pos + j, soft, <<Len(got)>>)
                  /\ UNCHANGED shown
          /\ UNCHANGED <<B, o, bad, errs, saves>>

(* Through a writer, which takes what it is given, some of it and fails, or  *)
(* fails at once.                                                           *)
Write == /\ pc = "write"
         /\ \E k \in Shows :
              LET w == Buf(k)
              IN IF w = <<>> THEN GiveW("full", "none", pos, out, FALSE, soft) /\ UNCHANGED <<shown, errs>> /\ Note([t |-> "n", n |-> k])
                 ELSE IF o.size # NoLimit /\ copied + Len(w) > Lim(o.size)
                 THEN GiveW("partial", "size", pos, out, FALSE, soft) /\ UNCHANGED <<shown, errs>> /\ Note([t |-> "n", n |-> k])
                 ELSE \/ /\ out' = out \o w /\ copied' = copied + Len(w) /\ pos' = k /\ shown' = k
                         /\ UNCHANGED <<pc, kept, file, wfault, soft, S, errs>> /\ Note([t |-> "n", n |-> k])
                      \/ /\ errs < MaxErr /\ errs' = errs + 1
                         /\ \E j \in 0..(Len(w) - 1) :
                              LET got == out \o SubSeq(w, 1, j)
                              IN /\ Note([t |-> "wfail", n |-> k, got |-> Len(got)])
                                 /\ IF j = 0 THEN GiveW("partial", "io", pos, out, TRUE, soft)
                                    ELSE GiveW("partial", "io", IF Has("consume-all-on-failure") THEN k ELSE pos + j, got, TRUE, soft)
                         /\ UNCHANGED shown
         /\ UNCHANGED <<B, o, bad, saves>>

(* The transport fails while the reader looks for more. *)
Fault == /\ pc \in {"text", "mem", "file", "write"} /\ errs < MaxErr
         /\ errs' = errs + 1
         /\ \E k \in {"Interrupted", "Other"} :
              /\ Note([t |-> k, n |-> shown])
              /\ IF k = "Interrupted"
                 THEN soft' = Append(soft, k) /\ UNCHANGED <<pos, pc, copied, kept, file, out, wfault, S>>
                 ELSE LET f == Append(soft, k) IN
                      CASE pc = "text" -> IF copied = 0 THEN Give("error", "io", "none", <<>>, pos, f) ELSE Give("partial", "io", "text", kept, pos, f)
                        [] pc = "mem" -> IF kept = <<>> \/ (Has("lose-text-on-error") /\ copied = 0) THEN Give("error", "io", "none", <<>>, pos, f)
                                         ELSE Give("partial", "io", "bytes", kept, pos, f)
                        [] pc = "file" -> IF copied = 0 /\ Has("lose-file-on-error") THEN Give("error", "io", "none", <<>>, pos, f)
                                          ELSE Give("partial", "io", "file", file[1], pos, f)
                        [] pc = "write" -> IF copied = 0 THEN GiveW("error", "io", pos, <<>>, FALSE, f)
                                           ELSE GiveW("partial", "io", pos, out, FALSE, f)
         /\ UNCHANGED <<B, shown, o, bad, saves>>

Next == Begin \/ Text \/ Mem \/ Spill \/ ToDisk \/ NoRoom \/ Write \/ Fault
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Text \/ Mem \/ Spill \/ ToDisk \/ NoRoom \/ Write)

(* Everything observed is allowed, and the next byte the caller gets is the  *)
(* one the contract says.                                                   *)
Refines == S # {}
InStep == pc = "idle" => \E s \in S : s.off = pos
TypeOK == /\ pos \in 0..N /\ shown \in 0..N /\ pc \in {"idle", "text", "mem", "spill", "file", "write"}
          /\ (file # <<>> <=> pc \in {"spill", "file"}) /\ Len(kept) <= N
(* Never more in memory than the threshold and the limit. *)
MemoryBounded == pc \in {"text", "mem"} => Len(kept) <= MinLim(o.size, o.mem)
DiskBounded == file # <<>> => Len(file[1]) <= Lim(o.size)
Returns == (pc # "idle") ~> (pc = "idle")
=============================================================================
