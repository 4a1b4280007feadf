------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* What a multipart body means: Parse(body, boundary) gives                *)
(*   parts : the parts in order, [hd, ds, de, open, hl, dash]; the data of a part is *)
(*           body[ds..de]; open = the body stops inside this part          *)
(*   fin   : "end" (closing delimiter seen), "bad" (a delimiter with a     *)
(*           wrong tail) or "eof" (the body stops before it was closed)    *)
(* Anchors: src/server/boundary.rs.                                        *)
(***************************************************************************)
EXTENDS Headers

Delim(bnd) == DASHES \o bnd

RECURSIVE PartsFrom(_, _, _, _)
(* from: first byte after a delimiter line; occ: all delimiter positions *)
PartsFrom(b, d, occ, from) ==
  LET nx == {i \in occ : i >= from}
      p == FirstOr(nx, 0)
      open == nx = {}
      \* the segment between two delimiters, without the CRLF that belongs to the second one
      se == IF open THEN Len(b)
            ELSE IF p - 2 >= from /\ SubSeq(b, p - 2, p - 1) = CRLF THEN p - 3 ELSE p - 1
      seg == SubSeq(b, from, se)
      blank == IF StartsWith(seg, CRLF) THEN 0 ELSE FirstOr(Occ(seg, <<13,10,13,10>>), Len(seg) + 1)
      hasBlank == blank <= Len(seg)
      hd == IF hasBlank THEN HeaderOf(SubSeq(seg, 1, blank - 1)) ELSE BadHeader
      ds == IF ~hasBlank THEN se + 1 ELSE IF blank = 0 THEN from + 2 ELSE from + blank + 3
      part == [hd |-> hd, ds |-> ds, de |-> se, open |-> open, hl |-> ds - from, dash |-> StartsWith(Sub(b, ds, se), <<45>>)]
      tl == Sub(b, p + Len(d), p + Len(d) + 1)
  IN IF open THEN [parts |-> <<part>>, fin |-> "eof"]
     ELSE IF tl = DASHES THEN [parts |-> <<part>>, fin |-> "end"]
     ELSE IF Len(tl) < 2 THEN [parts |-> <<part>>, fin |-> "eof"]
     ELSE IF tl # CRLF THEN [parts |-> <<part>>, fin |-> "bad"]
     ELSE LET r == PartsFrom(b, d, occ, p + Len(d) + 2)
          IN [parts |-> <<part>> \o r.parts, fin |-> r.fin]

Parse(b, bnd) ==
  LET d == Delim(bnd)
      occ == Occ(b, d)
      p == FirstOr(occ, 0)
      tl == Sub(b, p + Len(d), p + Len(d) + 1)
  IN IF occ = {} THEN [parts |-> <<>>, fin |-> "eof"]
     ELSE IF tl = DASHES THEN [parts |-> <<>>, fin |-> "end"]
     ELSE IF Len(tl) < 2 THEN [parts |-> <<>>, fin |-> "eof"]
     ELSE IF tl # CRLF THEN [parts |-> <<>>, fin |-> "bad"]
     ELSE PartsFrom(b, d, occ, p + Len(d) + 2)

(* Bytes at the end of a truncated body that a reader may withhold because   *)
(* they may belong to a delimiter.                                           *)
Slack(bnd) == Len(bnd) + 6
=============================================================================
