------------------------------ MODULE Headers ------------------------------
(***************************************************************************)
(* The header block of one part: what a field declares about itself.       *)
(* HeaderOf(h) maps the bytes of the block (without the blank line) to     *)
(*   [ok, name, filename, ctype]   filename/ctype are <<>> when absent and *)
(*   <<value>> when present.                                               *)
(* Anchors: src/server/field.rs with_headers, ContentDisp::parse_required, *)
(* parse_content_type, find_header.                                        *)
(***************************************************************************)
EXTENDS Bytes

MaxHeaders == 4
BadHeader == [ok |-> FALSE, name |-> <<>>, filename |-> <<>>, ctype |-> <<>>]

(* Lines are separated by CRLF. *)
Lines(h) ==
  LET P == SetToSortSeq(Occ(h, CRLF), <)
      N == Len(P)
  IN [k \in 1..(N + 1) |-> SubSeq(h, IF k = 1 THEN 1 ELSE P[k-1] + 2, IF k = N + 1 THEN Len(h) ELSE P[k] - 1)]

LineOk(l) ==
  LET c == FirstOr(OccByte(l, COLON), 0)
  IN /\ c > 1
     /\ \A i \in 1..(c-1) : IsToken(l[i])
     /\ \A i \in (c+1)..Len(l) : (l[i] >= 32 /\ l[i] # 127) \/ l[i] = TAB
     /\ ValidUtf8(SubSeq(l, c+1, Len(l)))
LineName(l) == Lower(SubSeq(l, 1, Min(OccByte(l, COLON)) - 1))
LineVal(l) == Trim(SubSeq(l, Min(OccByte(l, COLON)) + 1, Len(l)))

(***************************************************************************)
(* Parameters: ( ";" OWS attr OWS "=" OWS value )*. A quoted value ends at *)
(* a quote that is followed by optional blanks and ";" or the end.         *)
(***************************************************************************)
RECURSIVE Params(_)
Params(p) ==   \* p: the text after the disposition type, starts with ';' or is empty
  IF p = <<>> THEN <<>>
  ELSE IF p[1] = SEMI \/ IsWs(p[1]) THEN Params(Tail(p))
  ELSE
    LET semi == FirstOr(OccByte(p, SEMI), Len(p) + 1)
        eq == FirstOr(OccByte(p, EQS), Len(p) + 1)
    IN IF eq > semi \/ eq > Len(p)
       THEN \* an attribute without value
            <<[attr |-> Lower(Trim(SubSeq(p, 1, semi - 1))), val |-> <<>>, has |-> FALSE]>>
              \o Params(Drop(p, semi))
       ELSE
         LET attr == Lower(Trim(SubSeq(p, 1, eq - 1)))
             V == {i \in (eq+1)..Len(p) : ~IsWs(p[i])}
             v == FirstOr(V, Len(p) + 1)
             CloseAt(i) == LET r == TrimL(Drop(p, i)) IN r = <<>> \/ r[1] = SEMI
             Q == IF v <= Len(p) /\ p[v] = DQ
                  THEN {i \in (v+1)..Len(p) : p[i] = DQ /\ CloseAt(i)} ELSE {}
         IN IF Q # {}
            THEN LET q == Min(Q)
                     semi2 == FirstOr({i \in (q+1)..Len(p) : p[i] = SEMI}, Len(p) + 1)
                 IN <<[attr |-> attr, val |-> SubSeq(p, v + 1, q - 1), has |-> TRUE]>>
                      \o Params(Drop(p, semi2))
            ELSE <<[attr |-> attr, val |-> Trim(SubSeq(p, eq + 1, semi - 1)), has |-> TRUE]>>
                   \o Params(Drop(p, semi))

Lookup(ps, a) == LET K == {i \in 1..Len(ps) : ps[i].has /\ ps[i].attr = a}
                 IN IF K = {} THEN <<>> ELSE <<ps[Min(K)].val>>

(* type "/" subtype, optionally followed by parameters *)
ValidMime(v) ==
  LET semi == FirstOr(OccByte(v, SEMI), Len(v) + 1)
      ty == Trim(SubSeq(v, 1, semi - 1))
      sl == FirstOr(OccByte(ty, SLASH), 0)
  IN sl > 0 /\ AllToken(SubSeq(ty, 1, sl - 1)) /\ AllToken(Drop(ty, sl))

IsTextMime(v) == LET sl == FirstOr(OccByte(v, SLASH), 0)
                 IN sl > 0 /\ Lower(SubSeq(v, 1, sl - 1)) = S_TEXT

HeaderOf(h) ==
  LET ls == IF h = <<>> THEN <<>> ELSE Lines(h)
  IN IF Len(ls) > MaxHeaders \/ (\E i \in 1..Len(ls) : ~LineOk(ls[i])) THEN BadHeader
     ELSE
       LET CDs == {i \in 1..Len(ls) : LineName(ls[i]) = S_CD}
           CTs == {i \in 1..Len(ls) : LineName(ls[i]) = S_CT}
       IN IF CDs = {} THEN BadHeader
          ELSE
            LET cd == LineVal(ls[Min(CDs)])
                ct == IF CTs = {} THEN <<>> ELSE <<LineVal(ls[Min(CTs)])>>
                semi == FirstOr(OccByte(cd, SEMI), 0)
            IN IF semi = 0 \/ Trim(SubSeq(cd, 1, semi - 1)) # S_FD THEN BadHeader
               ELSE
                 LET ps == Params(Drop(cd, semi - 1))
                     nm == Lookup(ps, S_NAME)
                 IN IF nm = <<>> \/ (ct # <<>> /\ ~ValidMime(ct[1])) THEN BadHeader
                    ELSE [ok |-> TRUE, name |-> nm[1], filename |-> Lookup(ps, S_FILENAME), ctype |-> ct]

(* A field is text if it declares no content type or a text/* one. *)
IsText(hd) == hd.ctype = <<>> \/ IsTextMime(hd.ctype[1])

(* The declared and the reported content type agree (types are case-insensitive). *)
SameMime(a, b) == Lower(a) = Lower(b)
=============================================================================
