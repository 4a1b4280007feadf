------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255. Literals are written as their     *)
(* ASCII codes; the constants below are the ones the grammar needs.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CR == 13
LF == 10
TAB == 9
SP == 32
DQ == 34
DASH == 45
SEMI == 59
COLON == 58
EQS == 61
SLASH == 47
CRLF == <<13, 10>>
DASHES == <<45, 45>>

(* "content-disposition" *)
S_CD == <<99,111,110,116,101,110,116,45,100,105,115,112,111,115,105,116,105,111,110>>
(* "content-type" *)
S_CT == <<99,111,110,116,101,110,116,45,116,121,112,101>>
(* "form-data" *)
S_FD == <<102,111,114,109,45,100,97,116,97>>
(* "name", "filename", "text", "boundary", "multipart" *)
S_NAME == <<110,97,109,101>>
S_FILENAME == <<102,105,108,101,110,97,109,101>>
S_TEXT == <<116,101,120,116>>
S_BOUNDARY == <<98,111,117,110,100,97,114,121>>
S_MULTIPART == <<109,117,108,116,105,112,97,114,116>>

(* SubSeq, cut off at the end of b *)
Sub(b, i, j) == SubSeq(b, i, IF j < Len(b) THEN j ELSE Len(b))
At(b, i, s) == i + Len(s) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(s) - 1) = s
StartsWith(b, s) == Len(s) <= Len(b) /\ SubSeq(b, 1, Len(s)) = s
EndsWith(b, s) == Len(s) <= Len(b) /\ SubSeq(b, Len(b) - Len(s) + 1, Len(b)) = s
(* All positions of the non-empty pattern s in b. *)
Occ(b, s) == {i \in 1..(Len(b) - Len(s) + 1) : b[i] = s[1] /\ SubSeq(b, i, i + Len(s) - 1) = s}
OccByte(b, c) == {i \in 1..Len(b) : b[i] = c}
FirstOr(S, d) == IF S = {} THEN d ELSE Min(S)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
Take(b, n) == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b))
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(b) == [i \in 1..Len(b) |-> LowerC(b[i])]

IsWs(c) == c = SP \/ c = TAB
(* Strip blanks and tabs at both ends. *)
Trim(b) ==
  LET K == {i \in 1..Len(b) : ~IsWs(b[i])}
  IN IF K = {} THEN <<>> ELSE SubSeq(b, Min(K), Max(K))
TrimL(b) ==
  LET K == {i \in 1..Len(b) : ~IsWs(b[i])}
  IN IF K = {} THEN <<>> ELSE SubSeq(b, Min(K), Len(b))

(* Split b at every occurrence of byte c. *)
SplitByte(b, c) ==
  LET P == SetToSortSeq(OccByte(b, c), <)
      N == Len(P)
  IN [k \in 1..(N + 1) |-> SubSeq(b, IF k = 1 THEN 1 ELSE P[k-1] + 1, IF k = N + 1 THEN Len(b) ELSE P[k] - 1)]

(* RFC 7230 token characters. *)
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDigit(c) == c >= 48 /\ c <= 57
IsToken(c) == IsAlpha(c) \/ IsDigit(c)
              \/ c \in {33,35,36,37,38,39,42,43,45,46,94,95,96,124,126}
AllToken(b) == b # <<>> /\ \A i \in 1..Len(b) : IsToken(b[i])

(***************************************************************************)
(* UTF-8 (RFC 3629): well-formedness of a byte string.                     *)
(***************************************************************************)
IsCont(c) == c >= 128 /\ c <= 191
(* Length of the character whose first byte is at i, 0 if there is none. *)
CharLen(b, i) ==
  LET c == b[i]
      n == Len(b)
      c2 == IF i + 1 <= n THEN b[i+1] ELSE 0
      c3 == IF i + 2 <= n THEN b[i+2] ELSE 0
      c4 == IF i + 3 <= n THEN b[i+3] ELSE 0
  IN IF c < 128 THEN 1
     ELSE IF c >= 194 /\ c <= 223 THEN IF IsCont(c2) THEN 2 ELSE 0
     ELSE IF c >= 224 /\ c <= 239 THEN
            IF /\ IsCont(c2) /\ IsCont(c3)
               /\ (c = 224 => c2 >= 160)
               /\ (c = 237 => c2 <= 159)
            THEN 3 ELSE 0
     ELSE IF c >= 240 /\ c <= 244 THEN
            IF /\ IsCont(c2) /\ IsCont(c3) /\ IsCont(c4)
               /\ (c = 240 => c2 >= 144)
               /\ (c = 244 => c2 <= 143)
            THEN 4 ELSE 0
     ELSE 0
(* b is well-formed iff every byte that is not a continuation byte starts a   *)
(* character, and every continuation byte lies inside one. Stated without     *)
(* recursion: the lead positions and their lengths tile the string.           *)
ValidUtf8(b) ==
  LET HB == {i \in 1..Len(b) : b[i] >= 128}
      LeadB == {i \in HB : b[i] >= 192}
  IN /\ \A i \in LeadB : CharLen(b, i) > 0
     /\ \A i \in HB \ LeadB :
          \E k \in 1..3 : i - k >= 1 /\ b[i-k] >= 192 /\ CharLen(b, i-k) > k
=============================================================================
