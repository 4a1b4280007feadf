--------------------------- MODULE HeaderNotation ---------------------------
(***************************************************************************)
(* How a client may write down what a field declares: every notation of a  *)
(* header block, and what makes a block no declaration. The law: reading   *)
(* (Headers) inverts writing, for every notation; and a flawed block is    *)
(* none. Behaviours choose one element after the other; each complete one  *)
(* is a block that lib/models.py puts before the real code.                *)
(* Anchors: src/server/field.rs.                                           *)
(***************************************************************************)
EXTENDS Headers, Json

CONSTANTS Wide,   \* all values of each element, or few
          Only    \* the elements that take more than their first value

Eacute == <<195, 169>>
(* Values that stand without quotes, and those that need them. *)
Tokens == << \* a  name  b-1_c.x
     <<97>>,
     <<110,97,109,101>>,
     <<98,45,49,95,99,46,120>> >>
Others == << \* (empty)  x;y  n=v  ; name=z  a b  ; filename="f  a, b  name="q  c:\d\e  %22
     <<>>,
     <<120,59,121>>,
     <<110,61,118>>,
     <<59,32,110,97,109,101,61,122>>,
     <<97,32,98>>,
     <<59,32,102,105,108,101,110,97,109,101,61,34,102>>,
     <<97,44,32,98>>,
     <<110,97,109,101,61,34,113>>,
     <<99,58,92,100,92,101>>,
     <<37,50,50>> >> \o <<Eacute, <<120>> \o Eacute>>
Types == << \* text/plain  image/png  TEXT/html; charset=utf-8  application/x-a.b+c; a="b"  text/x;charset=latin1
     <<116,101,120,116,47,112,108,97,105,110>>,
     <<105,109,97,103,101,47,112,110,103>>,
     <<84,69,88,84,47,104,116,109,108,59,32,99,104,97,114,115,101,116,61,117,116,102,45,56>>,
     <<97,112,112,108,105,99,97,116,105,111,110,47,120,45,97,46,98,43,99,59,32,97,61,34,98,34>>,
     <<116,101,120,116,47,120,59,99,104,97,114,115,101,116,61,108,97,116,105,110,49>> >>
Flaws == <<"none", "no disposition", "other disposition", "no parameters", "no name", "name without value", "bad type", "too many", "near name", "no colon", "disposition last">>

(* The elements in the order of their choice: name and number of values.    *)
Elements == << [k |-> "flaw", n |-> Len(Flaws)],
               [k |-> "name", n |-> Len(Tokens) + Len(Others)],
               [k |-> "filename", n |-> 1 + Len(Tokens) + Len(Others)],
               [k |-> "ctype", n |-> 1 + Len(Types)],
               [k |-> "qname", n |-> 2], [k |-> "qfile", n |-> 2],
               [k |-> "order", n |-> 2], [k |-> "extra", n |-> 6], [k |-> "extraAt", n |-> 3], [k |-> "semis", n |-> 3],
               [k |-> "pcase", n |-> 3], [k |-> "hcase", n |-> 3],
               [k |-> "colon", n |-> 4], [k |-> "before", n |-> 3], [k |-> "after", n |-> 4], [k |-> "trail", n |-> 2],
               [k |-> "ctfirst", n |-> 2], [k |-> "headers", n |-> 9], [k |-> "headersAt", n |-> 3], [k |-> "twice", n |-> 3] >>
Ix(k) == CHOOSE i \in DOMAIN Elements : Elements[i].k = k
N(k) == Elements[Ix(k)].n

VARIABLES c   \* the choices made so far
Init == c = <<>>
Done == Len(c) = Len(Elements)
Next == /\ ~Done
        /\ LET el == Elements[Len(c) + 1]
           IN \E v \in 1..(IF el.k \notin Only THEN 1 ELSE IF Wide THEN el.n ELSE MinI(el.n, 3)) : c' = Append(c, v)
Spec == Init /\ [][Next]_c

At1(k) == c[Ix(k)]
Vals == Tokens \o Others
Name == Vals[At1("name")]
File == IF At1("filename") = 1 THEN <<>> ELSE <<Vals[At1("filename") - 1]>>
Type == IF At1("ctype") = 1 THEN <<>> ELSE <<Types[At1("ctype") - 1]>>
Flaw == Flaws[At1("flaw")]

T_names == <<110,97,109,101,115>> \* "names"
T_attachment == <<97,116,116,97,99,104,109,101,110,116>> \* "attachment"
T_Content_Disposition == <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110>> \* "Content-Disposition"
T_Content_Type == <<67,111,110,116,101,110,116,45,84,121,112,101>> \* "Content-Type"
T_nonsense == <<110,111,110,115,101,110,115,101>> \* "nonsense"
T_X_More_y == <<88,45,77,111,114,101,58,32,121>> \* "X-More: y"
T_Content_Disposition_attachment_name_x == <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,58,32,97,116,116,97,99,104,109,101,110,116,59,32,110,97,109,101,61,34,120,34>> \* "Content-Disposition: attachment; name="x""
T_second == <<115,101,99,111,110,100>> \* "second"
UpperC(x) == IF x >= 97 /\ x <= 122 THEN x - 32 ELSE x
Case(s, how) == CASE how = 1 -> s
                  [] how = 2 -> <<>> \o [i \in 1..Len(s) |-> UpperC(s[i])]
                  [] OTHER -> <<>> \o [i \in 1..Len(s) |-> IF i % 2 = 0 THEN UpperC(s[i]) ELSE LowerC(s[i])]
Blank(how) == <<<<>>, <<SP>>, <<SP, SP>>, <<TAB>>>>[how]
Quoted(v, how) == IF how = 1 \/ ~AllToken(v) THEN <<DQ>> \o v \o <<DQ>> ELSE v

Param(k, v, how) == Case(k, At1("pcase")) \o <<EQS>> \o Quoted(v, how)
NameParam == IF Flaw = "no name" THEN <<>>
             ELSE IF Flaw = "near name" THEN <<Case(T_names, At1("pcase")) \o <<EQS>> \o Quoted(Name, 1)>>
             ELSE IF Flaw = "name without value" THEN <<Case(S_NAME, At1("pcase"))>>
             ELSE <<Param(S_NAME, Name, At1("qname"))>>
FileParam == IF File = <<>> THEN <<>> ELSE <<Param(S_FILENAME, File[1], At1("qfile"))>>
Extras == << \* x=1  x="; name=evil"  filename*=UTF-8''f  name2=n  xname="n"
     <<120,61,49>>,
     <<120,61,34,59,32,110,97,109,101,61,101,118,105,108,34>>,
     <<102,105,108,101,110,97,109,101,42,61,85,84,70,45,56,39,39,102>>,
     <<110,97,109,101,50,61,110>>,
     <<120,110,97,109,101,61,34,110,34>> >>
Extra == IF At1("extra") = 1 THEN <<>> ELSE <<Extras[At1("extra") - 1]>>
Twice == CASE At1("twice") = 1 -> <<>> [] At1("twice") = 2 -> <<Param(S_NAME, T_second, 1)>> [] OTHER -> <<Param(S_FILENAME, T_second, 2)>>
OnesOwn == IF At1("order") = 1 THEN NameParam \o FileParam ELSE FileParam \o NameParam
ParamList == LET o == OnesOwn
                 x == CASE At1("extraAt") = 1 -> Extra \o o
                        [] At1("extraAt") = 2 -> Take(o, 1) \o Extra \o Drop(o, 1)
                        [] OTHER -> o \o Extra
             IN \* a repeated parameter after the one that counts
                x \o (IF (At1("twice") = 3 /\ File = <<>>) \/ Flaw # "none" THEN <<>> ELSE Twice)
Separator == Blank(IF At1("before") = 3 THEN 4 ELSE At1("before")) \o <<SEMI>> \o Blank(At1("after"))
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Separator \o ps[1] \o Joined(Tail(ps))
CDValue == (IF Flaw = "other disposition" THEN T_attachment ELSE S_FD)
           \o (IF Flaw = "no parameters" THEN <<>>
               ELSE Joined(ParamList) \o <<<<>>, <<SEMI>>, <<SEMI, SP, SEMI>>>>[At1("semis")])
           \o Blank(At1("trail"))
Header(k, v) == Case(k, At1("hcase")) \o <<COLON>> \o Blank(At1("colon")) \o v
CD == IF Flaw = "no disposition" THEN <<>> ELSE <<Header(T_Content_Disposition, CDValue)>>
CT == IF Flaw = "bad type" THEN <<Header(T_Content_Type, T_nonsense)>>
      ELSE IF Type = <<>> THEN <<>> ELSE <<Header(T_Content_Type, Type[1])>>
(* Other headers, with names that are nearly these, and values that look like declarations. *)
Mores == << <<>>, << \* X-Other: name="evil"; filename="worse"
     <<88,45,79,116,104,101,114,58,32,110,97,109,101,61,34,101,118,105,108,34,59,32,102,105,108,101,110,97,109,101,61,34,119,111,114,115,101,34>> >>, << \* Content-Dispositions: form-data; name="evil"
     <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,115,58,32,102,111,114,109,45,100,97,116,97,59,32,110,97,109,101,61,34,101,118,105,108,34>> >>,
            << \* Content-Typed: image/gif
     <<67,111,110,116,101,110,116,45,84,121,112,101,100,58,32,105,109,97,103,101,47,103,105,102>> >>, << \* Content-Type-X: image/gif
     <<67,111,110,116,101,110,116,45,84,121,112,101,45,88,58,32,105,109,97,103,101,47,103,105,102>> >>, << \* XContent-Type: image/gif
     <<88,67,111,110,116,101,110,116,45,84,121,112,101,58,32,105,109,97,103,101,47,103,105,102>> >>,
            << \* Content-Disposition-X: form-data; name="evil"  Content: x
     <<67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,45,88,58,32,102,111,114,109,45,100,97,116,97,59,32,110,97,109,101,61,34,101,118,105,108,34>>,
     <<67,111,110,116,101,110,116,58,32,120>> >>,
            << \* X-Content-Disposition: form-data; name="evil"
     <<88,45,67,111,110,116,101,110,116,45,68,105,115,112,111,115,105,116,105,111,110,58,32,102,111,114,109,45,100,97,116,97,59,32,110,97,109,101,61,34,101,118,105,108,34>> >>, << \* Content-Length: 5  X-Empty:
     <<67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,53>>,
     <<88,45,69,109,112,116,121,58>> >> >>
More == Mores[At1("headers")]
Block ==
  LET o == IF At1("ctfirst") = 2 THEN CT \o CD ELSE CD \o CT
      hs == CASE At1("headersAt") = 1 -> More \o o
              [] At1("headersAt") = 2 -> Take(o, 1) \o More \o Drop(o, 1)
              [] OTHER -> o \o More
      all == CASE Flaw = "too many" -> hs \o [i \in 1..(5 - MinI(4, Len(hs))) |-> T_X_More_y]
               [] Flaw = "no colon" -> hs \o <<T_nonsense>>
               [] Flaw = "disposition last" -> <<T_Content_Disposition_attachment_name_x>> \o hs
               [] OTHER -> hs
  IN all
RECURSIVE JoinLines(_)
JoinLines(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o CRLF \o JoinLines(Tail(ls))
Bytes1 == JoinLines(Block)

(* Reading inverts writing. *)
Law ==
  Done => LET h == HeaderOf(Bytes1)
          IN IF Flaw # "none" \/ Len(Block) > MaxHeaders THEN ~h.ok
             ELSE /\ h.ok /\ h.name = Name /\ h.ctype = Type
                  /\ h.filename = File
Report == ~Done \/ PrintT("WALK " \o ToJson([h |-> Bytes1, ok |-> Flaw = "none" /\ Len(Block) <= MaxHeaders]))
=============================================================================
