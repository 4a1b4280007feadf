---------------------------- MODULE TypeNotation ----------------------------
(***************************************************************************)
(* How a client may write down that its body is multipart, and with which  *)
(* boundary: every notation of the Content-Type header, and near misses.   *)
(* The law: recognising (Detect) inverts writing. Behaviours choose one    *)
(* element after the other; complete ones are put before the real code.    *)
(* The header types of hyper 0.9 and 0.10 (mime 0.2) know fewer notations  *)
(* than tiny_http has: an element has a number of values for each.          *)
(* Anchors: src/server/{hyper,iron,nickel,tiny_http}.rs.                   *)
(***************************************************************************)
EXTENDS Detect, Json

CONSTANTS Wide, Only

Integs == <<"hyper", "iron", "nickel", "tiny">>
Flaws == <<"none", "type", "parameter", "no boundary", "no value">>
Nears == << \* multipart/mixed  multipart/form-datax  multipart/form-dat  multipart/form  xmultipart/form-data  application/form-data  multipart/x-form-data  multipart/form_data  text/plain  multipart/form-data+x  multipart/formdata  form-data/multipart
     <<109,117,108,116,105,112,97,114,116,47,109,105,120,101,100>>,
     <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97,120>>,
     <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116>>,
     <<109,117,108,116,105,112,97,114,116,47,102,111,114,109>>,
     <<120,109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97>>,
     <<97,112,112,108,105,99,97,116,105,111,110,47,102,111,114,109,45,100,97,116,97>>,
     <<109,117,108,116,105,112,97,114,116,47,120,45,102,111,114,109,45,100,97,116,97>>,
     <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,95,100,97,116,97>>,
     <<116,101,120,116,47,112,108,97,105,110>>,
     <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,45,100,97,116,97,43,120>>,
     <<109,117,108,116,105,112,97,114,116,47,102,111,114,109,100,97,116,97>>,
     <<102,111,114,109,45,100,97,116,97,47,109,117,108,116,105,112,97,114,116>> >>
Bnds == << \* B  utf-8  AaB03x  --x.y_z+1  UTF-8  xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
     <<66>>,
     <<117,116,102,45,56>>,
     <<65,97,66,48,51,120>>,
     <<45,45,120,46,121,95,122,43,49>>,
     <<85,84,70,45,56>>,
     <<120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120,120>> >>
Befores == << \* charset=utf-8  x=1  xboundary=evil  boundaries=evil  bound=evil  charset=ASCII  x="; boundary=evil"  charset="utf-8"  x="a b; c"  x="boundary=evil"
     <<99,104,97,114,115,101,116,61,117,116,102,45,56>>,
     <<120,61,49>>,
     <<120,98,111,117,110,100,97,114,121,61,101,118,105,108>>,
     <<98,111,117,110,100,97,114,105,101,115,61,101,118,105,108>>,
     <<98,111,117,110,100,61,101,118,105,108>>,
     <<99,104,97,114,115,101,116,61,65,83,67,73,73>>,
     <<120,61,34,59,32,98,111,117,110,100,97,114,121,61,101,118,105,108,34>>,
     <<99,104,97,114,115,101,116,61,34,117,116,102,45,56,34>>,
     <<120,61,34,97,32,98,59,32,99,34>>,
     <<120,61,34,98,111,117,110,100,97,114,121,61,101,118,105,108,34>> >>
Afters == << \* charset=utf-8  x=1  x="; boundary=evil"  xboundary=evil  charset="utf-8"
     <<99,104,97,114,115,101,116,61,117,116,102,45,56>>,
     <<120,61,49>>,
     <<120,61,34,59,32,98,111,117,110,100,97,114,121,61,101,118,105,108,34>>,
     <<120,98,111,117,110,100,97,114,121,61,101,118,105,108>>,
     <<99,104,97,114,115,101,116,61,34,117,116,102,45,56,34>> >>
NearNames == << \* boundarys  xboundary  bound  b-oundary
     <<98,111,117,110,100,97,114,121,115>>,
     <<120,98,111,117,110,100,97,114,121>>,
     <<98,111,117,110,100>>,
     <<98,45,111,117,110,100,97,114,121>> >>

(* The elements in the order of their choice: name, number of values for    *)
(* tiny_http, and for the others.                                          *)
Elements == << [k |-> "integ", t |-> 4, m |-> 4], [k |-> "flaw", t |-> Len(Flaws), m |-> Len(Flaws)],
               [k |-> "near", t |-> Len(Nears), m |-> Len(Nears)], [k |-> "nearname", t |-> Len(NearNames), m |-> Len(NearNames)],
               [k |-> "bnd", t |-> Len(Bnds), m |-> Len(Bnds)], [k |-> "quoted", t |-> 2, m |-> 2],
               [k |-> "tcase", t |-> 3, m |-> 3], [k |-> "pcase", t |-> 3, m |-> 3],
               [k |-> "before", t |-> 1 + Len(Befores), m |-> 7], [k |-> "before2", t |-> 1 + Len(Befores), m |-> 7],
               [k |-> "after", t |-> 1 + Len(Afters), m |-> 1 + Len(Afters)],
               [k |-> "space", t |-> 3, m |-> 1], [k |-> "blank", t |-> 4, m |-> 3], [k |-> "semi", t |-> 2, m |-> 2] >>
Ix(k) == CHOOSE i \in DOMAIN Elements : Elements[i].k = k

VARIABLES c   \* the choices made so far
Init == c = <<>>
Done == Len(c) = Len(Elements)
Count(el) == IF Len(c) > 0 /\ Integs[c[1]] = "tiny" THEN el.t ELSE el.m
Next == /\ ~Done
        /\ LET el == Elements[Len(c) + 1]
           IN \E v \in 1..(IF el.k \notin Only THEN 1 ELSE IF Wide THEN Count(el) ELSE MinI(Count(el), 3)) : c' = Append(c, v)
Spec == Init /\ [][Next]_c

At1(k) == c[Ix(k)]
Flaw == Flaws[At1("flaw")]
UpperC(x) == IF x >= 97 /\ x <= 122 THEN x - 32 ELSE x
Case(s, how) == CASE how = 1 -> s
                  [] how = 2 -> <<>> \o [i \in 1..Len(s) |-> UpperC(s[i])]
                  [] OTHER -> <<>> \o [i \in 1..Len(s) |-> IF i % 2 = 0 THEN UpperC(s[i]) ELSE s[i]]
Blank(how) == <<<<>>, <<SP>>, <<SP, SP>>, <<TAB>>>>[how]
Bnd == Bnds[At1("bnd")]
BParam ==
  LET name == Case(IF Flaw = "parameter" THEN NearNames[At1("nearname")] ELSE S_BOUNDARY, At1("pcase"))
  IN CASE Flaw = "no boundary" -> <<>>
       [] Flaw = "no value" -> <<name>>
       [] OTHER -> <<name \o <<EQS>> \o (IF At1("quoted") = 2 THEN <<DQ>> \o Bnd \o <<DQ>> ELSE Bnd)>>
Before(k) == IF At1(k) = 1 THEN <<>> ELSE <<Befores[At1(k) - 1]>>
After == IF At1("after") = 1 THEN <<>> ELSE <<Afters[At1("after") - 1]>>
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>>
              ELSE Blank(IF At1("space") = 3 THEN 4 ELSE At1("space")) \o <<SEMI>> \o Blank(At1("blank")) \o ps[1] \o Joined(Tail(ps))
Type == Case(IF Flaw = "type" THEN Nears[At1("near")] ELSE S_MFD, At1("tcase"))
Value == Type \o Joined(Before("before") \o Before("before2") \o BParam \o After) \o (IF At1("semi") = 2 THEN <<SEMI>> ELSE <<>>)

(* Recognising inverts writing. *)
Law == Done => DeclaredIn(Value) = IF Flaw = "none" THEN <<Bnd>> ELSE <<>>
Report == ~Done \/ PrintT("WALK " \o ToJson([integ |-> Integs[At1("integ")], v |-> Value, bnd |-> Bnd, ok |-> Flaw = "none"]))
=============================================================================
