------------------------------- MODULE MC_P04 -------------------------------
(* Models and the references to them: every short sequence of resources that  *)
(* define models and refer to models before or behind them.                   *)
\* CONFIG {}
EXTENDS BlueBase

Refers(id) == ILs([k |-> "response", n |-> "200", t |-> "", j |-> ""], <<"[" \o id \o "][]">>)
RefersBelow(id) == Request("", "", <<P("[" \o id \o "][]")>>)
RefersTyped(id) == ILs([k |-> "response", n |-> "201", t |-> "text/plain", j |-> ""], <<"[" \o id \o "][]">>)
U == <<Lit("/u")>>
\* resources
Rs(n) == {<<UriH(U), Model("A", "", <<C(<<"body a">>)>>), ActH("GET"), Refers("A")>>,
          <<UriH(U), Model("A", "", <<BodyI(<<C(<<"other a">>)>>), SchemaI(<<C(<<"schema">>)>>)>>)>>,
          <<NamedH("B", U), Model("", "application/json", <<HeadersI(<<C(<<"H: 1">>)>>), BodyI(<<C(<<"body b">>)>>)>>), ActH("PUT"), RefersBelow("B"), Response("204", "", <<>>)>>,
          <<UriH(U), ActH("GET"), Refers("A")>>,
          <<UriH(U), ActH("PUT"), RefersBelow("A"), RefersTyped("B")>>,
          <<UriH(U), ActH("GET"), Response("200", "", <<BodyI(<<P("[A][]")>>)>>)>>,
          <<NamedH("N", U), ActH("GET"), Refers("N")>>,
          <<UriH(U), Model("", "", <<C(<<"nameless">>)>>)>>}
Docs == {Concat(s) : s \in SeqsUpTo(Rs(1), IF Deep THEN 4 ELSE 3)}

\* names defined, and references made
Defined(doc) == [i \in 1..Len(doc) |-> IF doc[i].k = "i" /\ doc[i].s.k = "model" THEN (IF doc[i].s.n # "" THEN doc[i].s.n ELSE IF doc[i - 1].s.k = "named" THEN doc[i - 1].s.x ELSE "?") ELSE ""]
IdOf(t) == IF Len(t) = 5 /\ SubSeq(t, 1, 1) = "[" THEN SubSeq(t, 2, 2) ELSE ""
Referred(b) == IF b.k # "i" THEN "" ELSE IF b.ls # <<>> THEN IdOf(b.ls[1]) ELSE IF b.b # <<>> /\ b.b[1].k = "p" THEN IdOf(b.b[1].ls[1]) ELSE ""
Names3(doc) == {Defined(doc)[i] : i \in 1..Len(doc)} \ {""}
Wanted3(doc) == {Referred(doc[i]) : i \in 1..Len(doc)} \ {""}
Twice(doc) == \E i, j \in 1..Len(doc) : i < j /\ Defined(doc)[i] # "" /\ Defined(doc)[i] = Defined(doc)[j]
ModelAt(doc, id) == CHOOSE i \in 1..Len(doc) : Defined(doc)[i] = id
BodyText(b) == IF b.b[1].k = "c" THEN b.b[1].ls[1] ELSE (SelectSeq(b.b, LAMBDA x : x.s.k = "body"))[1].b[1].ls[1]
Texts(e) == SelectSeq(e.c, LAMBDA x : x.n = "asset" /\ x.m[1].el.c[1].v = "messageBody")
\* the body of a payload that refers is the body of the model, wherever that is defined
Answers(doc, r) ==
  LET rs == SelectSeq([i \in 1..Len(doc) |-> i], LAMBDA i : doc[i].k = "i" /\ doc[i].s.k = "response")
      es == NamedEls(r, "httpResponse")
  IN  Len(es) = Len(rs) /\ \A i \in 1..Len(rs) : Referred(doc[rs[i]]) # "" =>
        Texts(es[i])[1].v = BodyText(doc[ModelAt(doc, Referred(doc[rs[i]]))]) \o "\n"
Law(doc, r) == /\ Sound(doc, r)
               /\ (r.rc = 0) = (~Twice(doc) /\ "?" \notin Names3(doc) /\ Wanted3(doc) \subseteq Names3(doc))
               /\ r.rc \in {0, eModel}
               /\ r.rc = 0 => Answers(doc, r)

Init == part \in Parts
Next == \E doc \in Share(Docs) : Judge(doc, NoOpts, Law)
Spec == Init /\ [][Next]_vars
=============================================================================
