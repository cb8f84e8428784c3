------------------------------- MODULE MC_P02 -------------------------------
(* Which response answers which request: every short sequence of payloads     *)
(* below an action.                                                           *)
\* CONFIG {}
EXTENDS BlueBase

RqA == Request("A", "", <<C(<<"ask a">>)>>)
RqB == Request("", "text/plain", <<BodyI(<<C(<<"ask b">>)>>)>>)
RsA == Response("200", "", <<C(<<"yes">>)>>)
RsB == Response("404", "", <<BodyI(<<F(<<"no">>)>>), HeadersI(<<C(<<"X: 1">>)>>)>>)
Items == {RqA, RqB, RsA, RsB}
Under == <<UriH(<<Lit("/a")>>), NamedActH("L", "GET")>>
Begins == {<<WholeH("POST", <<Lit("/a")>>)>>, Under}
Docs == {b \o s : b \in Begins, s \in SeqsUpTo(Items, IF Deep THEN 6 ELSE 4)}
        \cup {Under \o <<x>> \o s \o <<ActH("PUT"), y>> : x \in Items, y \in Items, s \in SeqsUpTo(Items, 2)}
        \cup {<<UriH(<<Lit("/a")>>), ActH("PUT"), HeadersI(<<C(<<"Y: 2">>)>>)>> \o s : s \in SeqsUpTo(Items, 3)}

IsItem(b, k) == b.k = "i" /\ b.s.k = k
\* the requests an answer at i may answer: those right before the run of answers it is in
RECURSIVE RunStart(_, _, _)
RunStart(doc, i, k) == IF i > 1 /\ IsItem(doc[i - 1], k) THEN RunStart(doc, i - 1, k) ELSE i
RunEnd(doc, i, k) == CHOOSE e \in i..Len(doc) : (\A j \in i..e : IsItem(doc[j], k)) /\ (e = Len(doc) \/ ~IsItem(doc[e + 1], k))
Nobody == 0
\* every pair, in the order of the requests, then of the responses
PairsFrom(doc, i) ==
  CASE IsItem(doc[i], "request") /\ RunStart(doc, i, "request") = i ->
         (LET e == RunEnd(doc, i, "request")
              f == IF e < Len(doc) /\ IsItem(doc[e + 1], "response") THEN RunEnd(doc, e + 1, "response") ELSE e
          IN  Concat([q \in 1..(e - i + 1) |-> IF f = e THEN <<<<i + q - 1, Nobody>>>> ELSE [s \in 1..(f - e) |-> <<i + q - 1, e + s>>]]))
    [] IsItem(doc[i], "response") /\ RunStart(doc, i, "response") = i /\ (i = 1 \/ ~IsItem(doc[i - 1], "request")) ->
         [s \in 1..(RunEnd(doc, i, "response") - i + 1) |-> <<Nobody, i + s - 1>>]
    [] OTHER -> <<>>
Pairs(doc) == Concat([i \in 1..Len(doc) |-> PairsFrom(doc, i)])
\* a payload as the transaction tells it
Text2(e) == LET y == SelectSeq(e.c, LAMBDA x : x.n = "asset") IN IF y = <<>> THEN "" ELSE y[1].v
TextIn2(doc, i) == IF i = Nobody THEN "" ELSE LET b == doc[i].b[1] IN (IF b.k = "c" THEN b ELSE b.b[1]).ls[1] \o "\n"
Paired(doc, r) ==
  LET ts == NamedEls(r, "httpTransaction")
      ps == Pairs(doc)
  IN  /\ Len(ts) = Len(ps)
      /\ \A i \in 1..Len(ps) : /\ Len(ts[i].c) = 2
                               /\ Text2(ts[i].c[1]) = TextIn2(doc, ps[i][1])
                               /\ Text2(ts[i].c[2]) = TextIn2(doc, ps[i][2])
                               /\ ps[i][2] # Nobody => AttOf(ts[i].c[2], "statusCode") = doc[ps[i][2]].s.n
                               /\ ps[i][1] # Nobody => MetOf(ts[i].c[1], "title") = doc[ps[i][1]].s.n
Law(doc, r) == Sound(doc, r) /\ r.rc = 0 /\ Paired(doc, r)

Init == part \in Parts
Next == \E doc \in Share(Docs) : Judge(doc, NoOpts, Law)
Spec == Init /\ [][Next]_vars
=============================================================================
