------------------------------- MODULE MC_M01 -------------------------------
(* Media types around application/json and application/schema+json. *)
\* CONFIG {}
EXTENDS ToolsBase

Variants(s) == LET o == Octets(s)
               IN  {o, [i \in 1..Len(o) |-> o[i] - 32], SubSeq(o, 1, Len(o) - 1), SubSeq(o, 2, Len(o)), o \o <<120>>, o \o o}
                   \cup {[o EXCEPT ![i] = o[i] - 32] : i \in 1..Len(o)}
                   \cup {[o EXCEPT ![i] = (o[i] + 1)] : i \in 1..Len(o)}
                   \cup {[o EXCEPT ![1] = o[1] + 128]}
Types == Variants("application") \cup {<<>>, Octets("text")}
Near(s) == Variants(s) \cup {<<>>, Octets("xml")}
Type(t, s, x, p) == [type |-> t, subtype |-> s, suffix |-> x, params |-> p]
App == Octets("application")
Params == {<<>>, <<<<Octets("charset"), Octets("json")>>>>, <<<<Json_, Octets("schema")>>>>}
Init == st = InitTools /\ part \in Parts
Ask(m) == Do([op |-> "media", mt |-> m])
Next ==
  \/ \E t \in Types : Mine(Len(t)) /\ \E s \in {Json_, Schema_, Octets("x")}, x \in {<<>>, Json_, Schema_, Octets("JSON")} : Ask(Type(t, s, x, <<>>))
  \/ \E s \in Near("json") \cup Near("schema") : Mine(Len(s)) /\ \E x \in Near("json") \cup Near("schema") : Ask(Type(App, s, x, <<>>))
  \/ part = 1 /\ \E p \in Params, x \in {<<>>, Json_}, s \in {Json_, Schema_} : Ask(Type(App, s, x, p))
Spec == Init /\ [][Next]_vars
=============================================================================
