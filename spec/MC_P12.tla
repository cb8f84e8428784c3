------------------------------- MODULE MC_P12 -------------------------------
(* Calls: every short history of calls on two texts, two sets of options and  *)
(* two results.                                                               *)
\* CONFIG {}
EXTENDS CallsBase

VARIABLES part, hist, st    \* st: what the client knows: which slots hold something
vars == <<part, hist, st>>

T1 == "# A\n\n## GET /a\n\n+ Response 200 (application/json)\n\n    + Attributes\n        + b: 1 (number, required)\n"
T2 == "## /a\n\n+ Body\n\nx\n"
T3 == "# A\n\n+ Response 200\n\n## B [/b]\n\n### GET\n\n+ Response 200\n\n    [Nope][]\n"
Texts == {T1, T2, T3}
Idle == [po |-> FALSE, so |-> FALSE, h |-> {}]
\* the calls a client may make, with what it then knows
Calls1(s) ==
  {<<[op |-> "read", text |-> t, null |-> n, opts |-> o, out |-> h, sound |-> TRUE], [s EXCEPT !.h = IF h = 0 THEN @ ELSE IF n THEN @ \ {h} ELSE @ \cup {h}]>> :
      t \in Texts, n \in BOOLEAN, o \in {0} \cup (IF s.po THEN {1} ELSE {}), h \in 0..2}
  \cup {<<[op |-> "check", text |-> t, null |-> n, opts |-> o, out |-> h], [s EXCEPT !.h = IF h = 0 THEN @ ELSE @ \cup {h}]>> :
      t \in Texts, n \in BOOLEAN, o \in {0} \cup (IF s.po THEN {1} ELSE {}), h \in {0, 2}}
  \cup {<<[op |-> "readto", text |-> t, null |-> n, opts |-> o, sopts |-> so, want |-> w], s>> :
      t \in Texts, n \in BOOLEAN, o \in {0} \cup (IF s.po THEN {1} ELSE {}), so \in {0} \cup (IF s.so THEN {1} ELSE {}), w \in BOOLEAN}
  \cup {<<Write(h, so), s>> : h \in {0} \cup s.h, so \in {0} \cup (IF s.so THEN {1} ELSE {})}
  \cup {<<Free(h), [s EXCEPT !.h = @ \ {h}]>> : h \in {0} \cup s.h}
  \cup {<<POpt(1, a), [s EXCEPT !.po = a # "free"]>> : a \in IF s.po THEN {"free", "name", "bodies", "schemas"} ELSE {"init"}}
  \cup {<<SOpt(1, a), [s EXCEPT !.so = a # "free"]>> : a \in IF s.so THEN {"free", "maps", "json", "yaml"} ELSE {"init"}}
\* calls without a text are told apart only by what they call
Plain2(o) == /\ "null" \in DOMAIN o /\ o.null => o.text = T1 /\ (Deep \/ o.opts = 0)
             /\ "want" \in DOMAIN o /\ ~o.want => o.sopts = 0
Calls2(s) == {x \in Calls1(s) : Plain2(x[1])}
\* the texts read are read before and again at the end; then the results are looked at
Of(x) == {x[i].text : i \in {k \in 1..Len(x) : "text" \in DOMAIN x[k] /\ ~x[k].null}}
Reading(x) == LET t == SetToSeq(Of(x)) IN [i \in 1..Len(t) |-> Read(t[i], 0, 3)]
Framed(x) == Reading(x) \o x \o Reading(x) \o <<Look(1), Look(2), Write(1, 0)>>
Longest == IF Deep THEN 3 ELSE 2
Shared(A) == LET s == SetToSeq(A) IN {s[i] : i \in {j \in 1..Len(s) : (j % 8) + 1 = part}}
\* behind options set in one of several ways
Befores == {<<>>, <<POpt(1, "init"), POpt(1, "name"), SOpt(1, "init"), SOpt(1, "json")>>, <<POpt(1, "init"), POpt(1, "bodies"), SOpt(1, "init"), SOpt(1, "maps")>>,
            <<POpt(1, "init"), POpt(1, "schemas"), POpt(1, "bodies"), SOpt(1, "init"), SOpt(1, "maps"), SOpt(1, "json")>>}
\* how many calls stand behind the setting of options
Done(x) == Len(x) - (CHOOSE n \in {Len(b) : b \in Befores} : n < Len(x) /\ SubSeq(x, 1, n) \in Befores /\ \A b \in Befores : Len(b) < Len(x) /\ SubSeq(x, 1, Len(b)) = b => Len(b) <= n)
\* quickly: behind options, only two calls that share a text or a result
Sampled(x) == Done(x) = Len(x) \/ x[Len(x)].op \in {"popts", "sopts"} \/ ("text" \in DOMAIN x[Len(x)] /\ ~x[Len(x)].null /\ x[Len(x)].text = T1 /\ x[Len(x)].opts = 1)

Init == part \in Parts /\ hist = <<>> /\ st = Idle
Next == \/ /\ hist = <<>>
           /\ \E b \in Befores : \E c \in Shared(Calls2(IF b = <<>> THEN Idle ELSE [Idle EXCEPT !.po = TRUE, !.so = TRUE])) :
                /\ hist' = b \o <<c[1]>> /\ st' = c[2] /\ part' = part
                /\ Emit(Framed(hist'))
        \/ /\ hist # <<>> /\ Done(hist) < Longest
           /\ Deep \/ Sampled(hist)
           /\ \E c \in Calls2(st) : /\ hist' = Append(hist, c[1]) /\ st' = c[2] /\ part' = part
                                    /\ Emit(Framed(hist'))
Spec == Init /\ [][Next]_vars
=============================================================================
