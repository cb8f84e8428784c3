------------------------------- MODULE MC_E02 -------------------------------
(* Cloning every small element with every combination of flags.              *)
\* CONFIG {"quick": {"NSlots": 2, "MaxNodes": 40}, "thorough": {"NSlots": 2, "MaxNodes": 40}, "properties": ["Exact"]}
EXTENDS MCBase

Content(t) == CASE t = "number" -> MkV(t, "7") [] t = "boolean" -> MkV(t, "true") [] t \in {"string", "ref"} -> MkV(t, "x")
                [] t = "null" -> MkV(t, "") [] t \in Boxed -> MkC(t, <<WithM(N1, "id", S("in"))>>)
                [] t = "member" -> Mem("a", N1) [] t = "object" -> Obj(<<Mem("a", WithA(N1, "k", S("y")))>>)
                [] t = "select" -> MkC(t, <<MkC("option", <<N1>>)>>) [] OTHER -> MkC(t, <<Named(N1, "A"), S("x")>>)
Metas == { <<>>, <<[k |-> "id", el |-> S("i")]>>, <<[k |-> "a", el |-> N1], [k |-> "id", el |-> S("i")], [k |-> "idx", el |-> N1]>> }
Attrs == { <<>>, <<[k |-> "id", el |-> S("i")], [k |-> "k", el |-> WithM(N1, "id", S("deep"))]>> }

Elements0 == UNION { { [b EXCEPT !.m = m, !.a = a, !.n = n] : b \in {Empty(t), Content(t)} \cup (IF t = "null" THEN {} ELSE {MkSet(t)}),
                       m \in Metas, a \in Attrs, n \in {DefName(t), "A"} } : t \in Kinds }

Init == slots \in {[InitSlots EXCEPT ![1] = e] : e \in Elements0} /\ reg = <<>>
Next == /\ IsNil(slots[2])
        /\ \E f \in 0..31, o \in (IF Deep THEN {"clone", "clonet"} ELSE {"clone"}) : Do([op |-> o, d |-> 2, s |-> 1, q |-> <<>>, f |-> f])
Spec == Init /\ [][Next]_vars

Exact == [][slots'[1] = slots[1] /\ slots'[2].t = slots[1].t
            /\ slots'[2].m \in {<<>>, slots[1].m, InfoErase(slots[1].m, "id")}
            /\ slots'[2].a \in {<<>>, slots[1].a} /\ (slots'[2].c = slots[1].c \/ ~slots'[2].s)]_vars
=============================================================================
