------------------------------- MODULE MC_S04 -------------------------------
(* Every short history of building, copying, assigning and editing markdown trees. *)
\* CONFIG {"properties": ["OnlyTheNamedTree"]}
EXTENDS ToolsBase

Node(t, x, d, m, p, k) == [type |-> t, text |-> x, data |-> d, map |-> m, parent |-> p, kids |-> k]
Leaf1 == Node(7, "one", 1, <<<<0, 3>>>>, 1, <<>>)
Leaf2 == Node(6, "two", 2, <<<<4, 3>>, <<9, 1>>>>, 2, <<>>)
Leaf3 == Node(1, "", -1, <<>>, 0, <<Leaf1>>)
Trees == {Leaf1, Node(0, "root", 0, <<<<0, 9>>>>, 0, <<Leaf1, Leaf2>>), Node(4, "head", 1, <<>>, 2, <<Leaf3, Leaf2>>)}
RECURSIVE Size(_), Paths(_)
Size(n) == 1 + FoldLeft(LAMBDA a, k : a + Size(k), 0, n.kids)
Paths(n) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(n.kids[i])} : i \in 1..Len(n.kids)}
Most == IF Deep THEN 8 ELSE 6
Made == {i \in 1..3 : st.nodes[i] # <<>>}
Init == /\ part = 1
        /\ \E x \in {<<>>} \cup {<<t>> : t \in Trees}, y \in {<<>>} \cup {<<t>> : t \in Trees} : st = [InitTools EXCEPT !.nodes = <<x, y, <<>>>>]
Fits(o) == LET r == Apply(o, st) IN TRUE = (\A i \in 1..3 : r.st.nodes[i] = <<>> \/ Size(r.st.nodes[i][1]) <= Most)
Try(o) == Fits(o) /\ Do(o)
Next ==
  /\ TLCGet("level") <= (IF Deep THEN 3 ELSE 2)
  /\ \/ \E d \in {1, 3}, f \in BOOLEAN : Do([op |-> "mnew", d |-> d, full |-> f, type |-> 8, text |-> "new", data |-> 5, parent |-> 2])
     \/ \E s \in Made, d \in {1, 3} : s # d /\ \E q \in Paths(st.nodes[s][1]) : Do([op |-> "mcopy", d |-> d, s |-> s, q |-> q])
     \/ \E d \in Made : \E p \in Paths(st.nodes[d][1]) :
          \/ \E s \in Made : \E q \in Paths(st.nodes[s][1]) : Try([op |-> "massign", d |-> d, p |-> p, s |-> s, q |-> q])
          \/ \E s \in Made \ {d} : \E q \in Paths(st.nodes[s][1]) : Try([op |-> "mpushcopy", d |-> d, p |-> p, s |-> s, q |-> q])
          \/ \E t \in {Leaf2, Leaf3} : Try([op |-> "mpush", d |-> d, p |-> p, el |-> t])
          \/ \E i \in 1..Len(NodeAt(st.nodes[d][1], p).kids) : Do([op |-> "mera", d |-> d, p |-> p, i |-> i])
          \/ \E x \in 0..3 : Do([op |-> "mparent", d |-> d, p |-> p, parent |-> x])
          \/ Do([op |-> "mask", d |-> d, p |-> p])
          \/ Do([op |-> "mtype", d |-> d, p |-> p, x |-> 9])
          \/ Do([op |-> "mtext", d |-> d, p |-> p, x |-> "changed"])
          \/ Do([op |-> "mdata", d |-> d, p |-> p, x |-> 9])
          \/ \E rs \in {<<<<3, 1>>>>, <<<<5, 2>>, <<7, 1>>>>} : Do([op |-> "mmap", d |-> d, p |-> p, rs |-> rs])
\* at most one tree changes
OnlyTheNamedTree == [][Cardinality({i \in 1..3 : st'.nodes[i] # st.nodes[i]}) <= 1]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
