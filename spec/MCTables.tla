----------------------------- MODULE MCTables -----------------------------
(* Exhaustive exploration of Tables within small constants.  Every transition  *)
(* is printed and replayed by the drivers on the real tables.                  *)
EXTENDS Tables, Json

CONSTANTS ShapeIds,   \* set of shapes, as 100 * nrows + ncolumns (0 rows: 1-d)
          Bound,      \* slice bounds lie in -Bound..Bound
          StepIds,    \* slice strides, -s being written 10 + s
          MaxInts,    \* maximum length of the integer selections
          OrdMax,     \* orderings take the values -1..OrdMax-1 (0: no ordering)
          MaxDepth,   \* maximum number of successive subsets
          NSplit      \* number of parts

VARIABLES tab, depth
vars == <<tab, depth>>
Shapes == {IF i < 100 THEN <<i>> ELSE <<i \div 100, i % 100>> : i \in ShapeIds}
Steps == {IF i > 10 THEN 10 - i ELSE i : i \in StepIds}
OrdVals == IF OrdMax = 0 THEN {} ELSE -1..(OrdMax - 1)
None == [index |-> <<>>, shape |-> <<>>]

X(n) == [val |-> [i \in 1..n |-> <<99 + i>>]]
Par == [start |-> 0, period |-> 1, miss |-> [val |-> -1], cst |-> 0]

Bounds == (-Bound..Bound) \cup {NONE}
Slices == {[k |-> "slice", a |-> a, b |-> b, s |-> s] :
           a \in Bounds, b \in Bounds, s \in Steps}
Ints(n) == {[k |-> "int", v |-> v] :
            v \in UNION {[1..m -> (-n - 1)..n] : m \in 0..MaxInts}}
Masks(n) == {[k |-> "mask", v |-> v] : v \in [1..n -> {0, 1}]}
Tuples(shape) ==
    IF Len(shape) = 1 THEN {[k |-> "tuple", v |-> <<s>>] : s \in Slices}
    ELSE LET some == {s \in Slices : s.a \in {NONE, 0, 1, -1} /\ s.b \in {NONE, 1, -1}}
             ones(d) == {[k |-> "one", v |-> i] : i \in (-shape[d])..(shape[d] - 1)}
         IN {[k |-> "tuple", v |-> <<s>>] : s \in some}
            \cup {[k |-> "tuple", v |-> <<s, u>>] : s \in some, u \in some}
            \cup {[k |-> "tuple", v |-> <<s, u>>] : s \in some, u \in ones(2)}
            \cup {[k |-> "tuple", v |-> <<s, u>>] : s \in ones(1), u \in some}
            \cup {[k |-> "tuple", v |-> <<[k |-> "all"], s>>] : s \in some}
Sels(shape) == LET n == ProdSeq(shape) IN
    {[k |-> "all"]} \cup Slices \cup Ints(n) \cup Masks(n) \cup Tuples(shape)
Ords(shape) ==
    {<<>>} \cup (IF OrdVals = {} THEN {} ELSE [1..ProdSeq(shape) -> OrdVals])

Out(r) == PrintT("@@" \o ToJson(r))

Init == tab = None /\ depth = 0

CreateOK == depth = 0 /\ \E shape \in Shapes : \E sel \in Sels(shape), ord \in Ords(shape) :
    /\ ValidSel(sel, shape)
    /\ tab' = Create(shape, sel, ord, X(ProdSeq(shape)), "plain", Par)
    /\ depth' = 1
    /\ Out([op |-> "create", shape |-> shape, sel |-> sel, ord |-> ord,
            post |-> tab'.index, valid |-> TRUE,
            unp |-> IF IsInjSeq(tab'.index) THEN Unpack(tab', tab'.attrs.val, <<-1>>)
                    ELSE <<>>])
CreateInvalid == depth = 0 /\ \E shape \in Shapes : \E sel \in Sels(shape) :
    /\ ~ValidSel(sel, shape)
    /\ UNCHANGED vars
    /\ Out([op |-> "create", shape |-> shape, sel |-> sel, ord |-> <<>>,
            post |-> <<>>, valid |-> FALSE])
SubOK == depth \in 1..MaxDepth /\ \E sel \in Sels(<<Len(tab.index)>>) :
    /\ ValidSel(sel, <<Len(tab.index)>>)
    /\ tab' = Sub(tab, sel)
    /\ depth' = depth + 1
    /\ Out([op |-> "sub", shape |-> tab.shape, pre |-> tab.index, sel |-> sel,
            post |-> tab'.index, valid |-> TRUE])
SubInvalid == depth \in 1..MaxDepth /\ \E sel \in Sels(<<Len(tab.index)>>) :
    /\ ~ValidSel(sel, <<Len(tab.index)>>)
    /\ UNCHANGED vars
    /\ Out([op |-> "sub", shape |-> tab.shape, pre |-> tab.index, sel |-> sel,
            post |-> tab.index, valid |-> FALSE])
Split == depth \in 1..MaxDepth /\ \E m \in 1..NSplit : \E r \in 1..m :
    /\ tab' = Part(tab, m, r - 1)
    /\ depth' = depth + 1
    /\ Out([op |-> "part", shape |-> tab.shape, pre |-> tab.index, m |-> m, r |-> r - 1,
            post |-> tab'.index, valid |-> TRUE])

Next == CreateOK \/ CreateInvalid \/ SubOK \/ SubInvalid \/ Split
Spec == Init /\ [][Next]_vars

Live == depth > 0
InvWellFormed == Live => WellFormed(tab)
InvAligned == Live => Aligned(tab, X(Size(tab)))
InvRoundTrip == Live => RoundTrip(tab, <<-1>>)
InvSplit == Live => \A m \in 1..NSplit :
    LET ps == [r \in 1..m |-> Part(tab, m, r - 1)] IN
    /\ Gathered(ps) = tab
    /\ Balanced([r \in 1..m |-> Len(ps[r].index)], Len(tab.index), m)
(* a subset never contains a component that its table does not have *)
PropSubset == [][(depth > 0 /\ depth' > depth) => Range(tab'.index) \subseteq Range(tab.index)]_vars
=============================================================================
