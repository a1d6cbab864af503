------------------------------- MODULE Tables -------------------------------
(* Packed tables (pysimulators.packedtables): a table of n = product(shape)     *)
(* components of which only a sequence of components, the index, is kept, with  *)
(* attributes whose k-th cell belongs to the k-th component of the index.       *)
(*                                                                              *)
(* A table is a record [shape, index, attrs, kind, par] where attrs is a        *)
(* function from attribute names to sequences of cells (a cell is a sequence of *)
(* integers), kind is the class of the table and par its parameters.            *)
EXTENDS Common

Size(t) == ProdSeq(t.shape)
Ncol(t) == t.shape[2]

(* ------------------------------------------------------------------------- *)
(* Selections: records [k, ...]                                                *)
(*   all                 None, Ellipsis, ()                                    *)
(*   int  v              sequence of integers (negative: from the end)         *)
(*   mask v              one flag per component                                *)
(*   slice a b s         flat slice                                            *)
(*   tuple v             one item per leading dimension: [k: slice|one|all]    *)
(* ------------------------------------------------------------------------- *)
ValidInts(v, n) == \A i \in DOMAIN v : v[i] >= -n /\ v[i] < n
WrapInts(v, n) == [i \in DOMAIN v |-> IF v[i] < 0 THEN v[i] + n ELSE v[i]]
MaskPos(v) == SelectIdx(Len(v), LAMBDA i : v[i + 1] # 0)

(* expand an Ellipsis inside a tuple to full slices *)
FullSlice == [k |-> "slice", a |-> NONE, b |-> NONE, s |-> 1]
ExpandTuple(v, nd) ==
    IF \E i \in DOMAIN v : v[i].k = "all"
    THEN LET i == CHOOSE i \in DOMAIN v : v[i].k = "all"
         IN SubSeq(v, 1, i - 1) \o Const(nd - Len(v) + 1, FullSlice)
            \o SubSeq(v, i + 1, Len(v))
    ELSE v \o Const(nd - Len(v), FullSlice)
ItemSet(it, n) ==
    IF it.k = "slice" THEN Range(SlicePos(it.a, it.b, it.s, n))
    ELSE {IF it.v < 0 THEN it.v + n ELSE it.v}

(* multi-index of the flat component i *)
Coord(i, shape, d) ==     \* coordinate along dimension d of the flat index i
    LET stride == ProdSeq(SubSeq(shape, d + 1, Len(shape)))
    IN (i \div stride) % shape[d]

TuplePos(v, shape) ==
    LET w == ExpandTuple(v, Len(shape)) IN
    SelectIdx(ProdSeq(shape),
              LAMBDA i : \A d \in 1..Len(shape) :
                             Coord(i, shape, d) \in ItemSet(w[d], shape[d]))

ValidSel(sel, shape) ==
    LET n == ProdSeq(shape) IN
    CASE sel.k = "all" -> TRUE
      [] sel.k = "int" -> ValidInts(sel.v, n)
      [] sel.k = "mask" -> Len(sel.v) = n
      [] sel.k = "slice" -> sel.s # 0
      [] sel.k = "tuple" ->
            /\ Len(sel.v) <= Len(shape)
            /\ \A i \in DOMAIN sel.v : sel.v[i].k = "slice" => sel.v[i].s # 0

(* the selected components, in the order in which they are kept *)
SelPos(sel, shape) ==
    LET n == ProdSeq(shape) IN
    CASE sel.k = "all" -> Iota(n)
      [] sel.k = "int" -> WrapInts(sel.v, n)
      [] sel.k = "mask" -> MaskPos(sel.v)
      [] sel.k = "slice" -> SlicePos(sel.a, sel.b, sel.s, n)
      [] sel.k = "tuple" ->
            IF Len(shape) = 1 /\ Len(sel.v) = 1 /\ sel.v[1].k = "slice"
            THEN SlicePos(sel.v[1].a, sel.v[1].b, sel.v[1].s, n)
            ELSE TuplePos(sel.v, shape)

(* ordering: <<>> or one integer per component; negative removes.  The sort is
   stable: components of equal ordering stay in row major order *)
Precedes(ord, i, j) == ord[i + 1] < ord[j + 1] \/ (ord[i + 1] = ord[j + 1] /\ i < j)
OrderSet(S, ord) ==
    LET m == Cardinality(S)
        rank(i) == Cardinality({j \in S : Precedes(ord, j, i)})
    IN [k \in 1..m |-> CHOOSE i \in S : rank(i) = k - 1]

NewIndex(shape, sel, ord) ==
    IF ord = <<>> THEN SelPos(sel, shape)
    ELSE OrderSet({i \in Range(SelPos(sel, shape)) : ord[i + 1] >= 0}, ord)

(* ------------------------------------------------------------------------- *)
(* Pack and unpack                                                             *)
(* ------------------------------------------------------------------------- *)
Pack(t, x) == SeqTake(x, t.index)

Unpack(t, y, missing) ==
    LET yy == IF Len(y) = 1 THEN Const(Len(t.index), y[1]) ELSE y IN
    [i \in 1..Size(t) |->
        IF \E k \in DOMAIN t.index : t.index[k] = i - 1
        THEN yy[CHOOSE k \in DOMAIN t.index : t.index[k] = i - 1]
        ELSE missing]

Removed(t) == [i \in 1..Size(t) |-> IF (i - 1) \in Range(t.index) THEN 0 ELSE 1]

(* ------------------------------------------------------------------------- *)
(* Attributes derived from the index                                           *)
(* ------------------------------------------------------------------------- *)
Row(t) == [k \in DOMAIN t.index |-> <<(t.index[k] \div Ncol(t)) + t.par.start>>]
Col(t) == [k \in DOMAIN t.index |-> <<(t.index[k] % Ncol(t)) + t.par.start>>]
(* rows increase along -Y and columns along X; the grid is centred.  The grid
   spacing is 2 so that the coordinates are integers *)
Center(t) == [k \in DOMAIN t.index |->
    <<2 * (t.index[k] % Ncol(t)) - (Ncol(t) - 1),
      (t.shape[1] - 1) - 2 * (t.index[k] \div Ncol(t))>>]
Time(t) == [k \in DOMAIN t.index |-> <<t.index[k] * t.par.period>>]
Fun(t) == [k \in DOMAIN t.index |-> <<2 * t.attrs.val[k][1] + 1>>]
Index(t) == [k \in DOMAIN t.index |-> <<t.index[k]>>]

Names(t) == DOMAIN t.attrs \cup {"index"}
    \cup (IF t.kind = "grid" THEN {"row", "column", "center"} ELSE {})
    \cup (IF t.kind = "sampling" THEN {"time"} ELSE {})
    \cup (IF "val" \in DOMAIN t.attrs THEN {"fun"} ELSE {})

Attr(t, name) ==
    CASE name = "index" -> Index(t)
      [] name = "row" -> Row(t)
      [] name = "column" -> Col(t)
      [] name = "center" -> Center(t)
      [] name = "time" -> Time(t)
      [] name = "fun" -> Fun(t)
      [] OTHER -> t.attrs[name]

(* ------------------------------------------------------------------------- *)
(* The operations                                                              *)
(* ------------------------------------------------------------------------- *)
(* x: function from names to the sequences of the cells of all the components *)
Create(shape, sel, ord, x, kind, par) ==
    LET idx == NewIndex(shape, sel, ord) IN
    [shape |-> shape, index |-> idx, kind |-> kind, par |-> par,
     attrs |-> [a \in DOMAIN x |-> SeqTake(x[a], idx)]]

SubAt(t, ps) ==
    [t EXCEPT !.index = SeqTake(t.index, ps),
              !.attrs = [a \in DOMAIN t.attrs |-> SeqTake(t.attrs[a], ps)]]

Sub(t, sel) == SubAt(t, SelPos(sel, <<Len(t.index)>>))

Part(t, m, r) == SubAt(t, SplitPos(Len(t.index), m, r))

SetAttr(t, name, y) == [t EXCEPT !.attrs[name] = y]
SetAll(t, name, x) == [t EXCEPT !.attrs[name] = Pack(t, x)]

(* concatenation of the local tables of a distributed table *)
Gathered(ts) ==
    [ts[1] EXCEPT !.index = Flatten([r \in DOMAIN ts |-> ts[r].index]),
                  !.attrs = [a \in DOMAIN ts[1].attrs |->
                                Flatten([r \in DOMAIN ts |-> ts[r].attrs[a]])]]

(* ------------------------------------------------------------------------- *)
(* What must be true of any table reachable from a creation with values x     *)
(* ------------------------------------------------------------------------- *)
WellFormed(t) ==
    /\ \A k \in DOMAIN t.index : t.index[k] \in 0..(Size(t) - 1)
    /\ \A a \in DOMAIN t.attrs : Len(t.attrs[a]) = Len(t.index)
(* alignment: the k-th cell is the one of the k-th component *)
Aligned(t, x) == \A a \in DOMAIN x : t.attrs[a] = Pack(t, x[a])
RoundTrip(t, missing) ==
    IsInjSeq(t.index) =>
        \A a \in DOMAIN t.attrs :
            Len(t.attrs[a]) # 1 \/ Len(t.index) = 1 =>
            Pack(t, Unpack(t, t.attrs[a], missing)) = t.attrs[a]
=============================================================================
