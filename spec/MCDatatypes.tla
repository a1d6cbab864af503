---------------------------- MODULE MCDatatypes ----------------------------
(* Every chain of DEPTH selections, reshapes and conversions of a map and of     *)
(* time-ordered data: the companions stay aligned; the transitions are printed   *)
(* and replayed on the code.                                                    *)
EXTENDS Datatypes, Json
CONSTANTS ROWS, COLS, DEPTH
VARIABLES r, depth
vars == <<r, depth>>
N == ROWS * COLS
Parity(x) == x % 2
Start(cls) ==
    [cls |-> cls, shape |-> <<ROWS, COLS>>, v |-> [i \in 1..N |-> i],
     cov |-> IF cls = "Map" THEN << [i \in 1..N |-> 10 * i] >> ELSE <<>>,
     err |-> IF cls = "Map" THEN << [i \in 1..N |-> 100 * i] >> ELSE <<>>,
     mask |-> IF cls = "Tod" THEN << [i \in 1..N |-> Parity(i)] >> ELSE <<>>,
     hdr |-> 7, unit |-> 12, org |-> IF cls = "Map" THEN "upper" ELSE "", du |-> FALSE]
Out(x) == PrintT("@@" \o ToJson(x))
Init == \E cls \in {"Map", "Tod", "FitsArray"} : r = Start(cls) /\ depth = 0

(* the selections along a dimension of n elements, with the Python text *)
Key(kind, p, s) == [kind |-> kind, p |-> p, s |-> s]
Keys(n) ==
    {Key("seq", Iota(n), ":"), Key("seq", [k \in 1..n |-> n - k], "::-1"),
     Key("seq", SlicePos(1, NONE, 1, n), "1:"), Key("seq", SlicePos(NONE, NONE, 2, n), "::2")}
    \cup (IF n > 0 THEN {Key("int", <<n - 1>>, "-1"), Key("int", <<0>>, "0"),
                         Key("seq", <<n - 1, 0>>, "[-1, 0]")} ELSE {})
New == Key("new", <<0>>, "None")
IsList(k) == k.s = "[-1, 0]"
KeySeqs(shape) ==
    LET d == Len(shape) IN
    IF d = 1 THEN {<<k>> : k \in Keys(shape[1])} \cup {<<New, k>> : k \in Keys(shape[1])}
    ELSE IF d = 2 THEN {ks \in {<<k1, k2>> : k1 \in Keys(shape[1]), k2 \in Keys(shape[2])} :
                          (* a list and an integer: advanced indexing, equivalent here *)
                          ~(IsList(ks[1]) /\ IsList(ks[2]))
                          /\ ~(\E i \in 1..2 : ks[i].kind = "int" /\ IsList(ks[3 - i]))}
    ELSE {}
Step(op, arg, x) ==
    /\ depth' = depth + 1 /\ r' = x
    /\ Out([op |-> op, arg |-> arg, pre |-> r, post |-> x])
Pick ==
    /\ depth < DEPTH
    /\ \E ks \in KeySeqs(r.shape) :
         /\ KeyShape(ks) # <<>> /\ Size(KeyShape(ks)) > 0
         /\ Step("select", [i \in DOMAIN ks |-> ks[i].s], Select(r, ks))
Shapes(n) == {<<n>>, <<-1>>, <<1, n>>, <<n, 1>>, <<n, -1>>} \cup
             (IF n % 2 = 0 /\ n > 0 THEN {<<2, n \div 2>>, <<n \div 2, 2>>, <<-1, 2>>} ELSE {})
Change ==
    /\ depth < DEPTH
    /\ \E d \in Shapes(Size(r.shape)) : \E o \in {"C", "F"} :
         Step("reshape", [dims |-> d, order |-> o], Reshape(r, d, o))
Flat ==
    /\ depth < DEPTH
    /\ \E o \in {"C", "F"} : Step("ravel", o, Reshape(r, <<-1>>, o))
Convert ==
    /\ depth < DEPTH
    /\ \E c \in {"Map", "Tod", "FitsArray"} : Step("construct", c, ToClass(r, c))
Next == Pick \/ Change \/ Flat \/ Convert
Spec == Init /\ [][Next]_vars

InvAligned == Aligned(r)
InvSize == Len(r.v) = Size(r.shape)
(* element by element, the companions are those of the start *)
InvFollow ==
    /\ r.cov # <<>> => \A i \in DOMAIN r.v : r.cov[1][i] = 10 * r.v[i]
    /\ r.err # <<>> => \A i \in DOMAIN r.v : r.err[1][i] = 100 * r.v[i]
    /\ r.mask # <<>> => \A i \in DOMAIN r.v : r.mask[1][i] = Parity(r.v[i])
InvRoundTrip ==      \* reshaping in one order and back is the identity
    \A o \in {"C", "F"} : Reshape(Reshape(r, <<-1>>, o), r.shape, o) = r
=============================================================================
