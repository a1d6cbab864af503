------------------------------ MODULE MCUnits ------------------------------
(* All the short expressions of products, quotients, powers and conversions over *)
(* some units; the transitions are printed and replayed on the code.            *)
EXTENDS Units, Json
CONSTANTS Seeds, DEPTH      \* Seeds: subset of 1..Len(Table)
Table == << <<T("m", 1)>>, <<T("km", 2)>>, <<T("N", 1), D("m", 1)>>, <<T("Jy", 1), D("sr", 1)>>,
            <<T("s", 1)>>, <<D("ms", 1)>>, <<T("deg", 2)>>, <<T("J", 1)>>, <<T("Torr", 1)>>,
            <<T("?", 1), D("detector", 1)>>, <<T("W", 1), T("s", 1)>>, <<T("bar", 1), T("m", 2)>>,
            <<T("Ohm", 1)>>, <<T("V", 1), D("A", 1)>>, <<T("MJy", 1), D("arcmin", 2)>>,
            <<T("kg", 1), D("s", 2)>>, <<T("C", 1)>>, <<T("rad", 1)>>, <<T("m", 1), D("m", 1)>> >>
Ops == {"mul", "div"}
Powers == {-24, -12, 4, 6, 24, 36}
VARIABLES u, L, depth
vars == <<u, L, depth>>
Out(r) == PrintT("@@" \o ToJson(r))
Angles == {"rad", "deg", "arcmin", "arcsec"}
(* at most one angle, to the power 1 or 2 (see DESIGN.md) *)
AngleOK(v) == LET S == {n \in Angles : v[n] # 0} IN
    S = {} \/ \E n \in S : S = {n} /\ Abs(v[n]) \in {12, 24}

Init == \E i \in Seeds : u = Parse(Table[i]) /\ L = 0 /\ depth = 0
    /\ Out([op |-> "create", toks |-> Table[i], u |-> PrintU(Parse(Table[i])), L |-> 0])
Step(op, arg, v, dl) ==
    /\ depth < DEPTH /\ depth' = depth + 1 /\ u' = v /\ L' = L + dl
    /\ Out([op |-> op, arg |-> arg, pre |-> PrintU(u), u |-> PrintU(v), L |-> dl])
Mul == depth < DEPTH /\ \E i \in Seeds : Step("mul", Table[i], MulU(u, Parse(Table[i])), 0)
Div == depth < DEPTH /\ \E i \in Seeds : Step("div", Table[i], DivU(u, Parse(Table[i])), 0)
Pow == depth < DEPTH /\ \E k \in Powers : PowExact(u, k) /\ Step("pow", <<k>>, PowU(u, k), 0)
Convert == depth < DEPTH /\ u # One /\ AngleOK(u) /\ \E i \in Seeds :
    LET v == Parse(Table[i]) IN
    /\ v # One
    /\ IF Compatible(u, v, <<>>) THEN Step("tounit", Table[i], v, LFactor(u, <<>>) - LFactor(v, <<>>))
       ELSE Step("refused", Table[i], u, 0)
Next == Mul \/ Div \/ Pow \/ Convert
Spec == Init /\ [][Next]_vars

InvPrint == Canonical(PrintU(u)) /\ Parse(PrintU(u)) = u
InvInverse == MulU(u, InvU(u)) = One /\ DivU(u, u) = One
InvCommute == \A i \in Seeds : MulU(u, Parse(Table[i])) = MulU(Parse(Table[i]), u)
              /\ MulU(DivU(u, Parse(Table[i])), Parse(Table[i])) = u
(* the reduction to base units is a homomorphism and has no derived unit *)
InvBase == AngleOK(u) => \A n \in DOMAIN Derived : BaseU(u, <<>>)[n] = 0
InvHom == \A i \in Seeds : LET v == Parse(Table[i]) IN
    /\ Near(LFactor(MulU(u, v), <<>>), LFactor(u, <<>>) + LFactor(v, <<>>), 50)
    /\ (\A n \in Angles : u[n] = 0 /\ v[n] = 0)
        => BaseU(MulU(u, v), <<>>) = MulU(BaseU(u, <<>>), BaseU(v, <<>>))
(* conversions do not depend on the path *)
InvPath == \A i \in Seeds : LET v == Parse(Table[i]) IN
    (AngleOK(u) /\ Compatible(u, v, <<>>)) =>
        Near((LFactor(u, <<>>) - LFactor(v, <<>>)) + (LFactor(v, <<>>) - LFactor(u, <<>>)), 0, 50)
=============================================================================
