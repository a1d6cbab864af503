---------------------------- MODULE MCQuantities ----------------------------
(* Every rule with every combination of units of its operands: the outcome does  *)
(* not depend on the compatible units in which the operands are expressed.        *)
EXTENDS Quantities, Json
CONSTANT UnitIds
Table == << <<>>, <<T("m", 1)>>, <<T("km", 1)>>, <<T("s", 1)>>, <<T("ms", 1)>>,
            <<T("km", 1), D("s", 1)>>, <<T("m", 1), D("ms", 1)>>, <<T("J", 1)>>, <<T("N", 1), T("m", 1)>>,
            <<T("Jy", 1), D("sr", 1)>>, <<T("MJy", 1), D("sr", 1)>>, <<T("m", 2)>>, <<T("km", 2)>> >>
(* three operands *)
Ternary == {"clip", "concatenate", "concat", "stack", "vstack", "hstack", "dstack", "column_stack",
            "choose", "select", "method.clip"}
Binary == (CommonNames \ {"fill"}) \cup CompareNames \cup ProdNames \cup QuotNames \cup {"divmod", "copysign", "broadcast_arrays"}
Arity(n) == IF n \in Ternary THEN 3 ELSE IF n \in Binary THEN 2 ELSE 1
U(i) == Parse(Table[i])
VARIABLES name, a, b, c
vars == <<name, a, b, c>>
Units3(n, i, j, k) ==
    CASE Arity(n) = 1 -> <<U(i)>> [] Arity(n) = 2 -> <<U(i), U(j)>> [] OTHER -> <<U(i), U(j), U(k)>>
us == Units3(name, a, b, c)
None == <<>>
Outcome(n, x) ==
    IF Refused(n, x, None) THEN [refused |-> TRUE, u |-> One]
    ELSE [refused |-> FALSE, u |-> OutU(n, x, 1, 24, 2)]
Out(n, i, j, k) ==
    LET o == Outcome(n, Units3(n, i, j, k))
    IN PrintT("@@" \o ToJson([name |-> n, us |-> SubSeq(<<Table[i], Table[j], Table[k]>>, 1, Arity(n)),
            refused |-> o.refused, u |-> PrintU(o.u)]))
Init == name \in RuleNames /\ a \in UnitIds /\ b = 1 /\ c = 1
        /\ (Arity(name) = 1 => Out(name, a, b, c))
Second == Arity(name) = 2 /\ b = 1 /\ b' \in UnitIds /\ UNCHANGED <<name, a, c>> /\ Out(name, a, b', c)
Third == /\ Arity(name) = 3 /\ b = 1 /\ c = 1
         /\ b' \in UnitIds /\ c' \in UnitIds /\ UNCHANGED <<name, a>> /\ Out(name, a, b', c')
Next == Second \/ Third
Spec == Init /\ [][Next]_vars

InvCovariant ==
    \A i \in DOMAIN us : \A k \in UnitIds :
        (us[i] # One /\ Compatible(us[i], U(k), None)) =>
            LET o1 == Outcome(name, us)
                o2 == Outcome(name, [us EXCEPT ![i] = U(k)])
            IN /\ o1.refused = o2.refused
               /\ BaseU(o1.u, None) = BaseU(o2.u, None)
               (* homogenisation: the SI value of operand j is the same *)
               /\ ~o1.refused => \A j \in DOMAIN us :
                    us[j] # One /\ RuleOf(name).hom # {} =>
                      Near(LFactor(us[j], None), ConvL(name, us, j, None) + LFactor(FirstUnit(us), None), 60)
InvKnown == RuleOf(name).first # "unknown"
InvSymmetric ==     \* the acceptance does not depend on the order
    /\ Arity(name) = 2 => Refused(name, us, None) = Refused(name, <<us[2], us[1]>>, None)
    /\ Arity(name) = 3 => Refused(name, us, None) = Refused(name, <<us[3], us[1], us[2]>>, None)
=============================================================================
