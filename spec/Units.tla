------------------------------- MODULE Units -------------------------------
(* The algebra of the units of pysimulators.quantities.                        *)
(* A unit is a total function from names to exponents, counted in twelfths, so  *)
(* that units form a free abelian group with square and cubic roots.  A unit is *)
(* written as a sequence of tokens [op: "*" | "/", n: name, e: twelfths].       *)
(* Magnitudes are known by their sign and logarithm (in hundred-thousandths): only       *)
(* multiplicative facts are stated here.                                       *)
EXTENDS Common

K12 == 12
BaseNames == {"A", "cd", "K", "kg", "m", "mol", "rad", "s", "sr", "?", "beam", "detector"}
T(n, e) == [op |-> "*", n |-> n, e |-> 12 * e]
D(n, e) == [op |-> "/", n |-> n, e |-> 12 * e]

(* the derived units: logarithm of the factor and definition *)
Derived ==
    [arcmin |-> [L |-> -409434, toks |-> <<T("deg", 1)>>],
     arcsec |-> [L |-> -818869, toks |-> <<T("deg", 1)>>],
     deg |-> [L |-> -404823, toks |-> <<T("rad", 1)>>],
     uJy |-> [L |-> -1381551, toks |-> <<T("Jy", 1)>>],
     mJy |-> [L |-> -690776, toks |-> <<T("Jy", 1)>>],
     Jy |-> [L |-> -5986721, toks |-> <<T("W", 1), D("Hz", 1), D("m", 2)>>],
     MJy |-> [L |-> 1381551, toks |-> <<T("Jy", 1)>>],
     N |-> [L |-> 0, toks |-> <<T("kg", 1), T("m", 1), D("s", 2)>>],
     Hz |-> [L |-> 0, toks |-> <<D("s", 1)>>],
     J |-> [L |-> 0, toks |-> <<T("kg", 1), T("m", 2), D("s", 2)>>],
     AU |-> [L |-> 2573122, toks |-> <<T("m", 1)>>],
     km |-> [L |-> 690776, toks |-> <<T("m", 1)>>],
     mm |-> [L |-> -690776, toks |-> <<T("m", 1)>>],
     um |-> [L |-> -1381551, toks |-> <<T("m", 1)>>],
     pc |-> [L |-> 3796814, toks |-> <<T("m", 1)>>],
     W |-> [L |-> 0, toks |-> <<T("kg", 1), T("m", 2), D("s", 3)>>],
     atm |-> [L |-> 1152609, toks |-> <<T("Pa", 1)>>],
     bar |-> [L |-> 1151292, toks |-> <<T("Pa", 1)>>],
     mmHg |-> [L |-> -663332, toks |-> <<T("atm", 1)>>],
     cmHg |-> [L |-> 230258, toks |-> <<T("mmHg", 1)>>],
     Pa |-> [L |-> 0, toks |-> <<T("kg", 1), D("m", 1), D("s", 2)>>],
     Torr |-> [L |-> 0, toks |-> <<T("mmHg", 1)>>],
     Ohm |-> [L |-> 0, toks |-> <<T("V", 1), D("A", 1)>>],
     ms |-> [L |-> -690776, toks |-> <<T("s", 1)>>],
     us |-> [L |-> -1381551, toks |-> <<T("s", 1)>>],
     C |-> [L |-> 0, toks |-> <<T("A", 1), T("s", 1)>>],
     V |-> [L |-> 0, toks |-> <<T("kg", 1), T("m", 2), D("A", 1), D("s", 3)>>]]
LocalNames == {"ua", "ub", "uc"}     \* names of units derived by the user
Names == BaseNames \cup DOMAIN Derived \cup LocalNames

(* ---- the group ---- *)
One == [n \in Names |-> 0]
MulU(u, v) == [n \in Names |-> u[n] + v[n]]
InvU(u) == [n \in Names |-> -u[n]]
DivU(u, v) == [n \in Names |-> u[n] - v[n]]
(* power k/12 *)
PowU(u, k) == [n \in Names |-> (u[n] * k) \div K12]
PowExact(u, k) == \A n \in Names : (u[n] * k) % K12 = 0
Gen(n, e) == [One EXCEPT ![n] = e]

(* ---- strings ---- *)
RECURSIVE Parse(_)
Parse(toks) ==
    IF toks = <<>> THEN One
    ELSE LET t == Head(toks)
             rest == Parse(Tail(toks))
         IN [rest EXCEPT ![t.n] = @ + (IF t.op = "/" THEN -t.e ELSE t.e)]
KnownTokens(toks) == \A i \in DOMAIN toks : toks[i].n \in Names
(* the printed form: no name twice, no null exponent, the negative exponents after
   a slash unless all of them are *)
Canonical(toks) ==
    /\ \A i, j \in DOMAIN toks : toks[i].n = toks[j].n => i = j
    /\ \A i \in DOMAIN toks : toks[i].e # 0
    /\ (\E i \in DOMAIN toks : toks[i].op = "*" /\ toks[i].e > 0)
         => \A i \in DOMAIN toks : toks[i].e > 0
    /\ ~(\E i \in DOMAIN toks : toks[i].op = "*" /\ toks[i].e > 0)
         => \A i \in DOMAIN toks : toks[i].e < 0 /\ toks[i].op = "*"
    /\ \A i, j \in DOMAIN toks : (toks[i].op = "/" /\ toks[j].op = "*") => i > j
(* a printed form of a unit, names in any order *)
RECURSIVE PrintFrom(_, _, _)
PrintFrom(S, u, op) ==
    IF S = {} THEN <<>>
    ELSE LET n == CHOOSE n \in S : TRUE IN
         <<[op |-> op, n |-> n, e |-> IF op = "/" THEN -u[n] ELSE u[n]]>> \o PrintFrom(S \ {n}, u, op)
PrintU(u) ==
    LET pos == {n \in Names : u[n] > 0}
        neg == {n \in Names : u[n] < 0}
    IN IF pos = {} THEN PrintFrom(neg, u, "*")
       ELSE PrintFrom(pos, u, "*") \o PrintFrom(neg, u, "/")

(* e * x / 12 without overflow *)
Twelfths(e, x) == (e \div K12) * x + (((e % K12) * x) \div K12)
(* ---- reduction to the base units ---- *)
(* local definitions: function from LocalNames to [L, toks] or [L, none] *)
SumOver(S, F(_)) ==
    LET RECURSIVE rec(_)
        rec(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN F(x) + rec(X \ {x})
    IN rec(S)
Support(u) == {n \in Names : u[n] # 0}
Def(n, loc) == IF n \in DOMAIN loc THEN loc[n] ELSE Derived[n]
IsDerived(n, loc) == n \in DOMAIN loc \/ n \in DOMAIN Derived
(* logarithm of the SI value of the unit, in hundred-thousandths, and the error bound is
   a few units per exponent *)
LFactor(u, loc) ==
    LET RECURSIVE lf(_)
        lf(n) == IF IsDerived(n, loc)
                 THEN LET d == Def(n, loc)
                          v == Parse(d.toks)
                      IN d.L + SumOver(Support(v), LAMBDA x : Twelfths(v[x], lf(x)))
                 ELSE 0
    IN SumOver(Support(u), LAMBDA n : Twelfths(u[n], lf(n)))
BaseU(u, loc) ==
    LET RECURSIVE bn(_)
        bn(n) == IF IsDerived(n, loc)
                 THEN LET v == Parse(Def(n, loc).toks)
                          S == Support(v)
                          RECURSIVE acc(_)
                          acc(X) == IF X = {} THEN One
                                    ELSE LET x == CHOOSE x \in X : TRUE
                                             b == bn(x)
                                         IN MulU([y \in Names |-> (v[x] * b[y]) \div K12], acc(X \ {x}))
                      IN acc(S)
                 ELSE Gen(n, K12)
        S == Support(u)
        RECURSIVE tot(_)
        tot(X) == IF X = {} THEN One
                  ELSE LET x == CHOOSE x \in X : TRUE
                           b == bn(x)
                       IN MulU([y \in Names |-> (u[x] * b[y]) \div K12], tot(X \ {x}))
        r == tot(S)
    IN (* the square of an angle is a solid angle *)
       IF r["rad"] = 24 \/ r["rad"] = -24
       THEN [r EXCEPT !["sr"] = @ + (r["rad"] \div 2), !["rad"] = 0] ELSE r
Compatible(u, v, loc) == BaseU(u, loc) = BaseU(v, loc)

Near(a, b, tol) == Abs(a - b) <= tol
=============================================================================
