----------------------------- MODULE Quantities -----------------------------
(* How the NumPy functions transform the units of their operands.               *)
(* A rule is [hom: positions of the operands which are homogenised (converted    *)
(* into the unit of the first of them that has one), first, rest: unit of the    *)
(* first and of the other results].                                              *)
EXTENDS Units

Rule(hom, first, rest) == [hom |-> hom, first |-> first, rest |-> rest]
AllArgs == 1..9
(* the homogenised operations *)
CommonNames ==
    {"add", "subtract", "maximum", "minimum", "fmax", "fmin", "fmod", "remainder", "hypot",
     "clip", "add.outer", "subtract.outer", "maximum.outer", "add.at", "maximum.at", "append",
     "concatenate", "concat", "stack", "vstack", "hstack", "dstack", "column_stack", "where",
     "choose", "select", "insert", "intersect1d", "union1d", "setdiff1d", "setxor1d",
     "fill_diagonal", "method.clip"}
(* the comparisons: homogenised, no unit *)
CompareNames ==
    {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "arctan2"}
(* the unit of the first operand; the others must not be converted *)
FirstNames ==
    {"absolute", "fabs", "conjugate", "negative", "positive", "rint", "floor", "ceil", "trunc",
     "copysign", "add.reduce", "maximum.reduce", "minimum.reduce", "add.accumulate",
     "minimum.accumulate", "add.reduceat",
     "sum", "mean", "min", "max", "ptp", "median", "std", "cumsum", "nansum", "nanmean", "nanmin",
     "nanmax", "nanmedian", "nanstd", "nancumsum", "average", "sort", "partition", "flip", "fliplr",
     "flipud", "roll", "rollaxis", "moveaxis", "repeat", "tile", "take", "take_along_axis", "diff",
     "reshape", "ravel", "resize", "transpose", "swapaxes", "squeeze", "expand_dims", "diag",
     "diagflat", "diagonal", "trace", "unique_values", "copy", "around", "round", "fix",
     "broadcast_to", "compress", "extract", "delete", "pad", "rot90", "real", "imag",
     "real_if_close", "nan_to_num", "trim_zeros", "atleast_1d", "atleast_2d", "atleast_3d",
     "permute_dims", "cumulative_sum",
     "method.sum", "method.mean", "method.std", "method.min", "method.max", "method.cumsum",
     "method.round", "method.take", "method.reshape", "method.transpose", "method.flatten",
     "method.ravel", "method.repeat", "method.diagonal", "method.squeeze",
     "method.swapaxes", "method.compress", "method.sort", "method.copy", "method.astype",
     "method.real", "index", "fill"}
(* the first result only *)
FirstOnlyNames == {"unique", "unique_all", "average2"}
(* a sequence of results, of the unit of the first operand *)
SplitNames == {"split", "array_split", "hsplit", "vsplit", "dsplit", "unstack", "modf"}
ProdNames ==
    {"multiply", "multiply.outer", "matmul", "vecdot", "matvec", "vecmat", "dot", "inner", "outer",
     "vdot", "cross", "kron", "convolve", "correlate", "tensordot", "einsum", "cov"}
QuotNames == {"divide", "floor_divide", "divide.outer"}
SquareNames == {"square", "var", "nanvar", "method.var"}
PowNames == {"power", "float_power"}
PowerReduceNames == {"multiply.reduce", "prod", "method.prod"}
EachNames == {"broadcast_arrays", "atleast_1d_n"}
RuleOf(n) ==
    CASE n \in CommonNames -> Rule(AllArgs, "common", "common")
      [] n \in CompareNames -> Rule(AllArgs, "one", "one")
      [] n \in FirstNames -> Rule({}, "operand1", "operand1")
      [] n \in FirstOnlyNames -> Rule({}, "operand1", "one")
      [] n \in SplitNames -> Rule({}, "operand1", "operand1")
      [] n \in ProdNames -> Rule({}, "product", "product")
      [] n \in QuotNames -> Rule({}, "quotient", "quotient")
      [] n \in SquareNames -> Rule({}, "square", "square")
      [] n = "sqrt" -> Rule({}, "sqrt", "sqrt")
      [] n = "cbrt" -> Rule({}, "cbrt", "cbrt")
      [] n = "reciprocal" -> Rule({}, "inverse", "inverse")
      [] n \in PowNames -> Rule({}, "power", "power")
      [] n \in PowerReduceNames -> Rule({}, "powreduce", "powreduce")
      [] n \in EachNames -> Rule({}, "each", "each")
      [] n = "divmod" -> Rule(AllArgs, "one", "common")
      [] OTHER -> Rule({}, "unknown", "unknown")
RuleNames ==
    CommonNames \cup CompareNames \cup FirstNames \cup FirstOnlyNames \cup SplitNames \cup ProdNames
    \cup QuotNames \cup SquareNames \cup {"sqrt", "cbrt", "reciprocal", "divmod"} \cup PowNames
    \cup PowerReduceNames \cup EachNames

(* us: units of the operands *)
FirstUnit(us) ==
    LET S == {i \in DOMAIN us : us[i] # One} IN
    IF S = {} THEN One ELSE us[CHOOSE i \in S : \A j \in S : i <= j]
RECURSIVE ProdU(_)
ProdU(us) == IF us = <<>> THEN One ELSE MulU(Head(us), ProdU(Tail(us)))
Refused(name, us, loc) ==
    RuleOf(name).hom # {} /\ \E i \in DOMAIN us :
        us[i] # One /\ ~Compatible(us[i], FirstUnit(us), loc)
(* logarithm of the factor by which operand i is multiplied first *)
ConvL(name, us, i, loc) ==
    IF RuleOf(name).hom = {} \/ us[i] = One \/ us[i] = FirstUnit(us) THEN 0
    ELSE LFactor(us[i], loc) - LFactor(FirstUnit(us), loc)
(* unit of result j; k: exponent in twelfths, n: number of elements that are multiplied *)
OutU(name, us, j, k, n) ==
    LET x == IF j = 1 THEN RuleOf(name).first ELSE RuleOf(name).rest IN
    CASE x = "common" -> FirstUnit(us)
      [] x = "one" -> One
      [] x = "operand1" -> us[1]
      [] x = "product" -> ProdU(us)
      [] x = "quotient" -> DivU(us[1], us[2])
      [] x = "square" -> PowU(us[1], 24)
      [] x = "sqrt" -> PowU(us[1], 6)
      [] x = "cbrt" -> PowU(us[1], 4)
      [] x = "inverse" -> PowU(us[1], -12)
      [] x = "power" -> PowU(us[1], k)
      [] x = "powreduce" -> PowU(us[1], 12 * n)
      [] x = "each" -> IF j \in DOMAIN us THEN us[j] ELSE One
      [] OTHER -> One
=============================================================================
