---------------------------- MODULE Instruments ----------------------------
(* Instruments made of the detectors of a layout, their subsets and partitions, imagers,  *)
(* beams and mask policies.  A layout has n detectors, in a rectangle; an instrument is     *)
(* [name, ids, gain]: its detectors in order, as 0-based positions in the layout, and     *)
(* the gain of each of them.                                                       *)
EXTENDS Images
(* selections: <<"slice", start, stop, step>>, <<"int", i>>, <<"list", positions>>, <<"mask", booleans>>, <<"all">> *)
Wrap(i, n) == IF i < 0 THEN i + n ELSE i
Positions(sel, n) ==
    CASE sel[1] = "slice" -> SlicePos(sel[2], sel[3], sel[4], n)
      [] sel[1] = "int" -> <<Wrap(sel[2], n)>>
      [] sel[1] = "list" -> [k \in DOMAIN sel[2] |-> Wrap(sel[2][k], n)]
      [] sel[1] = "mask" -> SelectIdx(n, LAMBDA i : sel[2][i + 1])
      [] OTHER -> Iota(n)
Refused(sel, n) ==
    CASE sel[1] = "int" -> Wrap(sel[2], n) \notin 0..(n - 1)
      [] sel[1] = "list" -> \E k \in DOMAIN sel[2] : Wrap(sel[2][k], n) \notin 0..(n - 1)
      [] sel[1] = "mask" -> Len(sel[2]) # n
      [] OTHER -> FALSE
Part(a, ps) == [name |-> a.name, ids |-> SeqTake(a.ids, ps), gain |-> SeqTake(a.gain, ps)]
Select(a, sel) == Part(a, Positions(sel, Len(a.ids)))
Groups(a, m) == [k \in 1..m |-> Part(a, SplitPos(Len(a.ids), m, k - 1))]
Singles(a) == [k \in DOMAIN a.ids |-> Part(a, <<k - 1>>)]
Pack(a, v) == SeqTake(v, a.ids)
Unpack(a, v, n, missing) ==
    [i \in 1..n |-> IF \E k \in DOMAIN a.ids : a.ids[k] = i - 1
                    THEN v[CHOOSE k \in DOMAIN a.ids : a.ids[k] = i - 1] ELSE missing]

(* ---- beams: the angle theta is theta[k] / 4 standard deviations away from the maximum; in units of 1 / 32768 ---- *)
BeamValue(k) == Exp32(k * k)

(* ---- mask policies: pairs <<flag, policy>> ---- *)
Policies == <<"keep", "mask", "remove">>
Code(p) == CHOOSE i \in 0..2 : Policies[i + 1] = p
(* empty when the policy is accepted *)
PolicyError(flags, values) ==
    IF Len(flags) # Len(values) THEN "exc:ValueError"
    ELSE LET bad == {k \in DOMAIN flags : flags[k].under \/ values[k] \notin Range(Policies)}
         IN IF bad = {} THEN ""
            ELSE LET k == CHOOSE i \in bad : \A j \in bad : i <= j
                 IN IF flags[k].under THEN "exc:ValueError" ELSE "exc:KeyError"
(* the last policy given to a flag counts *)
PolicyOf(flags, values, name) ==
    LET ks == {k \in DOMAIN flags : flags[k].name = name} IN values[CHOOSE k \in ks : \A j \in ks : j <= k]
Converted(flags, values) == [k \in DOMAIN flags |-> Code(PolicyOf(flags, values, flags[k].name))]
RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Join(Tail(s))
Text(description, flags, values) ==
    (IF description = "" THEN "" ELSE description \o ": ")
    \o Join([k \in DOMAIN flags |-> flags[k].name \o "='" \o PolicyOf(flags, values, flags[k].name) \o "'"])
=============================================================================
