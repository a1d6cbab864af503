--------------------------- MODULE MCInstruments ---------------------------
(* Every chain of selections of the detectors of a small layout, and every small mask policy. *)
EXTENDS Instruments, Json
CONSTANTS N, DEPTH, MAXFLAGS
VARIABLES what, a, path
vars == <<what, a, path>>
Out(m) == PrintT("@@" \o ToJson(m))
Bounds(n) == {NONE} \cup {i - n : i \in 0..(2 * n)}
Selections(n) ==
    {<<"slice", s, t, u>> : s \in Bounds(n), t \in Bounds(n), u \in {-2, -1, 1, 2}}
    \cup {<<"int", i - n>> : i \in 0..((2 * n) - 1)}
    \cup {<<"mask", m>> : m \in [1..n -> BOOLEAN]}
    \cup {<<"list", s>> : s \in {q \in UNION {[1..k -> 0..(n - 1)] : k \in 0..n} : IsInjSeq(q)}}
Flags == {[name |-> f, under |-> FALSE] : f \in {"a", "b"}} \cup {[name |-> "_c", under |-> TRUE]}
Values == Range(Policies) \cup {"other"}
Init == \/ what = "instrument" /\ path = << >>
           /\ \E s \in SUBSET (0..(N - 1)) : LET ids == SortedFrom(s, 0, N - 1) IN a = [name |-> "x", ids |-> ids, gain |-> ids]
        \/ what = "policy" /\ path = << >>
           /\ a \in [flags : UNION {[1..k -> Flags] : k \in 0..MAXFLAGS}, values : UNION {[1..k -> Values] : k \in 0..MAXFLAGS}]
Choose == what = "instrument" /\ Len(path) < DEPTH
          /\ \E sel \in Selections(Len(a.ids)) :
                /\ Len(path) >= 1 => sel[1] = "slice" /\ sel[4] \in {-1, 2} /\ sel[2] # NONE
                /\ a' = Select(a, sel) /\ path' = Append(path, <<a.ids, sel>>) /\ what' = what
                /\ Out([op |-> "select", start |-> IF path = << >> THEN a.ids ELSE path[1][1],
                        sels |-> [k \in DOMAIN path' |-> path'[k][2]], ids |-> a'.ids])
Share == what = "instrument" /\ Len(path) <= 1 /\ what' = "split" /\ UNCHANGED <<a, path>>
         /\ Out([op |-> "split", start |-> IF path = << >> THEN a.ids ELSE path[1][1],
                 sels |-> [k \in DOMAIN path |-> path[k][2]], groups |-> [m \in 1..3 |-> [k \in 1..m |-> Groups(a, m)[k].ids]],
                 packed |-> Pack(a, [i \in 1..N |-> 10 + i]), unpacked |-> Unpack(a, [i \in DOMAIN a.ids |-> 10 + i], N, 0)])
Decide == what = "policy" /\ what' = "decided" /\ UNCHANGED <<a, path>>
          /\ Out([op |-> "policy", a |-> a, error |-> PolicyError(a.flags, a.values),
                  array |-> IF PolicyError(a.flags, a.values) = "" THEN Converted(a.flags, a.values) ELSE << >>])
Next == Choose \/ Share \/ Decide
Spec == Init /\ [][Next]_vars
Instrument == what \in {"instrument", "split"}
(* The detectors are distinct detectors of the layout, each with its own gain *)
InvSubset == Instrument => Range(a.ids) \subseteq 0..(N - 1) /\ IsInjSeq(a.ids) /\ a.gain = a.ids
(* A partition is the instrument; unpacking and packing give back the values *)
InvPartition == Instrument => \A m \in 1..3 : /\ Flatten([k \in 1..m |-> Groups(a, m)[k].ids]) = a.ids
                                              /\ Balanced([k \in 1..m |-> Len(Groups(a, m)[k].ids)], Len(a.ids), m)
InvPack == Instrument => LET v == [i \in DOMAIN a.ids |-> 10 + i] IN Pack(a, Unpack(a, v, N, 0)) = v
InvPolicy == what = "policy" /\ PolicyError(a.flags, a.values) = "" =>
    LET c == Converted(a.flags, a.values) IN \A i, j \in DOMAIN c : a.flags[i].name = a.flags[j].name => c[i] = c[j]
=============================================================================
