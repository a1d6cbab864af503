---------------------------- MODULE MCFitsFiles ----------------------------
(* Every history of DEPTH operations (save, load, select, change of unit, of       *)
(* class, of companions) over an array and a file: what is read is what was saved,  *)
(* and the parts read by several processes are a partition; the transitions are    *)
(* printed and replayed on the code.                                              *)
EXTENDS FitsFiles, Json
CONSTANTS ROWS, COLS, DEPTH, SIZES
VARIABLES r, file, saved, depth
vars == <<r, file, saved, depth>>
N == ROWS * COLS
Out(x) == PrintT("@@" \o ToJson(x))
Starts ==
    {[cls |-> cls, shape |-> <<ROWS, COLS>>, v |-> [i \in 1..N |-> IF i = 2 THEN (IF dt = "f8" THEN 103 ELSE 112) ELSE i], dt |-> dt,
      cov |-> IF cls = "Map" /\ c > 0 THEN << [i \in 1..N |-> 10 * i] >> ELSE <<>>,
      err |-> IF cls = "Map" /\ c = 2 THEN << [i \in 1..N |-> 20 + i] >> ELSE <<>>,
      mask |-> IF cls = "Tod" /\ c > 0 THEN << [i \in 1..N |-> IF i = 2 \/ i = 3 THEN 1 ELSE 0] >> ELSE <<>>,
      hdr |-> 7, unit |-> 12, org |-> IF cls = "Map" THEN "upper" ELSE "", du |-> c > 0,
      crpix |-> IF c = 1 THEN <<3, 5>> ELSE <<>>] :
     cls \in {"Map", "Tod", "FitsArray"}, dt \in {"f8", "i4"}, c \in 0..2}
Init == r \in Starts /\ file = <<>> /\ saved = <<>> /\ depth = 0
Step(op, arg, x, f) ==
    /\ depth' = depth + 1 /\ r' = x /\ file' = f
    /\ Out([op |-> op, arg |-> arg, r |-> r, file |-> file, r2 |-> x, file2 |-> f])
Save == /\ depth < DEPTH /\ saved' = <<r>> /\ Step("save", "", r, <<FileOf(r)>>)
Load == /\ depth < DEPTH /\ file # <<>> /\ UNCHANGED saved
        /\ \E cls \in {"Map", "Tod", "FitsArray"} : Step("load", cls, LoadFile(file[1], cls, NoArgs), file)
Distribute ==
    /\ depth < DEPTH /\ file # <<>> /\ UNCHANGED saved
    /\ \E size \in SIZES : \E rank \in 0..(size - 1) :
         LET x == LoadPart(file[1], r.cls, NoArgs, size, rank) IN
         Size(x.shape) > 0 /\ Step("part", <<size, rank>>, x, file)
Reverse ==
    /\ depth < DEPTH /\ UNCHANGED saved
    /\ Step("reverse", "", Picked(r, [i \in 1..Len(r.v) |-> Len(r.v) - i], r.shape), file)
Unit ==
    /\ depth < DEPTH /\ UNCHANGED saved /\ \E u \in {0, 24} : Step("unit", u, [r EXCEPT !.unit = u], file)
Strip ==
    /\ depth < DEPTH /\ UNCHANGED saved
    /\ Step("strip", "", [r EXCEPT !.cov = <<>>, !.err = <<>>, !.mask = <<>>], file)
Next == Save \/ Load \/ Distribute \/ Reverse \/ Unit \/ Strip
Spec == Init /\ [][Next]_vars

InvAligned == Aligned(r)
Fl(f) == [f EXCEPT !.dt = "", !.org = ""]
Sane(o) == IF o = "?" THEN "" ELSE o
(* reading a file with the class that was saved gives the saved array *)
InvRoundTrip ==
    file # <<>> =>
      LET x == LoadFile(file[1], saved[1].cls, NoArgs) IN
      /\ [x EXCEPT !.dt = "", !.org = Sane(@)] = [saved[1] EXCEPT !.dt = "", !.org = Sane(@)]
      /\ x.dt = IF Signed(saved[1].dt) THEN "f8" ELSE saved[1].dt
(* writing the distributed parts collectively gives the same file *)
InvDistribute ==
    file # <<>> => \A size \in SIZES :
      LET parts == [i \in 1..size |-> LoadPart(file[1], saved[1].cls, NoArgs, size, i - 1)]
      IN WellSplit(parts) /\ Fl(Gather(parts)) = Fl(FileOf(LoadFile(file[1], saved[1].cls, NoArgs)))
=============================================================================
