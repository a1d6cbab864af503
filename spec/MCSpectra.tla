----------------------------- MODULE MCSpectra -----------------------------
(* Changes of frequency and rotations.                                           *)
EXTENDS Spectra, Json
CONSTANTS KS, MS, BETAS, XS
VARIABLES what, x
vars == <<what, x>>
Out(m) == PrintT("@@" \o ToJson(m))
Init == \/ what = "spectrum" /\ x \in [k : KS, k0 : KS, m : MS, beta : BETAS]
        \/ what = "offset" /\ x \in [d : Directions, x : {k - XS : k \in 0..(2 * XS)}, y : {k - XS : k \in 0..(2 * XS)}]
Extrapolate == what = "spectrum" /\ what' = "flux" /\ x' = Flux(x.k, x.k0, x.m, x.beta - 1)
               /\ Out([op |-> "flux", k |-> x.k, k0 |-> x.k0, m |-> x.m, beta |-> x.beta - 1, out |-> x'])
Rotate == what = "offset" /\ what' = "sky" /\ x' = <<East(x.d, x.x, x.y), North(x.d, x.x, x.y)>>
          /\ Out([op |-> "rotate", d |-> x.d, x |-> x.x, y |-> x.y, out |-> x'])
Next == Extrapolate \/ Rotate
Spec == Init /\ [][Next]_vars
(* The reference is kept; higher frequencies gain from a higher slope *)
InvReference == what = "spectrum" => /\ Near(Flux(x.k, x.k, x.m, x.beta - 1), 4096, 0)
                                     /\ x.k > x.k0 => Flux(x.k, x.k0, x.m, x.beta) >= Flux(x.k, x.k0, x.m, x.beta - 1)
(* A hotter body is bluer *)
InvWien == what = "spectrum" /\ x.k > x.k0 => Flux(x.k, x.k0, x.m, x.beta - 1) >= Flux(x.k, x.k0, x.m + 1, x.beta - 1) - 8
(* Lengths and right angles are preserved *)
InvLength == what = "offset" => LET e == East(x.d, x.x, x.y)
                                    n == North(x.d, x.x, x.y)
                                IN /\ (e * e) + (n * n) = 25 * ((x.x * x.x) + (x.y * x.y))
                                   /\ East(x.d, -x.y, x.x) = -n /\ North(x.d, -x.y, x.x) = e
=============================================================================
