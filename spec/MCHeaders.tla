------------------------------ MODULE MCHeaders ------------------------------
(* Headers made from scales and rotations, decomposed and remade; pixels brought  *)
(* to the world and back.                                                         *)
EXTENDS Headers, Json
CONSTANTS CS, PS4, NX
PS == {x - 4 : x \in PS4}
VARIABLES pc, h, c, t, p
vars == <<pc, h, c, t, p>>
Out(m) == PrintT("@@" \o ToJson(m))
Mk(cc, tt, ctype, crval, crpix) ==
    [naxis |-> <<NX, NX + 1>>, w |-> << [crval |-> crval, crpix |-> crpix, cd |-> CD(cc, tt), ctype |-> ctype] >>]
Signed == {<<s1 * a, s2 * b>> : s1, s2 \in {1, -1}, a, b \in CS}
Init ==
    /\ pc = "new" /\ p = <<>>
    /\ c \in Signed /\ t \in DOMAIN ROTS
    /\ \E ctype \in {1, 2} : \E crv \in {<<10, 0>>, <<359, 0>>, <<0, 0>>} : \E crpix \in {<<2, 2>>, <<5, 3>>, <<NX + 1, NX + 2>>} :
         h = Mk(c, t, ctype, crv, crpix)
w == h.w[1]
Create == /\ pc = "new" /\ pc' = "made" /\ UNCHANGED <<h, c, t, p>>
          /\ Out([op |-> "create", h |-> h, c |-> c, t |-> t])
Decompose == /\ pc = "made" /\ pc' = "decomposed"
             /\ c' = Decomposed(c, t)[1] /\ t' = Decomposed(c, t)[2]
             /\ UNCHANGED <<h, p>>
             /\ Out([op |-> "decompose", h |-> h, c |-> c', t |-> t'])
Remake == /\ pc = "decomposed" /\ pc' = "made"
          /\ h' = [h EXCEPT !.w[1].cd = CD(c, t)] /\ UNCHANGED <<c, t, p>>
ToWorld == /\ pc = "made" /\ pc' = "world"
           /\ \E x \in PS : \E y \in PS :
                /\ p' = <<x, y>> /\ InPlane(w, p')
           /\ UNCHANGED <<h, c, t>>
           /\ Out([op |-> "world", h |-> h, c |-> c, t |-> t, p |-> p', q |-> World(w, p')])
Next == Create \/ Decompose \/ Remake \/ ToWorld
Spec == Init /\ [][Next]_vars
InvRemade == pc = "decomposed" => CD(c, t) = w.cd /\ c[2] > 0
InvInverse ==   \* a point of the world is that of one pixel only
    pc = "world" => \A x \in PS : \A y \in PS : ToPixelOf(w, <<x, y>>, World(w, p)) => <<x, y>> = p
InvScale == pc = "made" => Det(w.cd) = 25 * c[1] * c[2]
=============================================================================
