------------------------------ MODULE MCFrames ------------------------------
(* All the sites; stars brought from one frame to the other while time passes.     *)
EXTENDS Frames, Json
CONSTANTS C, STEPS
VARIABLES frame, v, site, x, n
vars == <<frame, v, site, x, n>>
Out(m) == PrintT("@@" \o ToJson(m))
Cube == {<<a - 1, b - 1, c - 1>> : a, b, c \in 0..C} \ {<<0, 0, 0>>}
Init == /\ frame = "E" /\ v \in Cube /\ x = v /\ n = 0
        /\ site \in {<<la, st>> : la \in Latitudes, st \in DOMAIN ROTS}
ToH == /\ frame = "E" /\ frame' = "H" /\ x' = Horizontal(v, site) /\ UNCHANGED <<v, site, n>>
       /\ Out([op |-> "E2H", v |-> v, site |-> site, h |-> x'])
ToE == /\ frame = "H" /\ frame' = "E" /\ x' = Over(Equatorial(x, site), 625) /\ UNCHANGED <<v, site, n>>
       /\ Out([op |-> "H2E", v |-> v, site |-> site, h |-> x])
Wait == /\ frame = "H" /\ n < STEPS /\ n' = n + 1
        /\ site' = SiteAt(site, 1) /\ x' = Horizontal(v, SiteAt(site, 1)) /\ UNCHANGED <<frame, v>>
Next == ToH \/ ToE \/ Wait
Spec == Init /\ [][Next]_vars
InvBack == frame = "E" => x = v
InvNorm == frame = "H" => DotP(x, x) = 625 * DotP(v, v)
(* the horizontal frame is orthogonal and indirect *)
InvFrame == LET a == North(site) b == East(site) c == Zenith(site) IN
            /\ DotP(a, a) = 625 /\ DotP(b, b) = 25 /\ DotP(c, c) = 625
            /\ DotP(a, b) = 0 /\ DotP(b, c) = 0 /\ DotP(a, c) = 0
            /\ DotP(Cross(a, b), c) < 0
(* the elevation of the celestial pole is the latitude, towards the north *)
InvPole == Horizontal(<<0, 0, 1>>, site) = <<5 * ROTS[site[1]][1], 0, 5 * ROTS[site[1]][2]>>
(* a star whose right ascension is the sidereal time is on the meridian; it moves westwards *)
InvTransit == LET s == <<ROTS[site[2]][1], ROTS[site[2]][2], 0>> IN
              /\ Horizontal(s, site)[2] = 0
              /\ Horizontal(s, SiteAt(site, 1))[2] < 0
InvDay == \A k \in 0..4 : (k = 4) => SiteAt(site, k) = site
=============================================================================
