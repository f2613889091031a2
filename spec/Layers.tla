------------------------------- MODULE Layers -------------------------------
(* The interface of a droplet, layer by layer, in a periodic system.          *)
(* A frame is a function from layers to <<l, r>>; layers without an interface   *)
(* may lie in between.                                                          *)
EXTENDS Spreading

Lowest(f)  == MinOf(DOMAIN f)
Highest(f) == MaxOf(DOMAIN f)

(* Where to look from for layer j: where it was, or else the next layer below,  *)
(* or else the lowest one.                                                      *)
Below(S, j) == MaxOf({k \in S : k < j})
RefLayer(f, j) == IF j \in DOMAIN f THEN j ELSE IF j < Lowest(f) THEN Lowest(f) ELSE Below(DOMAIN f, j)

FollowLayers(n, old, seen) == [j \in DOMAIN seen |-> Follow(n, old[RefLayer(old, j)], seen[j])]

(* The first frame: from the bottom upwards *)
RECURSIVE PlaceUpTo(_, _, _)
PlaceUpTo(n, seen, j) ==
    IF j = Lowest(seen) THEN (j :> Place(n, seen[j]))
    ELSE LET k == Below(DOMAIN seen, j)  w == PlaceUpTo(n, seen, k) IN (j :> Follow(n, w[k], seen[j])) @@ w
PlaceLayers(n, seen) == PlaceUpTo(n, seen, Highest(seen))

TraceableLayers(n, old, new) ==
    /\ DOMAIN old \cap DOMAIN new # {}
    /\ \A j \in DOMAIN new : Traceable(n, old[RefLayer(old, j)], new[j])
TraceableFirst(n, new) ==
    /\ \A j \in DOMAIN new : new[j][1] <= new[j][2] /\ new[j][2] - new[j][1] < n
    /\ \A j \in (DOMAIN new) \ {Lowest(new)} : Traceable(n, new[Below(DOMAIN new, j)], new[j])

Shown(n, f) == [j \in DOMAIN f |-> <<f[j][1] % n, f[j][2] % n>>]
=============================================================================
