----------------------------- MODULE MC_Layers -----------------------------
(* A droplet of several layers that moves, grows and shrinks, and the tracker *)
(* of all its edges that is used when interfaces are collected.               *)
EXTENDS Layers, Json

CONSTANTS Sizes, Rows, Far, Reach, Origins, MaxSteps, Gen

VARIABLES n, x0, real, tr, hist, tries
vars == <<n, x0, real, tr, hist, tries>>

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Pos(x) == x0 + (x % n)

(* The tracker of a pair of edges, as in MC_Spreading *)
Fresh == [lp |-> 0, rp |-> 0, ml |-> 0, mr |-> 0, set |-> 0]
Direction(x, prev) == IF x > prev THEN -1 ELSE 1
Update(t, s) ==
    IF t.set = 0 THEN [lp |-> s[1], rp |-> s[2], ml |-> 0, mr |-> IF s[1] > s[2] THEN 1 ELSE 0, set |-> 1] ELSE
    LET ahead == s[1] > s[2]  before == t.lp > t.rp
        dl == Abs(s[1] - t.lp)  dr == Abs(s[2] - t.rp)
        c == IF ahead = before THEN <<0, 0>>
             ELSE IF dl > dr THEN <<Direction(s[1], t.lp), 0>> ELSE <<0, Direction(s[2], t.rp)>>
    IN [lp |-> s[1], rp |-> s[2], ml |-> t.ml + c[1], mr |-> t.mr + c[2], set |-> 1]
Seen(f, j) == <<Pos(f[j][1]), Pos(f[j][2])>>

RECURSIVE FirstUpTo(_, _)
FirstUpTo(f, j) == IF j = Lowest(f) THEN (j :> Update(Fresh, Seen(f, j)))
                   ELSE LET k == Below(DOMAIN f, j)  w == FirstUpTo(f, k) IN (j :> Update(w[k], Seen(f, j))) @@ w
UpdateAll(f) ==
    IF tr = <<>> THEN FirstUpTo(f, Highest(f))
    ELSE [j \in DOMAIN f |-> Update(tr[RefLayer(tr, j)], Seen(f, j))]
Tracked(j) == <<tr[j].lp + tr[j].ml * n, tr[j].rp + tr[j].mr * n>>

(* A droplet with its lowest layer at row a, of m layers, with the bottom at   *)
(* l..r, each layer above being narrower by <<p, q>>                            *)
Drop(a, s, l, r) ==
    LET RECURSIVE P(_)  P(k) == IF k = 0 THEN <<l, r>> ELSE LET b == P(k-1) IN <<b[1] + s[k][1], b[2] - s[k][2]>>
    IN [j \in a..(a + Len(s)) |-> P(j - a)]
Narrow == IF Gen THEN (-1..2) \X (-1..2) ELSE (0..1) \X (0..1)
Shapes == IF Gen THEN {<<>>} \cup {<<RandomElement(Narrow)>>, <<RandomElement(Narrow), RandomElement(Narrow)>>, <<RandomElement(Narrow), RandomElement(Narrow), RandomElement(Narrow)>>}
          ELSE {<<>>} \cup {<<p>> : p \in Narrow} \cup (IF Rows > 2 THEN {<<p, p>> : p \in Narrow} ELSE {})
(* Layers that hold nothing, though there is something above and below *)
Holes == IF Gen THEN {{}} ELSE {{}} \cup {{j} : j \in 1..(Rows - 2)}
Without(f, h) == IF h = {} THEN f ELSE [j \in (DOMAIN f) \ {k \in h : Lowest(f) < k /\ k < Highest(f)} |-> f[j]]
Fits(f) == /\ Highest(f) < Rows
           /\ \A j \in DOMAIN f : f[j][1] <= f[j][2] /\ f[j][2] - f[j][1] < n - 1

Init == /\ n \in Sizes /\ x0 \in {o - 3 : o \in Origins}
        /\ real = <<>> /\ tr = <<>> /\ hist = <<>> /\ tries = 0
Begin == /\ real = <<>>
         /\ \E l \in Pick(0..(n-1)), w \in Pick(0..(n-2)), a \in Pick(0..(Rows-1)), s \in Pick(Shapes), h \in Holes :
              LET f == Without(Drop(a, s, l, l + w), h) IN
              IF Fits(f) /\ TraceableFirst(n, f)
              THEN /\ real' = f /\ tr' = UpdateAll(f)
                   /\ hist' = IF Gen THEN <<[rows |-> <<Lowest(f), Highest(f)>>, e |-> [j \in 1..Cardinality(DOMAIN f) |-> f[Lowest(f) + j - 1]]]>> ELSE hist
                   /\ UNCHANGED <<n, x0, tries>>
              ELSE Gen /\ tries' = tries + 1 /\ UNCHANGED <<n, x0, real, tr, hist>>
Step == /\ real # <<>> /\ Len(hist) < MaxSteps
        /\ \E x \in Pick(-Reach..Reach), y \in Pick(-Reach..Reach), a \in Pick(0..(Rows-1)), s \in Pick(Shapes), h \in Holes :
              LET b == real[Lowest(real)]
                  f == Without(Drop(a, s, b[1] + x, b[2] + y), h) IN
              IF Fits(f) /\ TraceableLayers(n, real, f) /\ Abs(b[1] + x) <= Far * n
              THEN /\ real' = f /\ tr' = UpdateAll(f)
                   /\ hist' = IF Gen THEN Append(hist, [rows |-> <<Lowest(f), Highest(f)>>, e |-> [j \in 1..Cardinality(DOMAIN f) |-> f[Lowest(f) + j - 1]]]) ELSE hist
                   /\ UNCHANGED <<n, x0, tries>>
              ELSE Gen /\ tries' = tries + 1 /\ UNCHANGED <<n, x0, real, tr, hist>>
Show == /\ Gen /\ n # 0 /\ (Len(hist) = MaxSteps \/ tries > 60) /\ n' = 0
        /\ PrintT("BEH " \o ToJson([n |-> n, x0 |-> x0, rows |-> Rows, frames |-> hist]))
        /\ UNCHANGED <<x0, real, tr, hist, tries>>
Next == Begin \/ Step
GenNext == (n # 0 /\ tries <= 60 /\ (Begin \/ Step)) \/ Show
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

Exact == real # <<>> =>
    /\ DOMAIN tr = DOMAIN real
    /\ LET d == Tracked(Lowest(real))[1] - (real[Lowest(real)][1] + x0) IN
       d % n = 0 /\ \A j \in DOMAIN real : Tracked(j) = <<real[j][1] + x0 + d, real[j][2] + x0 + d>>
=============================================================================
