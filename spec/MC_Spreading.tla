---------------------------- MODULE MC_Spreading ----------------------------
(* A droplet that moves in a periodic system, and the tracker of its edges    *)
(* that is used for the spreading and interface collection.                    *)
(*                                                                             *)
(* Exhaustively: the tracker finds the real positions up to a common multiple  *)
(* of the system size, for every traceable motion and every origin of the      *)
(* coordinates.  With -simulate (GenSpreading.cfg): motions to replay.         *)
EXTENDS Spreading, Json

CONSTANTS Sizes, Far, Origins, MaxSteps, Gen

VARIABLES n, x0, real, seen, tr, hist
vars == <<n, x0, real, seen, tr, hist>>
(* real: position; seen: position when it was last seen, <<>> if never;        *)
(* tr: state of the tracker [lp, rp, ml, mr]                                   *)

Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Pos(x) == x0 + (x % n)                 \* where a map shows it

Start(s) == [lp |-> s[1], rp |-> s[2], ml |-> 0, mr |-> IF s[1] > s[2] THEN 1 ELSE 0]
Direction(x, prev) == IF x > prev THEN -1 ELSE 1
Update(t, s) ==
    LET ahead == s[1] > s[2]  before == t.lp > t.rp
        dl == Abs(s[1] - t.lp)  dr == Abs(s[2] - t.rp)
        c == IF ahead = before THEN <<0, 0>>
             ELSE IF dl > dr THEN <<Direction(s[1], t.lp), 0>> ELSE <<0, Direction(s[2], t.rp)>>
    IN [lp |-> s[1], rp |-> s[2], ml |-> t.ml + c[1], mr |-> t.mr + c[2]]
Tracked == <<tr.lp + tr.ml * n, tr.rp + tr.mr * n>>

Init == /\ n \in Sizes /\ x0 \in {o - 3 : o \in Origins}
        /\ \E l \in 0..(n-1), w \in 0..(IF Gen THEN n-2 ELSE n-1) : real = <<l, l + w>>
        /\ seen = <<>> /\ tr = [lp |-> 0, rp |-> 0, ml |-> 0, mr |-> 0]
        /\ hist = <<>>

Moves == (-(n \div 2))..(n \div 2)
Reachable(w) == /\ w[1] <= w[2] /\ w[2] - w[1] < (IF Gen THEN n - 1 ELSE n) /\ Abs(w[1]) <= Far * n
                /\ (seen = <<>> \/ Traceable(n, seen, w))
(* The droplet moves and a map is made of it, in which it may not touch the floor *)
Step == /\ Len(hist) < MaxSteps
        /\ \E w \in Pick({w \in {<<real[1] + a, real[2] + b>> : a \in Moves, b \in Moves} : Reachable(w)}),
              touch \in Pick(IF Gen THEN 1..4 ELSE 1..2) :
              LET on == touch # 2 IN
              /\ real' = w
              /\ seen' = IF on THEN w ELSE seen
              /\ tr' = IF ~on THEN tr
                       ELSE LET s == <<Pos(w[1]), Pos(w[2])>> IN IF seen = <<>> THEN Start(s) ELSE Update(tr, s)
              /\ hist' = IF Gen THEN Append(hist, <<IF on THEN 1 ELSE 0, w[1], w[2]>>) ELSE hist
              /\ UNCHANGED <<n, x0>>
Show == /\ Gen /\ Len(hist) = MaxSteps /\ n # 0 /\ n' = 0
        /\ PrintT("BEH " \o ToJson([n |-> n, x0 |-> x0, frames |-> hist]))
        /\ UNCHANGED <<x0, real, seen, tr, hist>>
Next == Step
GenNext == Step \/ Show
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

Exact == seen # <<>> =>
    LET d == Tracked[1] - (seen[1] + x0) IN d % n = 0 /\ Tracked[2] - (seen[2] + x0) = d
Right == seen # <<>> => Tracked[1] <= Tracked[2] /\ Tracked[2] - Tracked[1] < n
(* What is tracked is what the definition says *)
Closest == [][ (seen # <<>> /\ seen' # seen) =>
                 Follow(n, <<Tracked[1] - x0, Tracked[2] - x0>>, <<seen'[1] % n, seen'[2] % n>>)
                    = <<Tracked'[1] - x0, Tracked'[2] - x0>> ]_vars
=============================================================================
