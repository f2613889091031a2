------------------------------ MODULE T_Curves ------------------------------
(* Validation of recorded readings, views and fits of spreading curves.          *)
EXTENDS Curves, TraceLib

(* Curves recorded from the implementation: sequences of <<time, radius>>       *)
SameCurves(out, want, tol) ==
    /\ Len(out) = Len(want)
    /\ \A k \in DOMAIN want : /\ Len(out[k]) = Len(want[k])
                              /\ \A q \in DOMAIN want[k] : Near(out[k][q][1], want[k][q][1], tol) /\ Near(out[k][q][2], want[k][q][2], tol)
AllCurves(e) == Concat([f \in DOMAIN e.files |-> CurvesIn(e.files[f])])

ViewFaults(e) ==
    LET read == TLCEval(AllCurves(e))
        n == Len(read)
        fac(s, k) == s[IF Len(s) = 1 THEN 1 ELSE k]
        scaled == TLCEval([k \in 1..n |-> ScaleCurve(read[k], e.unit, fac(e.tau, k), fac(e.R, k))])
        want == TLCEval(IF e.sync[1] = 1 /\ n > 0 THEN Synced(scaled, e.sync[2]) ELSE scaled)
        given == n > 0 /\ (Len(e.tau) \in {1, n} /\ Len(e.R) \in {1, n} /\ \A k \in 1..n : read[k] # <<>>)
        asRead == TLCEval([k \in 1..n |-> ScaleCurve(read[k], e.unit, <<1, 1>>, <<1, 1>>)])
    IN Clause("Read", e.read = <<>> \/ SameCurves(e.read[1], asRead, 1)) \cup
       Clause("Names", \A q \in DOMAIN e.names : e.names[q] = NamesOf(e.files)) \cup
       (IF ~given THEN {} ELSE
       Clause("Error", e.exc = "") \cup
       Clause("Saved", e.saved = <<>> \/ SameCurves(e.saved[1], want, 2)) \cup
       Clause("ReadBack", e.back = <<>> \/ SameCurves(e.back[1], want, 2)) \cup
       Clause("Drawn", e.drawn = <<>> \/ SameCurves(e.drawn[1], want, 2)))

---------------------------------------------------------------------------
(* Here curves are points <<t, x, y>> (see Curves), and what was written or      *)
(* drawn are rows <<t, log2 of the value times 1000>>.                           *)
FitFaults(e) ==
    LET n == Len(e.curves)
        F == TLCEval([k \in 1..n |-> ToFit(e.curves[k], e.lims)])
        proper(k) == Cardinality({e.curves[k][q][2] : q \in F[k]}) > 1 /\ \A q \in F[k] : e.curves[k][q][2] # BAD /\ e.curves[k][q][3] # BAD
        allProper == TLCEval(\A k \in 1..n : proper(k))
        f == TLCEval(IF allProper THEN [k \in 1..n |-> Fit(e.curves[k], F[k])] ELSE <<>>)
        value(k, x) == ((f[k][3] + Cardinality(F[k]) * f[k][1] * x) * 1000) \div f[k][4]
        (* the saved numbers have six decimals: small values are not judged *)
        fitted(k, out) ==
            LET c == e.curves[k]  S == SortSet(Chosen(c, e.outlims)) IN
            /\ Len(out) = Len(S)
            /\ \A q \in DOMAIN S : LET p == c[S[q]] IN
                 /\ out[q][1] = p[1]
                 /\ p[2] = BAD \/ LET y == value(k, p[2]) IN ~(y \in -8000..19000) \/ Near(out[q][2], y, 3)
        data(k, out) ==
            LET c == e.curves[k] IN
            /\ Len(out) = Len(c)
            /\ \A q \in DOMAIN c : out[q][1] = c[q][1] /\ (c[q][3] = BAD \/ Near(out[q][2], 1000 * c[q][3], 2))
    IN IF ~allProper THEN {} ELSE
       Clause("Error", e.exc = "") \cup
       Clause("Pairs", Len(e.out) = n) \cup
       (IF Len(e.out) # n THEN {} ELSE
        Clause("Index", \A k \in 1..n : NearRat(e.out[k][2], f[k][1], f[k][2], 1000, 1)) \cup
        Clause("Amplitude", \A k \in 1..n : (e.printed = 1 /\ f[k][3] < -8 * f[k][4]) \/ NearRat(e.out[k][1], f[k][3], f[k][4], 1000, 1))) \cup
       Clause("Saved", e.saved = <<>> \/ (Len(e.saved[1]) = n /\ \A k \in 1..n : fitted(k, e.saved[1][k]))) \cup
       Clause("Drawn", e.drawn = <<>> \/ (Len(e.drawn[1]) = 2*n /\ \A k \in 1..n : data(k, e.drawn[1][2*k - 1]) /\ fitted(k, e.drawn[1][2*k])))

Verdict(e) == CASE e.k = "view" -> ViewFaults(e)
                [] e.k = "fit"  -> FitFaults(e)
                [] OTHER -> {"UnknownEvent"}

VARIABLE i
TraceInit == i = 1
TraceNext == /\ i <= Len(Trace)
             /\ At(i) /\ Report(i, Verdict(Trace[i])) /\ Consumed(i)
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
