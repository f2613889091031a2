------------------------------- MODULE MC_Cli -------------------------------
(* Every command with sets of its options.  The states are command lines; the    *)
(* invariants say that the words of a command line determine its library call,   *)
(* with every keyword once, changed only by its own options.  In a generating    *)
(* run every state is printed for the driver, which runs it.                     *)
EXTENDS Cli
CONSTANTS MaxGiven, Random, Gen
VARIABLES cmd, given, perm, free
vars == <<cmd, given, perm, free>>

C(k) == Commands[k]
Nothing(c) == [q \in DOMAIN c.options |-> <<>>]
Given(g) == {q \in DOMAIN g : g[q] # <<>>}
SortedOf(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Orders(S) == IF Random > 0 /\ RandomElement(0..1) = 1 THEN Reverse(SortedOf(S)) ELSE SortedOf(S)
Behaviour(k, g, p) ==
    [cmd |-> C(k).name, argv |-> Argv(C(k), g, p), fn |-> C(k).fn, args |-> C(k).args, kwargs |-> Keywords(C(k), g),
     works |-> IF Works(C(k), g) THEN 1 ELSE 0, print |-> C(k).print]
Emit(k, g, p) == ~Gen \/ PrintT("BEH " \o ToJson(Behaviour(k, g, p)))

Init == cmd = 0 /\ given = <<>> /\ perm = <<>> /\ free = 0
Choose == /\ cmd = 0 /\ cmd' \in DOMAIN Commands /\ given' = Nothing(C(cmd')) /\ perm' = <<>> /\ free' = 1
          /\ Emit(cmd', given', perm')
(* Options are given one at a time, in the order of the table *)
Give == /\ cmd # 0 /\ free > 0 /\ Cardinality(Given(given)) < MaxGiven
        /\ \E q \in free..Len(given) : \E w \in C(cmd).options[q].give :
             /\ given' = [given EXCEPT ![q] = w] /\ free' = q + 1
             /\ perm' = Orders(Given(given'))
             /\ Emit(cmd, given', perm')
        /\ UNCHANGED cmd
(* Many options at once; more of them for commands that draw nothing *)
Cheap == {"average", "convert", "spreading collect", "interface collect", "contact-line collect", "contact-line sample", "contact-line sample more", "sample", "sample more"}
RECURSIVE RandomWays(_, _)
RandomWays(os, p) ==
    IF os = <<>> THEN <<>> ELSE <<IF RandomElement(1..100) <= p THEN RandomElement(Head(os).give) ELSE <<>>>> \o RandomWays(Tail(os), p)
GiveMany == /\ cmd # 0 /\ given = Nothing(C(cmd))
            /\ \E r \in 1..(IF C(cmd).name \in Cheap THEN 4 * Random ELSE Random) :
                 /\ given' = RandomWays(C(cmd).options, RandomElement({15, 30, 60}))
                 /\ perm' = Orders(Given(given')) /\ free' = 0
                 /\ Emit(cmd, given', perm')
            /\ UNCHANGED cmd
Next == Choose \/ Give \/ GiveMany
Spec == Init /\ [][Next]_vars

Keys(k, g) == [q \in DOMAIN Keywords(C(k), g) |-> Keywords(C(k), g)[q][1]]
OnceEach == cmd # 0 => LET K == Keys(cmd, given) IN Cardinality({K[q] : q \in DOMAIN K}) = Len(K)
(* The keywords which differ from the defaults are those of options that were given *)
OnlyGiven ==
    cmd # 0 =>
    LET A == {Keywords(C(cmd), given)[q] : q \in 1..Len(Keywords(C(cmd), given))}
        B == {Keywords(C(cmd), Nothing(C(cmd)))[q] : q \in 1..Len(Keywords(C(cmd), Nothing(C(cmd))))}
    IN \A p \in (A \ B) \cup (B \ A) : \E q \in Given(given) : C(cmd).options[q].key = p[1]
(* A given option is in the call, unless a later one of the same keyword is given *)
Effective ==
    cmd # 0 =>
    \A q \in Given(given) :
       \/ \E r \in Given(given) : r > q /\ C(cmd).options[r].key = C(cmd).options[q].key
       \/ \E r \in 1..Len(Keywords(C(cmd), given)) : Keywords(C(cmd), given)[r] = <<C(cmd).options[q].key, given[q][2]>>
(* No flag belongs to two keywords, and every option can change something *)
Flags(o) == {w[1][1] : w \in o.give}
TableOk ==
    cmd = 0 =>
    \A k \in DOMAIN Commands : \A a, b \in DOMAIN C(k).options :
       /\ a # b => Flags(C(k).options[a]) \cap Flags(C(k).options[b]) = {}
       /\ Cardinality({C(k).options[a].def} \cup {w[2] : w \in C(k).options[a].give}) > 1 \/ C(k).options[a].key = "colorbar"
=============================================================================
