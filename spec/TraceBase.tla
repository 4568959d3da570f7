------------------------------ MODULE TraceBase ------------------------------
(* Conformance of recorded executions with an object specification, by the subset construction: S is the set of all   *)
(* specification states that explain the execution so far.  One TLC run judges a whole file of executions (one JSON   *)
(* object per line: cfg = its configuration, ev = its events); Explained fails at the first event that no behaviour   *)
(* of the specification explains.                                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json
CONSTANTS InitSet(_),    \* configuration |-> set of initial specification states
          Post(_, _)     \* set of specification states, event |-> set of specification states
VARIABLES h, i, S
vars == <<h, i, S>>
H == ndJsonDeserialize(IOEnv.TRACE)
Init == /\ h \in DOMAIN H
        /\ i = 1
        /\ S = InitSet(H[h].cfg)
Next == /\ S # {}
        /\ i <= Len(H[h].ev)
        /\ S' = Post(S, H[h].ev[i])
        /\ i' = i + 1
        /\ UNCHANGED h
Spec == Init /\ [][Next]_vars
Explained == S # {}
NeverExplained == i > Len(H[h].ev) => S = {}   \* used with falsified executions: each must be rejected
\* what is printed with a counterexample
Alias == [history |-> h, event |-> i, explained_by |-> Cardinality(S),
          next |-> IF i <= Len(H[h].ev) THEN H[h].ev[i] ELSE "end"]
==============================================================================
