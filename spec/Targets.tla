------------------------------- MODULE Targets ------------------------------
(* Which code a project gets, and where.  A workflow names the targets of the producer and of the     *)
(* consumer; every run writes, for each side, the code of each named target: into the destination     *)
(* itself when the side has one target, into a directory of the target's name when it has several.    *)
(* The state is what stands below the destinations after a history of runs with changing targets.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Walks, Steps, Full

Sides == {"p", "c"}
Langs == {"rust", "typescript"}
Picks == {<<"rust">>, <<"typescript">>, <<"rust", "typescript">>, <<"typescript", "rust">>}
Dirs == {".", "rust", "typescript"}
Manifest(l) == IF l = "rust" THEN "Cargo.toml" ELSE "package.json"

VARIABLES at,      \* at[side][dir]: the languages whose code stands there
          man,     \* man[side]: manifests that got the needed dependencies
          last,    \* the targets of the last run
          body,    \* which of the workflows (the rest of the text)
          walk, step
vars == <<at, man, last, body, walk, step>>

Dir(ts, l) == IF Len(ts) = 1 THEN "." ELSE l
Written(ts) == {<<Dir(ts, ts[i]), ts[i]>> : i \in 1..Len(ts)}
After(a, ts) == [d \in Dirs |-> a[d] \cup {x[2] : x \in {y \in Written(ts) : y[1] = d}}]

Init == /\ at = [s \in Sides |-> [d \in Dirs |-> {}]] /\ man = [s \in Sides |-> {}]
        /\ last = [s \in Sides |-> <<>>] /\ walk \in 1..(IF Full THEN 1 ELSE Walks) /\ body = walk /\ step = 0
Run(p, c) == LET t == [s \in Sides |-> IF s = "p" THEN p ELSE c] IN
  /\ last' = t
  /\ at' = [s \in Sides |-> After(at[s], t[s])]
  /\ man' = [s \in Sides |-> man[s] \cup {Manifest(l) : l \in Range(t[s])}]
  /\ step' = step + 1 /\ UNCHANGED <<walk, body>>
Wipe == /\ at' = [s \in Sides |-> [d \in Dirs |-> {}]] /\ man' = [s \in Sides |-> {}] /\ last' = [s \in Sides |-> <<>>]
        /\ step' = step + 1 /\ UNCHANGED <<walk, body>>
Pick(s) == RandomElement(IF step >= 0 THEN s ELSE {})
All == {<<p, c>> : p \in Picks, c \in Picks}
\* the first run of a walk goes through all the choices, the rest is random
Order == TLCEval(SetToSeq(All))
Wide == IF step = 0 THEN LET x == Order[((walk - 1) % Cardinality(All)) + 1] IN Run(x[1], x[2])
        ELSE LET x == TLCEval(Pick(1..6)) c == TLCEval(Pick(All)) IN IF x = 1 THEN Wipe ELSE Run(c[1], c[2])
Next == IF Full THEN step < 3 /\ (Wipe \/ \E x \in All : Run(x[1], x[2]))
        ELSE step < Steps /\ Wide /\ PrintT(ToJson([walk |-> walk, step |-> step', last |-> last', at |-> at', man |-> man']))
Spec == Init /\ [][Next]_vars

\* every named target is there, in one place; a side knows nothing of the other one
Named == \A s \in Sides : \A i \in 1..Len(last[s]) : last[s][i] \in at[s][Dir(last[s], last[s][i])]
Only == [][\A s \in Sides, d \in Dirs : at'[s][d] \ at[s][d] \subseteq {x[2] : x \in {y \in Written(last'[s]) : y[1] = d}}]_vars
Apart == [][last'["p"] # <<>> => \A s \in Sides : at'[s] = After(at[s], last'[s])]_vars
Own == \A s \in Sides : \A l \in Langs : (\E d \in Dirs : l \in at[s][d]) <=> Manifest(l) \in man[s]
=============================================================================
