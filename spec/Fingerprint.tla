----------------------------- MODULE Fingerprint ----------------------------
(* Sources that change over time, and the projects generated from them.  A source is the value of    *)
(* its slots: places of the text where it can differ (spaces, letters of a comment, line ends, a      *)
(* name, what stands beyond many kilobytes, ...).  Two projects are compatible when both of their     *)
(* fingerprints agree; that has to be so exactly when they came from equal sources.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS PSlots, WSlots,   \* slots of the protocol and of the workflow
          Vals,             \* values of a slot: 0..Vals-1
          Walks, Steps, Full

VARIABLES p, w, projects, walk, step
vars == <<p, w, projects, walk, step>>
Base(n) == [i \in 1..n |-> 0]
Sides == {"p", "c"}
Langs == {"rust", "typescript"}
\* where and how: directory, time and name of the sources do not matter
Places == 0..5

\* a fingerprint stands for the text; the model keeps the text itself
Generate(side, lang, place) ==
  projects' = Append(projects, [side |-> side, lang |-> lang, place |-> place, p |-> p, w |-> w])
Compatible(a, b) == a.p = b.p /\ a.w = b.w

Init == /\ p = Base(PSlots) /\ w = Base(WSlots) /\ projects = <<>>
        /\ walk \in 1..(IF Full THEN 1 ELSE Walks) /\ step = 0
EditP(i, v) == p' = [p EXCEPT ![i] = v] /\ UNCHANGED <<w, projects>>
EditW(i, v) == w' = [w EXCEPT ![i] = v] /\ UNCHANGED <<p, projects>>

FullNext == /\ Len(projects) < 2
            /\ \/ \E i \in 1..PSlots, v \in 0..Vals - 1 : EditP(i, v)
               \/ \E i \in 1..WSlots, v \in 0..Vals - 1 : EditW(i, v)
               \/ \E s \in Sides : Generate(s, "rust", 0) /\ UNCHANGED <<p, w>>
            /\ UNCHANGED <<walk, step>>
Pick(s) == RandomElement(IF step >= 0 THEN s ELSE {})
Rand == LET x == TLCEval(Pick(1..8)) i == TLCEval(Pick(1..PSlots)) j == TLCEval(Pick(1..WSlots)) v == TLCEval(Pick(0..Vals - 1))
            s == TLCEval(Pick(Sides)) l == TLCEval(Pick(Langs)) c == TLCEval(Pick(Places))
        IN IF step % 3 = 0 \/ x > 6 THEN Generate(s, l, c) /\ UNCHANGED <<p, w>>
           ELSE IF x = 1 THEN p' = Base(PSlots) /\ w' = Base(WSlots) /\ UNCHANGED projects   \* back to the first version
           ELSE IF x = 2 THEN p' = [p EXCEPT ![i] = (@ + 1) % Vals] /\ w' = [w EXCEPT ![j] = (@ + 1) % Vals] /\ UNCHANGED projects
           ELSE IF x \in 3..4 THEN EditP(i, v) ELSE EditW(j, v)
WideNext == /\ step < Steps /\ step' = step + 1 /\ UNCHANGED walk
            /\ Rand
            /\ step' = Steps => PrintT(ToJson([walk |-> walk, projects |-> projects']))
Next == IF Full THEN FullNext ELSE WideNext
Spec == Init /\ [][Next]_vars

\* compatibility is an equivalence, and an edit that changes a source ends it
Equivalence == \A i, j \in 1..Len(projects) :
  /\ Compatible(projects[i], projects[i])
  /\ Compatible(projects[i], projects[j]) <=> Compatible(projects[j], projects[i])
EditEnds == [][(projects' # projects /\ projects # <<>>) =>
                 (Compatible(projects[Len(projects)], projects'[Len(projects')]) <=> (projects[Len(projects)].p = p /\ projects[Len(projects)].w = w))]_vars
=============================================================================
