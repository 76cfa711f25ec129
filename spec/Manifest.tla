------------------------------ MODULE Manifest -------------------------------
(* What a run of the generator does to the manifests of the user's project (Cargo.toml of Rust code,  *)
(* package.json of TypeScript code).  The code of a target belongs to the nearest manifest at or above *)
(* the directory it is written to.  This manifest gets the dependencies that the code needs; nothing   *)
(* else in it changes, and no other manifest does.  Without a manifest, or with one that cannot be     *)
(* read, the run fails.                                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Walks, Steps, Full, Wide

Sides == {"p", "c"}
Langs == {"rust", "typescript"}
Picks == {<<"rust">>, <<"typescript">>, <<"rust", "typescript">>, <<"typescript", "rust">>}
\* the directories that may hold a manifest, outermost first
Above(s, ts, l) == IF Len(ts) = 1 THEN <<"root", "app", s, s \o "/out">> ELSE <<"root", "app", s, s \o "/out", s \o "/out/" \o l>>
Places == IF Wide THEN {"root", "app", "p", "c", "p/out", "c/out", "p/out/rust", "p/out/typescript", "c/out/rust", "c/out/typescript"} ELSE {"app", "p", "c/out"}
Kinds == {"none", "plain", "nodeps", "old", "bad"}
Names == {"own",      \* a dependency of the user
          "both",     \* what the code of either side needs
          "more"}     \* what only the producer's Rust code needs
\* a dependency is written by nobody ({}), the user, or by a run for one or both sides
Fresh(k) == [n \in Names |-> IF (k \in {"plain", "old"} /\ n = "own") \/ (k = "old" /\ n = "both") THEN {"user"} ELSE {}]

VARIABLES m,          \* m[place][language]: its kind and what is among its dependencies
          ran,        \* the last run: its targets and whether it succeeded (<<>>: the user edited)
          walk, step
vars == <<m, ran, walk, step>>

At(d, l) == IF d \in Places THEN m[d][l].kind ELSE "none"
Nearest(s, ts, l) == LET a == Above(s, ts, l) i == {j \in 1..Len(a) : At(a[j], l) # "none"}
                     IN IF i = {} THEN "" ELSE a[CHOOSE j \in i : \A k \in i : k <= j]
Users(d, l, t) == {s \in Sides : l \in Range(t[s]) /\ Nearest(s, t[s], l) = d}
Ok(t) == \A s \in Sides : \A l \in Range(t[s]) : LET d == Nearest(s, t[s], l) IN IF d = "" THEN FALSE ELSE At(d, l) # "bad"
Written(deps, l, ss) == IF ss = {} THEN deps
                        ELSE [deps EXCEPT !["both"] = ss, !["more"] = IF l = "rust" /\ "p" \in ss THEN {"p"} ELSE @]
After(t) == [d \in Places |-> [l \in Langs |-> [m[d][l] EXCEPT !.deps = Written(@, l, Users(d, l, t))]]]

Init == /\ m \in [Places -> [Langs -> {[kind |-> k, deps |-> Fresh(k)] : k \in {"none"}}]]
        /\ ran = <<>> /\ walk \in 1..(IF Full THEN 1 ELSE Walks) /\ step = 0
Edit(d, l, k) == /\ m' = [m EXCEPT ![d][l] = [kind |-> k, deps |-> Fresh(k)]]
                 /\ ran' = <<>> /\ step' = step + 1 /\ UNCHANGED walk
\* after a run that failed the user takes his manifests back from his repository
Run(p, c) == LET t == [s \in Sides |-> IF s = "p" THEN p ELSE c] IN
  /\ m' = IF Ok(t) THEN After(t) ELSE m
  /\ ran' = <<p, c, IF Ok(t) THEN "ok" ELSE "failed">>
  /\ step' = step + 1 /\ UNCHANGED walk
Pick(s) == RandomElement(IF step >= 0 THEN s ELSE {})
Random == LET x == TLCEval(Pick(1..10)) IN
  IF step = 0 THEN Edit("app", Pick(Langs), Pick({"plain", "nodeps", "old"}))
  ELSE IF step = 1 THEN LET l == CHOOSE l \in Langs : m["app"][l].kind = "none" IN Edit("app", l, Pick({"plain", "nodeps", "old", "none"}))
  ELSE IF x <= 4 THEN Edit(Pick(Places), Pick(Langs), Pick(Kinds))
  ELSE IF x = 5 THEN Edit("app", Pick(Langs), Pick({"plain", "nodeps", "old"}))
  ELSE Run(Pick(Picks), Pick(Picks))
Next == IF Full THEN step < Steps /\ ((\E d \in Places, l \in Langs, k \in Kinds : Edit(d, l, k)) \/ \E p, c \in Picks : Run(p, c))
        ELSE step < Steps /\ Random /\ PrintT(ToJson([walk |-> walk, step |-> step', ran |-> ran', m |-> [d \in Places |-> [l \in Langs |->
               [kind |-> m'[d][l].kind, deps |-> [n \in Names |-> SetToSeq(m'[d][l].deps[n])]]]],
               near |-> [s \in Sides |-> IF ran' = <<>> THEN [l \in Langs |-> ""] ELSE [l \in Langs |-> LET ts == IF s = "p" THEN ran'[1] ELSE ran'[2] IN IF l \in Range(ts) THEN Nearest(s, ts, l) ELSE ""]]]))
Spec == Init /\ [][Next]_vars
View == <<m, ran, walk, step>>

\* a run changes nothing of the user's, and nothing that is not the nearest manifest of a named target
Kept == [][ran' # <<>> => \A d \in Places, l \in Langs : /\ m'[d][l].kind = m[d][l].kind /\ m'[d][l].deps["own"] = m[d][l].deps["own"]
                                                         /\ (m'[d][l] # m[d][l] => m[d][l].kind \notin {"none", "bad"})]_vars
Only == [][ran' # <<>> => \A d \in Places, l \in Langs : (m'[d][l] # m[d][l] => Users(d, l, [s \in Sides |-> IF s = "p" THEN ran'[1] ELSE ran'[2]]) # {})]_vars
\* after a successful run the code of every named target finds what it needs
Found == (IF ran = <<>> THEN TRUE ELSE ran[3] = "failed") \/
         \A s \in Sides : LET ts == IF s = "p" THEN ran[1] ELSE ran[2] IN \A l \in Range(ts) : LET d == Nearest(s, ts, l) IN
           /\ s \in m[d][l].deps["both"]
           /\ (l = "rust" /\ s = "p" => m[d][l].deps["more"] = {"p"})
\* the same run again changes nothing
Again == IF ran = <<>> THEN TRUE ELSE IF ran[3] = "failed" THEN TRUE ELSE After([s \in Sides |-> IF s = "p" THEN ran[1] ELSE ran[2]]) = m
=============================================================================
