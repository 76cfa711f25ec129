-------------------------------- MODULE Cli ---------------------------------
(* The command line: what a command does to its destinations.  The state is what stands at each      *)
(* destination; a step is one command.                                                               *)
(*   file content  "absent", "user" (some text), or the output for given inputs:                     *)
(*                 [p: protocol, w: workflow or "", e: embedded]                                     *)
(*   code          the directories of producer and consumer: "absent", or [p, w]                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS Walks, Steps,
          Sound,     \* TRUE: walks of commands that have to succeed
          Full       \* TRUE: all the commands on every state, few values

Dests == {"rs", "ts", "puml"}
Nil == [p |-> "", w |-> "", e |-> FALSE]
Absent == [k |-> "absent", p |-> "", w |-> "", e |-> FALSE]
User == [k |-> "user", p |-> "", w |-> "", e |-> FALSE]
Out(p, w, e) == [k |-> "out", p |-> p, w |-> w, e |-> e]

\* values of options: "none" the option is not given, "bare" it is given without a value,
\* "missing" the file does not exist, "bad" the file is refused, other values: sound files
Sources == {"none", "bare", "missing", "bad", "v1", "v2"}
SoundSrc == {"v1", "v2"}
Gives == {"none", "bare", "given"}
Extras == {"none", "unknown", "word"}

VARIABLES file, code, walk, step, last
vars == <<file, code, walk, step, last>>

\* a command: [s, wf: Sources, rs, ts, puml, cd, pd: Gives, o, e: BOOLEAN, extra: Extras]
Given(c, d) == c[d] = "given"
ArgError(c) ==
  \/ c.extra # "none"
  \/ \E x \in {"s", "wf", "rs", "ts", "puml", "cd", "pd"} : c[x] = "bare"
  \/ c.s = "missing" \/ c.wf = "missing"
  \/ ~c.o /\ \E d \in Dests : Given(c, d) /\ file[d].k # "absent"
Fails(c) ==
  \/ ArgError(c)
  \/ c.s \in {"none", "bad"}
  \/ c.wf = "bad"
  \/ Given(c, "puml") /\ c.wf = "none"
  \/ c.wf \in SoundSrc /\ ~Given(c, "puml") /\ ~(Given(c, "cd") /\ Given(c, "pd"))
W(c) == IF c.wf \in SoundSrc THEN c.wf ELSE ""
After(c) == [d \in Dests |-> IF Fails(c) \/ ~Given(c, d) THEN file[d]
                             ELSE IF d = "puml" THEN Out(c.s, c.wf, FALSE)
                             ELSE Out(c.s, W(c), c.e)]
CodeAfter(c) == IF Fails(c) \/ c.wf \notin SoundSrc \/ Given(c, "puml") THEN code ELSE [p |-> c.s, w |-> c.wf]
Do(c) == /\ file' = After(c) /\ code' = CodeAfter(c)
         /\ last' = [o |-> "command", c |-> c, ok |-> ~Fails(c)]
\* someone puts a text at a destination, or removes what is there
Place(d) == file' = [file EXCEPT ![d] = User] /\ last' = [last EXCEPT !.o = "place " \o d] /\ UNCHANGED code
Remove(d) == file[d].k # "absent" /\ file' = [file EXCEPT ![d] = Absent] /\ last' = [last EXCEPT !.o = "remove " \o d] /\ UNCHANGED code
Clear == code' = [p |-> "", w |-> ""] /\ last' = [last EXCEPT !.o = "clear"] /\ UNCHANGED file

NoCmd == [s |-> "none", wf |-> "none", rs |-> "none", ts |-> "none", puml |-> "none", cd |-> "none", pd |-> "none", o |-> FALSE, e |-> FALSE, extra |-> "none"]
Init == /\ file = [d \in Dests |-> Absent] /\ code = [p |-> "", w |-> ""]
        /\ walk \in 1..(IF Full THEN 1 ELSE Walks) /\ step = 0
        /\ last = [o |-> "start", c |-> NoCmd, ok |-> TRUE]

Commands == [s : Sources \ {"v2"}, wf : Sources \ {"v2"}, rs : Gives, ts : {"none", "given"}, puml : {"none", "given"}, cd : {"none", "given"}, pd : {"none", "given"}, o : BOOLEAN, e : {FALSE}, extra : {"none", "unknown"}]
FullNext == /\ (\E c \in Commands : Do(c)) \/ (\E d \in Dests : Place(d)) \/ Clear
            /\ UNCHANGED <<walk, step>>

Pick(s) == RandomElement(IF step >= 0 THEN s ELSE {})
\* v with a chance of n in ten, else one of s
Mostly(v, n, s) == IF Pick(1..10) <= n THEN v ELSE Pick(s)
RandomCommand ==
  LET sound == TLCEval(Pick(SoundSrc))
      wsound == TLCEval(Pick(SoundSrc))
      \* all but a few commands have at most one thing wrong
      wrong == TLCEval(IF Sound THEN {} ELSE Mostly({Pick({"s", "wf", "rs", "ts", "puml", "cd", "pd", "extra", "-", "-", "-"})}, 8, {{"s", "rs"}, {"wf", "ts"}, {"extra", "s"}, {"cd", "wf"}}))
      useW == TLCEval(Pick(1..3) > 1)
      dia == TLCEval(useW /\ Pick(1..2) = 1)
      opt(x, given) == IF x \in wrong THEN Pick({"bare", "bare", IF given THEN "none" ELSE "given"}) ELSE IF given THEN "given" ELSE "none"
  IN [s |-> TLCEval(IF "s" \in wrong THEN Pick(Sources) ELSE sound),
      wf |-> TLCEval(IF "wf" \in wrong THEN Pick(Sources) ELSE IF useW THEN wsound ELSE "none"),
      rs |-> TLCEval(opt("rs", Pick(1..2) = 1)), ts |-> TLCEval(opt("ts", Pick(1..2) = 1)), puml |-> TLCEval(opt("puml", dia)),
      cd |-> TLCEval(opt("cd", useW)), pd |-> TLCEval(opt("pd", useW)),
      o |-> TLCEval(IF Sound THEN TRUE ELSE Pick(BOOLEAN)), e |-> TLCEval(Pick(BOOLEAN)),
      extra |-> TLCEval(IF "extra" \in wrong THEN Pick(Extras) ELSE "none")]
WideNext ==
  /\ step < Steps /\ step' = step + 1 /\ UNCHANGED walk
  /\ LET x == TLCEval(Pick(1..10)) d == TLCEval(Pick(Dests)) c == TLCEval(RandomCommand)
     IN IF x = 1 THEN Place(d) ELSE IF x = 2 /\ file[d].k # "absent" THEN Remove(d) ELSE IF x = 3 THEN Clear ELSE Do(c)
  /\ PrintT(ToJson([walk |-> walk, step |-> step, last |-> last', file |-> file', code |-> code']))
Next == IF Full THEN FullNext ELSE WideNext
Spec == Init /\ [][Next]_vars
View == IF Full THEN <<file, code>> ELSE <<file, code, walk, step, last>>

\* ---- properties
Commanded == last'.o = "command"
\* without consent nothing that stands at a destination is touched
NoConsent == [][(Commanded /\ ~last'.c.o) => \A d \in Dests : file[d].k # "absent" => file'[d] = file[d]]_vars
\* a command that fails leaves every destination as it was
AllOrNothing == [][(Commanded /\ ~last'.ok) => (file' = file /\ code' = code)]_vars
\* what a command that succeeds leaves at its destinations depends on the command alone
Functional == [][(Commanded /\ last'.ok) => \A d \in Dests : Given(last'.c, d) => (file'[d].k = "out" /\ file'[d].p = last'.c.s /\ file'[d].w = W(last'.c))]_vars
\* nothing but the destinations of the command changes
Others == [][Commanded => \A d \in Dests : ~Given(last'.c, d) => file'[d] = file[d]]_vars
=============================================================================
