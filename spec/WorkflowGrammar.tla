-------------------------- MODULE WorkflowGrammar --------------------------
(* The workflow language as an automaton over tokens.                                                *)
(*                                                                                                   *)
(*   Source  = { Config | Request | Event | Beacons }        exactly one Config, at any place        *)
(*   Config  = "&config" "{" { Key ":" Path ";" | Side ":" Target { Target } ";" } "}"               *)
(*             Key: SelfKey, AssignedKey; Side: Producer, Consumer; each at most once, both sides     *)
(*   Request = Path "!" Path "{" Action { Action } "}"     more than one action: all with a conclusion *)
(*   Action  = "(" Path ")" ";"                                                                      *)
(*           | "(" Name ">" Path ")" ( ";" | Cast { Cast } )                                         *)
(*   Cast    = ">" Path [ "?" ] ";"                                                                  *)
(*   Event   = "@" Path "{" Cast { Cast } "}"              also "@connected" and "@disconnected"     *)
(*   Beacons = "@beacons" "{" ">" Path ";" { ">" Path ";" } "}"                                      *)
(*                                                                                                   *)
(* Words: W is a fresh message, defined by the protocol at the top level and inside of group Gr, U   *)
(* is a fresh name nobody defines.  Path is W or Gr.W.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxToks,   \* length of a prefix
          Hist       \* how many tokens of history distinguish two states

Keys    == {"SelfKey", "AssignedKey"}
Sides   == {"Producer", "Consumer"}
Targets == {"rust", "typescript"}
Words   == {"W", "Gr", "U"}
Names   == Words \cup Keys \cup Sides \cup Targets
Heads   == {"@W", "@Gr", "@U", "@connected", "@disconnected", "@beacons", "&config"}
Punct   == {"{", "}", "(", ")", ";", ":", "?", ".", ">", "!"}
Broken  == {"0N", "$", "N-N", "[", "~", "@", "&", "N@"}       \* digit first, illegal characters; ~ a non ascii character
Tokens  == Names \cup Heads \cup Punct \cup Broken

VARIABLES toks, st, hist
vars == <<toks, st, hist>>

\* mode: what is being read; path: words of the path being read; cfg: a configuration has been read; defs: default events
\* declared; keys: keys of the configuration being read; n: actions of the request being read (2 stands for more), bare: the
\* one without a conclusion; conc: the action being read has a conclusion
Start == [mode |-> "decls", path |-> <<>>, cfg |-> FALSE, defs |-> {}, keys |-> {}, n |-> 0, bare |-> FALSE, conc |-> FALSE]
mode == st.mode

Known(p) == p \in { <<"W">>, <<"Gr", "W">> }
EvKnown(p) == Known(p) \/ p \in { <<"connected">>, <<"disconnected">> }

\* a path is remembered only as far as it matters: K is any word of the configuration
CanBe(p) == p = <<>> \/ Known(p) \/ p = <<"Gr">>
Norm(p) == IF CanBe(p) THEN p ELSE IF Len(p) > 1 THEN <<"U", "U">> ELSE IF p[1] \in Words \cup {"connected", "disconnected"} THEN p ELSE <<"K">>

Step(s, t) ==
  LET mo == s.mode
      go(m) == [s EXCEPT !.mode = m, !.path = <<>>]
      keep(m) == [s EXCEPT !.mode = m]
      bad == [Start EXCEPT !.mode = "bad"]
      unspecified == [Start EXCEPT !.mode = "open"]
      word(m) == IF t \in Names THEN [s EXCEPT !.mode = m, !.path = Norm(Append(@, t))] ELSE bad
      target == [s EXCEPT !.mode = "svals", !.path = Append(@, t)]
      start(m, p) == [s EXCEPT !.mode = m, !.path = p]
      done == [s EXCEPT !.mode = "decls", !.path = <<>>, !.n = 0, !.bare = FALSE, !.conc = FALSE, !.keys = {}]
      action == [s EXCEPT !.path = <<>>, !.n = IF @ = 2 THEN 2 ELSE @ + 1, !.bare = ~s.conc, !.conc = FALSE]
      endOf(m) == [action EXCEPT !.mode = m]
  IN IF mo \in {"bad", "open"} THEN s ELSE IF t \in Broken THEN bad ELSE
  CASE mo = "decls" ->
         CASE t \in Names -> start("req", Norm(<<t>>))
           [] t = "&config" -> IF s.cfg THEN bad ELSE go("cfg{")
           [] t = "@beacons" -> go("bcn{")
           [] t = "@W" -> start("evt", <<"W">>)
           [] t = "@Gr" -> start("evt", <<"Gr">>)
           [] t = "@U" -> start("evt", <<"U">>)
           [] t = "@connected" -> start("evt", <<"connected">>)
           [] t = "@disconnected" -> start("evt", <<"disconnected">>)
           [] OTHER -> bad
    \* configuration
    [] mo = "cfg{" -> IF t = "{" THEN go("cfg") ELSE bad
    [] mo = "cfg" ->
         IF t \in (Keys \cup Sides) \ s.keys THEN start("key", <<t>>)
         ELSE IF t = "}" /\ Sides \subseteq s.keys THEN [done EXCEPT !.cfg = TRUE] ELSE bad
    [] mo = "key" -> IF t = ":" THEN [s EXCEPT !.mode = IF s.path[1] \in Keys THEN "kval" ELSE "sval", !.keys = @ \cup {s.path[1]}, !.path = <<>>] ELSE bad
    [] mo = "sval" -> IF t \in Targets THEN target ELSE bad
    [] mo = "svals" -> IF t = ";" THEN go("cfg") ELSE IF t \in Targets /\ t \notin Range(s.path) THEN target ELSE bad
    [] mo = "kval" -> word("kvals")
    [] mo = "kvals" -> IF t = "." THEN keep("kval") ELSE IF t = ";" /\ Known(s.path) THEN go("cfg") ELSE bad
    \* request
    [] mo = "req" -> IF t = "." THEN keep("req.") ELSE IF t = "!" /\ Known(s.path) THEN go("err.") ELSE bad
    [] mo = "req." -> word("req")
    [] mo = "err." -> word("err")
    [] mo = "err" -> IF t = "." THEN keep("err.") ELSE IF t = "{" /\ Known(s.path) THEN go("act(") ELSE bad
    [] mo = "act(" -> IF t = "(" /\ ~s.bare THEN go("act.") ELSE IF t = "}" /\ s.n > 0 THEN done ELSE bad
    [] mo = "act." -> word("act")
    [] mo = "act" ->
         IF t = "." THEN keep("act.")
         ELSE IF t = ")" THEN (IF Known(s.path) /\ s.n = 0 THEN go("acted") ELSE bad)
         ELSE IF t = ">" THEN (IF Len(s.path) > 1 THEN bad ELSE IF s.path[1] \notin {"W", "U"} THEN unspecified ELSE [go("resp.") EXCEPT !.conc = TRUE])
         ELSE bad
    [] mo = "resp." -> word("resp")
    [] mo = "resp" -> IF t = "." THEN keep("resp.") ELSE IF t = ")" /\ Known(s.path) THEN go("acted") ELSE bad
    [] mo = "acted" -> IF t = ";" THEN endOf("act(") ELSE IF t = ">" THEN (IF s.conc THEN go("bc.") ELSE unspecified) ELSE bad
    [] mo = "bc." -> word("bc")
    [] mo = "bc" -> IF t = "." THEN keep("bc.") ELSE IF ~Known(s.path) THEN bad ELSE IF t = "?" THEN go("bc?") ELSE IF t = ";" THEN go("bcs") ELSE bad
    [] mo = "bc?" -> IF t = ";" THEN go("bcs") ELSE bad
    [] mo = "bcs" -> IF t = ">" THEN go("bc.")
                     ELSE IF t = "(" THEN endOf("act.") ELSE IF t = "}" THEN done ELSE bad
    \* event
    [] mo = "evt" ->
         IF t = "." THEN keep("evt.")
         ELSE IF t = "{" /\ EvKnown(s.path) /\ s.path[1] \notin s.defs THEN [go("ev>") EXCEPT !.defs = IF Known(s.path) THEN @ ELSE @ \cup {s.path[1]}] ELSE bad
    [] mo = "evt." -> word("evt")
    [] mo = "ev>" -> IF t = ">" THEN go("ev.") ELSE bad
    [] mo = "ev." -> word("ev")
    [] mo = "ev" -> IF t = "." THEN keep("ev.") ELSE IF ~Known(s.path) THEN bad ELSE IF t = "?" THEN go("ev?") ELSE IF t = ";" THEN go("evs") ELSE bad
    [] mo = "ev?" -> IF t = ";" THEN go("evs") ELSE bad
    [] mo = "evs" -> IF t = ">" THEN go("ev.") ELSE IF t = "}" THEN done ELSE bad
    \* beacons
    [] mo = "bcn{" -> IF t = "{" THEN go("bcn>") ELSE bad
    [] mo = "bcn>" -> IF t = ">" THEN go("bcn.") ELSE bad
    [] mo = "bcn." -> word("bcn")
    [] mo = "bcn" -> IF t = "." THEN keep("bcn.") ELSE IF t = ";" /\ Known(s.path) THEN go("bcns") ELSE bad
    [] mo = "bcns" -> IF t = ">" THEN go("bcn.") ELSE IF t = "}" THEN done ELSE bad

RECURSIVE Run(_, _)
Run(s, ts) == IF ts = <<>> THEN s ELSE Run(Step(s, Head(ts)), Tail(ts))
Complete(s) == s.mode = "decls" /\ s.cfg
Verdict(s) == IF s.mode = "bad" THEN "reject" ELSE IF s.mode = "open" THEN "open" ELSE IF Complete(s) THEN "accept" ELSE "reject"

Missing(ks) == (IF "Producer" \in ks THEN <<>> ELSE <<"Producer", ":", "rust", ";">>) \o (IF "Consumer" \in ks THEN <<>> ELSE <<"Consumer", ":", "rust", ";">>) \o <<"}">>
Config == <<"&config", "{">> \o Missing({})

\* a shortest way to end the source from a viable state
Fix(p) == IF p = <<"Gr">> THEN <<".", "W">> ELSE <<>>
Closing(s) ==
  LET c == IF s.cfg THEN <<>> ELSE Config
      act == <<"(", "W", ")", ";", "}">>
      ev == <<">", "W", ";", "}">>
  IN CASE s.mode = "decls" -> c
    [] s.mode = "cfg{" -> <<"{">> \o Missing({})
    [] s.mode = "cfg" -> Missing(s.keys)
    [] s.mode = "key" -> <<":", IF s.path[1] \in Keys THEN "W" ELSE "rust", ";">> \o Missing(s.keys \cup {s.path[1]})
    [] s.mode = "sval" -> <<"rust", ";">> \o Missing(s.keys)
    [] s.mode = "svals" -> <<";">> \o Missing(s.keys)
    [] s.mode = "kval" -> <<"W", ";">> \o Missing(s.keys)
    [] s.mode = "kvals" -> Fix(s.path) \o <<";">> \o Missing(s.keys)
    [] s.mode = "req" -> Fix(s.path) \o <<"!", "W", "{">> \o act \o c
    [] s.mode = "req." -> <<"W", "!", "W", "{">> \o act \o c
    [] s.mode = "err." -> <<"W", "{">> \o act \o c
    [] s.mode = "err" -> Fix(s.path) \o <<"{">> \o act \o c
    [] s.mode = "act(" -> (IF s.n > 0 THEN <<"}">> ELSE act) \o c
    [] s.mode = "act." -> (IF s.path = <<>> THEN <<"U", ">">> ELSE <<>>) \o <<"W", ")", ";", "}">> \o c
    [] s.mode = "act" -> (IF Known(s.path) /\ s.n = 0 THEN <<>> ELSE IF s.path = <<"Gr">> THEN Fix(s.path) ELSE <<">", "W">>) \o <<")", ";", "}">> \o c
    [] s.mode = "resp." -> <<"W", ")", ";", "}">> \o c
    [] s.mode = "resp" -> Fix(s.path) \o <<")", ";", "}">> \o c
    [] s.mode = "acted" -> <<";", "}">> \o c
    [] s.mode = "bc." -> <<"W", ";", "}">> \o c
    [] s.mode = "bc" -> Fix(s.path) \o <<";", "}">> \o c
    [] s.mode \in {"bc?", "ev?"} -> <<";", "}">> \o c
    [] s.mode \in {"bcs", "evs", "bcns"} -> <<"}">> \o c
    [] s.mode = "evt" -> Fix(s.path) \o <<"{">> \o ev \o c
    [] s.mode = "evt." -> <<"W", "{">> \o ev \o c
    [] s.mode = "ev>" -> ev \o c
    [] s.mode = "ev." -> <<"W", ";", "}">> \o c
    [] s.mode = "ev" -> Fix(s.path) \o <<";", "}">> \o c
    [] s.mode = "bcn{" -> <<"{", ">", "W", ";", "}">> \o c
    [] s.mode = "bcn>" -> <<">", "W", ";", "}">> \o c
    [] s.mode = "bcn." -> <<"W", ";", "}">> \o c
    [] s.mode = "bcn" -> Fix(s.path) \o <<";", "}">> \o c
    [] OTHER -> <<>>

\* a prefix is viable iff something completes it: the path it ends in is, or can become, that of a message
Closable(s) ==
  CASE s.mode \in {"bad", "open"} -> FALSE
    [] s.mode = "act" -> (Known(s.path) /\ s.n = 0) \/ (s.path = <<"Gr">> /\ s.n = 0) \/ s.path \in { <<"W">>, <<"U">> }
    [] s.mode = "act." -> s.path = <<>> \/ (s.path = <<"Gr">> /\ s.n = 0)
    [] s.mode = "evt" -> CanBe(s.path) \/ (EvKnown(s.path) /\ s.path[1] \notin s.defs)
    [] s.mode \in {"req.", "err.", "kval", "resp.", "bc.", "evt.", "ev.", "bcn."} -> s.path \in { <<>>, <<"Gr">> }
    [] s.mode \in {"req", "err", "kvals", "resp", "bc", "ev", "bcn"} -> CanBe(s.path)
    [] OTHER -> TRUE

Init == /\ toks = <<>> /\ st = Start /\ hist = <<>>
Push(h, x) == IF Hist = 0 THEN <<>> ELSE IF Len(h) < Hist THEN Append(h, x) ELSE Append(Tail(h), x)
Next ==
  /\ mode \notin {"bad", "open"}
  /\ Len(toks) < MaxToks
  /\ \E t \in Tokens :
       LET r == Step(st, t) IN
       /\ Len(r.path) <= 3
       /\ toks' = Append(toks, t)
       /\ st' = r
       /\ hist' = IF r.mode = "bad" THEN <<mode, st.path, IF mode \in {"act(", "act.", "act"} THEN <<st.n, st.bare>> ELSE <<>>, IF mode \in {"cfg", "svals"} THEN st.keys ELSE {}, t>> ELSE Push(hist, <<mode, t>>)
Spec == Init /\ [][Next]_vars
View == <<st, hist>>

\* ---- properties of the language itself
Viable == Closable(st) => Complete(Run(st, Closing(st)))
Replay == Run(Start, toks) = st
Broken2 == (\E i \in 1..Len(toks) : toks[i] \in Broken) => Verdict(st) \in {"reject", "open"}
OneConfig == Complete(st) => Cardinality({i \in 1..Len(toks) : toks[i] = "&config"}) = 1
Dead == ~Closable(st) /\ mode \notin {"open", "bad"} => \A t \in Tokens : ~Complete(Step(st, t))

Prev == Run(Start, SubSeq(toks, 1, Len(toks) - 1))
Last1 == toks[Len(toks)]
\* what would have been read had one rule been forgotten: that a path names a message, that conclusions are names, that a
\* key or a default event comes once, that there is one configuration, that an action without a conclusion stands alone
Relaxed(s) == { [s EXCEPT !.path = <<"W">>], [s EXCEPT !.bare = FALSE], [s EXCEPT !.n = 0], [s EXCEPT !.defs = {}],
                [s EXCEPT !.cfg = FALSE], [s EXCEPT !.keys = {}], [s EXCEPT !.keys = Sides] } \ {s}
Forgot == UNION {LET r == Step(p, Last1) IN IF Closable(r) THEN {Closing(r)} ELSE {} : p \in {p \in Relaxed(Prev) : p.path # <<>> \/ Prev.path = <<>>}}
\* a broken prefix is also given with what would complete it had the last token been left out, or had it been an omitted one,
\* or had the rule that breaks it been forgotten
Tails == (IF Closable(Prev) THEN {Closing(Prev)} \cup (IF Len(Closing(Prev)) > 1 THEN {Tail(Closing(Prev))} ELSE {}) ELSE {})
         \cup { <<"}">> \o (IF Prev.cfg THEN <<>> ELSE Config) }
         \cup {x \in Forgot : Verdict(Run(Start, toks \o x)) = "reject"}
Emit == PrintT(ToJson([t |-> toks, v |-> Verdict(st),
                       c |-> IF Closable(st) /\ ~Complete(st) THEN <<Closing(st)>> ELSE <<>>,
                       x |-> IF mode = "bad" THEN SetToSeq(Tails) ELSE <<>>]))

\* ---- judging token sequences that were given to the generator (random edits of sources)
Records == JsonDeserialize(IOEnv.FLOW_RECORDS)
JInit == \E i \in 1..Len(Records) : toks = <<>> /\ st = Start /\ hist = i
JSpec == JInit /\ [][FALSE]_vars
JEmit == PrintT(ToJson([rec |-> hist, v |-> Verdict(Run(Start, Records[hist]))]))
=============================================================================
