---------------------------- MODULE ProtoGrammar ----------------------------
(* The protocol language as a pushdown automaton over tokens.                                        *)
(*                                                                                                   *)
(*   Source = { Def }                 Def    = "group" Name "{" { Def } "}"                          *)
(*                                           | "struct" Name "{" { Field } "}"                       *)
(*                                           | "enum" Name "{" { Item } "}"                          *)
(*   Field  = Type ["[" "]"] Name ["?"] ";"                                                          *)
(*   Item   = Name ";" | Type ["[" "]"] Name ";"                                                     *)
(*   Type   = Name { "." Name }                                                                      *)
(*                                                                                                   *)
(* The state is the stack of open definitions, the production being read, and the type path being    *)
(* read.  Next feeds one more token, viable or not.  Every reached state is a prefix of a source;    *)
(* the prefix itself is accepted iff Complete, a non-viable prefix is rejected whatever follows, and *)
(* a viable one is accepted once Closing completes it.                                               *)
(* Positions at which the language leaves the outcome open (keywords and type names used as the name *)
(* of something) are not judged.                                                                     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

CONSTANTS MaxDepth,   \* nesting of groups
          MaxToks,    \* length of a prefix
          Hist        \* how many tokens of history distinguish two states

\* names: "N" stands for a fresh name; P (struct, top level), Q (group), R (struct in Q) are defined by the prelude
Words  == {"u8", "str", "P", "Q", "R", "N"}
Kw     == {"group", "struct", "enum"}
Punct  == {"{", "}", ";", "?", "[", "]", "."}
Broken == {"0N", "#", "N-N", "N#", "~"}      \* digit first, illegal characters, ~ a non ascii character
Tokens == Words \cup Kw \cup Punct \cup Broken

VARIABLES toks,    \* the prefix
          st,      \* automaton state: <<open definitions innermost last ("g", "s", "e"), what is being read, words of the type being read>>
          hist     \* last (mode, token) pairs: makes the view cover transitions and not only states
vars == <<toks, st, hist>>

stack == st[1]
mode == st[2]
path == st[3]

Body(sk) == IF sk = <<>> THEN "defs" ELSE CASE sk[Len(sk)] = "g" -> "defs" [] sk[Len(sk)] = "s" -> "fields" [] sk[Len(sk)] = "e" -> "items"

Known(p) == p \in { <<"u8">>, <<"str">>, <<"P">>, <<"Q", "R">> }

\* one token.  Mode "bad": no source continues this prefix; "open": the language leaves the outcome open.
Step(s, t) ==
  LET sk == s[1]
      mo == s[2]
      pa == s[3]
      go(m) == <<sk, m, <<>> >>
      keep(m) == <<sk, m, pa>>
      bad == <<sk, "bad", <<>> >>
      unspecified == <<sk, "open", <<>> >>
      name(m) == IF t \in {"N", "P", "Q", "R"} THEN (IF t = "N" THEN go(m) ELSE unspecified)
                 ELSE IF t \in Kw \cup {"u8", "str"} THEN unspecified ELSE bad
      close == IF t = "}" THEN <<SubSeq(sk, 1, Len(sk) - 1), Body(SubSeq(sk, 1, Len(sk) - 1)), <<>> >> ELSE bad
  IN IF mo \in {"bad", "open"} THEN s ELSE IF t \in Broken THEN bad ELSE
  CASE mo = "defs" ->
         IF t \in Kw THEN <<sk, t, <<>> >>
         ELSE IF sk # <<>> THEN close ELSE bad
    [] mo = "group"  -> name("{g")
    [] mo = "struct" -> name("{s")
    [] mo = "enum"   -> name("{e")
    [] mo = "{g" -> IF t = "{" THEN <<Append(sk, "g"), "defs", <<>> >> ELSE bad
    [] mo = "{s" -> IF t = "{" THEN <<Append(sk, "s"), "fields", <<>> >> ELSE bad
    [] mo = "{e" -> IF t = "{" THEN <<Append(sk, "e"), "items", <<>> >> ELSE bad
    \* fields of a struct
    [] mo = "fields" -> IF t \in Words THEN <<sk, "type", <<t>> >> ELSE close
    [] mo = "type" ->
         IF t = "." THEN keep("dot")
         ELSE IF t = "[" THEN keep("[")
         ELSE IF t \in Words \cup Kw THEN (IF ~Known(pa) THEN bad ELSE name("named")) ELSE bad
    [] mo = "dot" -> IF t \in Words THEN <<sk, "type", Append(pa, t)>> ELSE bad
    [] mo = "[" -> IF t = "]" THEN keep("array") ELSE bad
    [] mo = "array" -> IF t \in Words \cup Kw THEN (IF ~Known(pa) THEN bad ELSE name("named")) ELSE bad
    [] mo = "named" -> IF t = ";" THEN go("fields") ELSE IF t = "?" THEN go("optional") ELSE bad
    [] mo = "optional" -> IF t = ";" THEN go("fields") ELSE bad
    \* items of an enum
    [] mo = "items" -> IF t \in Words THEN <<sk, "word", <<t>> >> ELSE close
    [] mo = "word" ->
         IF t = ";" THEN (IF pa = <<"N">> THEN go("items") ELSE unspecified)
         ELSE IF t = "." THEN keep("edot")
         ELSE IF t = "[" THEN keep("e[")
         ELSE IF t \in Words \cup Kw THEN (IF ~Known(pa) THEN bad ELSE name("enamed")) ELSE bad
    [] mo = "epath" ->
         IF t = "." THEN keep("edot")
         ELSE IF t = "[" THEN keep("e[")
         ELSE IF t \in Words \cup Kw THEN (IF ~Known(pa) THEN bad ELSE name("enamed")) ELSE bad
    [] mo = "edot" -> IF t \in Words THEN <<sk, "epath", Append(pa, t)>> ELSE bad
    [] mo = "e[" -> IF t = "]" THEN keep("earray") ELSE bad
    [] mo = "earray" -> IF t \in Words \cup Kw THEN (IF ~Known(pa) THEN bad ELSE name("enamed")) ELSE bad
    [] mo = "enamed" -> IF t = ";" THEN go("items") ELSE bad


RECURSIVE Run(_, _)
Run(s, ts) == IF ts = <<>> THEN s ELSE Run(Step(s, Head(ts)), Tail(ts))
Start == << <<>>, "defs", <<>> >>
Complete(s) == s[2] = "defs" /\ s[1] = <<>>
Verdict(s) == IF s[2] = "bad" THEN "reject" ELSE IF s[2] = "open" THEN "open" ELSE IF Complete(s) THEN "accept" ELSE "reject"

\* a shortest way to end the source from a viable state
Braces(n) == [i \in 1..n |-> "}"]
Closing(s) ==
  LET fix == IF s[3] = <<"Q">> THEN <<".", "R">> ELSE <<>>
  IN CASE s[2] \in {"defs", "fields", "items"} -> Braces(Len(s[1]))
    [] s[2] \in {"group", "struct", "enum"} -> <<"N", "{", "}">> \o Braces(Len(s[1]))
    [] s[2] \in {"{g", "{s", "{e"} -> <<"{", "}">> \o Braces(Len(s[1]))
    [] s[2] = "type" -> fix \o <<"N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "dot" -> <<"R", "N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "[" -> <<"]", "N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "array" -> <<"N", ";">> \o Braces(Len(s[1]))
    [] s[2] \in {"named", "optional"} -> <<";">> \o Braces(Len(s[1]))
    [] s[2] = "word" -> (IF Known(s[3]) THEN <<"N", ";">> ELSE fix \o (IF s[3] = <<"Q">> THEN <<"N", ";">> ELSE <<";">>)) \o Braces(Len(s[1]))
    [] s[2] = "epath" -> <<"N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "edot" -> <<"R", "N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "e[" -> <<"]", "N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "earray" -> <<"N", ";">> \o Braces(Len(s[1]))
    [] s[2] = "enamed" -> <<";">> \o Braces(Len(s[1]))
    [] OTHER -> <<>>

\* whether Closing indeed completes the prefix: the type s[3] has to be one that exists
Closable(s) ==
  CASE s[2] \in {"type"} -> Known(s[3]) \/ s[3] = <<"Q">>
    [] s[2] \in {"word"} -> Known(s[3]) \/ s[3] \in {<<"Q">>, <<"N">>}
    [] s[2] \in {"dot", "edot"} -> s[3] = <<"Q">>
    [] s[2] \in {"[", "array", "e[", "earray", "epath"} -> Known(s[3])
    [] s[2] \in {"bad", "open"} -> FALSE
    [] OTHER -> TRUE


Init == /\ toks = <<>> /\ st = Start /\ hist = <<>>

Push(h, x) == IF Len(h) < Hist THEN Append(h, x) ELSE IF Hist = 0 THEN <<>> ELSE Append(Tail(h), x)

Next ==
  /\ mode \notin {"bad", "open"}
  /\ Len(toks) < MaxToks
  /\ \E t \in Tokens :
       LET r == Step(st, t) IN
       /\ Len(r[1]) <= MaxDepth
       /\ Len(r[3]) <= 3
       /\ toks' = Append(toks, t)
       /\ st' = r
       /\ hist' = Push(hist, <<mode, t>>)

Spec == Init /\ [][Next]_vars
View == <<st, hist>>

\* ---- properties of the language itself
Modes == {"defs", "group", "struct", "enum", "{g", "{s", "{e", "fields", "type", "dot", "[", "array", "named", "optional",
          "items", "word", "epath", "edot", "e[", "earray", "enamed", "bad", "open"}
TypeOK == /\ mode \in Modes
          /\ \A i \in 1..Len(stack) : stack[i] \in {"s", "e"} => i = Len(stack)      \* definitions nest in groups only
Viable == Closable(st) => Complete(Run(st, Closing(st)))                                     \* a viable prefix can be completed
Replay == Run(Start, toks) = st                                                      \* the automaton is the language
Broken2 == (\E i \in 1..Len(toks) : toks[i] \in Broken) => Verdict(st) \in {"reject", "open"}

\* what to feed: the prefix and its verdict; a viable prefix also completed (accepted); a broken one also followed by what
\* would complete it had the last token been left out, or by closing braces (rejected all the same)
\* (what could make a construct of the broken token stands in front)
Misread(t) == CASE t = "[" -> {<<"]">>}
                [] t = "." -> {<<"R">>, <<"N">>}
                [] t = "?" -> {<<";">>}
                [] t = "{" -> {<<"}">>, <<"u8", "N", ";", "}">>}
                [] t \in Kw -> {<<"N", "{", "}">>}
                [] t \in Words -> {<<"N">>, <<"N", ";">>}
                [] OTHER -> {<<>>}
Tails == LET prev == Run(Start, SubSeq(toks, 1, Len(toks) - 1)) IN
         (IF Closable(prev) THEN {Closing(prev)} \cup {m \o Closing(prev) : m \in Misread(toks[Len(toks)])} ELSE {}) \cup {Braces(n) : n \in 1..(Len(prev[1]) + 1)}
Emit == PrintT(ToJson([t |-> toks, v |-> Verdict(st),
                       c |-> IF Closable(st) /\ ~Complete(st) THEN <<Closing(st)>> ELSE <<>>,
                       x |-> IF mode = "bad" THEN SetToSeq(Tails) ELSE <<>>]))

\* ---- judging token sequences that were given to the generator (random edits of sources)
Records == JsonDeserialize(IOEnv.PROTO_RECORDS)
JInit == \E i \in 1..Len(Records) : toks = <<>> /\ st = << <<>>, "defs", <<>> >> /\ hist = i
JSpec == JInit /\ [][FALSE]_vars
JEmit == PrintT(ToJson([rec |-> hist, v |-> Verdict(Run(Start, Records[hist]))]))
=============================================================================
