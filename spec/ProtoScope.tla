----------------------------- MODULE ProtoScope -----------------------------
(* What a type reference denotes.  A state is a protocol source read up to some point: the groups opened so far, the *)
(* group being read, and the groups that hold a definition named T.  A reference made there denotes T of the group   *)
(* the reference reaches from its own group, else the one its full path names; definitions made later do not count.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Names,      \* names of groups
          Depth,      \* nesting of groups
          Deep,       \* groups have one name on each level (Ladder) instead
          Steps       \* number of items in front of the reference

VARIABLES doc,        \* the items so far: <<"open", name>>, <<"close">>, <<"T">>, <<"X">>
          at,         \* path of the group being read
          groups,     \* paths of the groups opened so far
          defs,       \* paths of the groups that define T
          seen        \* the definitions that precede the reference; {<<"?">>} before it is made
vars == <<doc, at, groups, defs, seen>>
None == {<<"?">>}
Ladder == <<"G", "H", "I", "K", "L">>
Again == <<"G", "H", "I", "G", "L">>                                  \* the fourth level may be named as the first

Init == doc = <<>> /\ at = <<>> /\ groups = {<<>>} /\ defs = {} /\ seen = None

Open(n) == /\ seen = None /\ Len(at) < Depth /\ Append(at, n) \notin groups
           /\ doc' = Append(doc, <<"open", n>>) /\ at' = Append(at, n) /\ groups' = groups \cup {Append(at, n)} /\ UNCHANGED <<defs, seen>>
Close == /\ at # <<>>
         /\ doc' = Append(doc, <<"close">>) /\ at' = SubSeq(at, 1, Len(at) - 1) /\ UNCHANGED <<groups, defs, seen>>
Define == /\ at \notin defs
          /\ doc' = Append(doc, <<"T">>) /\ defs' = defs \cup {at} /\ UNCHANGED <<at, groups, seen>>
Refer == /\ seen = None
         /\ doc' = Append(doc, <<"X">>) /\ seen' = defs /\ UNCHANGED <<at, groups, defs>>

Before == Cardinality({i \in 1..Len(doc) : doc[i][1] \in {"open", "T"}})
Name == IF ~Deep THEN Names ELSE IF Len(at) < Depth THEN {Ladder[Len(at) + 1], Again[Len(at) + 1]} ELSE {}
Next == \/ Before < Steps /\ ((\E n \in Name : Open(n)) \/ Define)
        \/ Close
        \/ Refer
Spec == Init /\ [][Next]_vars

\* where the reference was made
RECURSIVE PathAt(_, _)
PathAt(i, p) == IF doc[i][1] = "X" THEN p
                ELSE PathAt(i + 1, IF doc[i][1] = "open" THEN Append(p, doc[i][2]) ELSE IF doc[i][1] = "close" THEN SubSeq(p, 1, Len(p) - 1) ELSE p)
Here == PathAt(1, <<>>)
View == <<at, groups, defs, seen, IF seen = None THEN <<"?">> ELSE Here>>

Forms == IF Deep THEN { SubSeq(l, i, j) : l \in {Ladder, Again}, i \in 1..Depth, j \in 0..Depth } ELSE { <<>> } \cup { <<n>> : n \in Names } \cup { <<n, m>> : n \in Names, m \in Names }

\* the reference  f.T  made in group p, with the definitions d in front of it
Denotes(p, d, f) == IF p \o f \in d THEN <<p \o f>> ELSE IF f \in d THEN <<f>> ELSE <<>>

\* the name alone, read as the languages do, innermost scope first (definitions made later included): does it mean something else?
Enclosing(p) == { SubSeq(p, 1, k) : k \in 0..Len(p) }
Binds(q, f) == IF f = <<>> THEN q \in defs ELSE Append(q, f[1]) \in groups
Nearest(p, f) == LET c == { q \in Enclosing(p) : Binds(q, f) } IN
                 IF c = {} THEN <<"?">> ELSE (CHOOSE q \in c : \A r \in c : Len(r) <= Len(q)) \o f
\* a full name that means something else where it stands (in the languages that have no way to name the top level)
Hidden(p, full) == full # <<>> /\ Nearest(p, full) # full
HiddenT(p, full) == Nearest(p, full) # full
Shadowed(p, f) == Denotes(p, seen, f) # <<>> /\ LET full == Denotes(p, seen, f)[1] IN
                  HiddenT(p, full) \/ HiddenT(full, full) \/ Hidden(p, p)

\* ---- properties
Sane == /\ seen # None => \A f \in Forms : Denotes(Here, seen, f) # <<>> => Denotes(Here, seen, f)[1] \in seen
        /\ seen # None => seen \subseteq defs
        /\ \A d \in defs : d \in groups
\* a full path always works from the top level
FullPath == seen # None /\ Here = <<>> => \A d \in seen : Denotes(<<>>, seen, d) = <<d>>

Emit == seen # None /\ at = <<>> =>
        PrintT(ToJson([doc |-> doc, here |-> Here,
                       refs |-> SetToSeq({ [f |-> f, d |-> Denotes(Here, seen, f), sh |-> Shadowed(Here, f)] : f \in Forms })]))
=============================================================================
