-------------------------------- MODULE Ids --------------------------------
(* Identities of messages on the wire.                                        *)
(*                                                                            *)
(* Init/Grow: enumerates the shapes of protocol documents (structs, enums and *)
(* nested groups in every order) up to a number of tokens; each is emitted    *)
(* once complete.                                                             *)
(* JInit/Judge: judges what the renderings of one protocol wrote and read:    *)
(* Judged is the part of the record explained so far; a package written for   *)
(* a message fixes the message's id and the protocol's signature for every    *)
(* rendering; a package read is delivered as the one message with its id, and *)
(* an id the rendering has no message for is refused.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Functions, Json, IOUtils

VARIABLES doc, depth,                \* the document so far
          t, i, ids, sig, own, rec   \* the record judged, position, message -> id, signatures seen, (rendering, id) written, the record itself
vars == <<doc, depth, t, i, ids, sig, own, rec>>

Limit == atoi(IOEnv.IDS_MAX)
Raw == TLCEval(JsonDeserialize(IOEnv.IDS_RECORDS))
None == [x \in {} |-> 0]
Idle == t = 0 /\ i = 0 /\ ids = None /\ sig = {} /\ own = {} /\ rec = <<>>

Init == doc = <<>> /\ depth = 0 /\ Idle
Room == Limit - Len(doc) - depth          \* open groups must still be closed
Grow == /\ UNCHANGED <<t, i, ids, sig, own, rec>>
        /\ \/ Room > 0 /\ \E k \in {"s", "e"} : doc' = Append(doc, k) /\ UNCHANGED depth
           \/ Room > 2 /\ depth < 2 /\ doc' = Append(doc, "g") /\ depth' = depth + 1
           \/ depth > 0 /\ doc[Len(doc)] # "g" /\ doc' = Append(doc, "/") /\ depth' = depth - 1
Spec == Init /\ [][Grow]_vars
Emit == doc # <<>> /\ depth = 0 => PrintT(ToJson([doc |-> doc]))

JInit == /\ doc = <<>> /\ depth = 0
         /\ \E k \in DOMAIN Raw : t = k /\ rec = Raw[k].events
         /\ i = 1 /\ ids = None /\ sig = {} /\ own = {}
Here == rec[i]
Write == /\ Here.e = "write"
         /\ IF Here.m \in DOMAIN ids THEN ids[Here.m] = Here.id
            ELSE Here.id \notin Range(ids)
         /\ ids' = [m \in DOMAIN ids \cup {Here.m} |-> IF m = Here.m THEN Here.id ELSE ids[m]]
         /\ sig \subseteq {Here.sig} /\ sig' = {Here.sig}
         /\ own' = own \cup {<<Here.r, Here.id>>}
Read == /\ Here.e = "read"
        /\ <<Here.r, Here.id>> \in own
        /\ Here.m \in DOMAIN ids /\ ids[Here.m] = Here.id
        /\ UNCHANGED <<ids, sig, own>>
Refuse == /\ Here.e = "refuse"
          /\ <<Here.r, Here.id>> \notin own
          /\ UNCHANGED <<ids, sig, own>>
Judge == /\ i <= Len(rec) /\ (Write \/ Read \/ Refuse)
         /\ i' = i + 1 /\ UNCHANGED <<doc, depth, t, rec>>
JSpec == JInit /\ [][Judge]_vars
Injective == \A a, b \in DOMAIN ids : ids[a] = ids[b] => a = b
OneSignature == Cardinality(sig) <= 1
JEmit == IF i > Len(rec) THEN PrintT(ToJson([ok |-> Raw[t].id])) ELSE
         ENABLED Judge \/ PrintT(ToJson([id |-> Raw[t].id, at |-> i, event |-> rec[i]]))
JShape == <<t, i, ids, sig, own>>
=============================================================================
