---------------------------- MODULE ProducerView ----------------------------
(* What each property looks at: View(p, o) projects one output of a producer. *)
EXTENDS Naturals, Sequences, TLC, SequencesExt, Functions

(* a recorded output has sequences where the specification has sets *)
FromRecord(o) ==
  CASE o.op = "call" -> [o EXCEPT !.all = Range(@), !.exc = Range(@), !.ecl = Range(@), !.byk = Range(@), !.bya = Range(@), !.any = Range(@), !.ecm = Range(@)]
    [] o.op = "bcast" -> [o EXCEPT !.to = Range(@)]
    [] o.op = "released" -> [o EXCEPT !.n = Range(@)]
    [] OTHER -> o

IsReply(o) == o.op = "send" /\ o.m \notin {"InternalServiceGroup.SelfKeyResponse", "InternalServiceGroup.HashResponse",
                 "InternalServiceGroup.BeaconConfirmation", "InternalServiceGroup.ConnectConfirmationBeacon"}
IsSend(o, S) == o.op = "send" /\ o.m \in S
IsError(o, S) == o.op = "error" /\ o.k \in S
Short(o) == IF o.op = "call" THEN [op |-> "call", k |-> o.k, h |-> o.h, u |-> o.u, tag |-> o.tag]
            ELSE IF o.op = "error" THEN [op |-> "error", k |-> o.k, u |-> o.u] ELSE o
Keys(o) == [op |-> "call", k |-> o.k, h |-> o.h, u |-> o.u, tag |-> o.tag, key |-> o.key, asg |-> o.asg]
G(n) == "InternalServiceGroup." \o n

View(p, o) ==
  CASE p = "P01" ->
         IF o.op = "disc" \/ IsError(o, {"NotConfirmedConnection", "NoConsumerKey"}) \/ (o.op = "call" /\ o.k \in {"request", "beacon"})
            \/ IsSend(o, {G("SelfKeyResponse"), G("HashResponse"), G("ConnectConfirmationBeacon")}) THEN <<Short(o)>> ELSE <<>>
    [] p = "P02" ->
         IF IsReply(o) \/ o.op = "bcast" \/ o.op = "defer" \/ (o.op = "call" /\ o.k = "request") THEN <<Short(o)>> ELSE <<>>
    [] p = "P03" -> IF o.op = "call" /\ o.k # "plain" THEN <<o>> ELSE IF o.op = "bcast" THEN <<o>> ELSE <<>>
    [] p = "P04" ->
         IF o.op \in {"call", "error"} THEN <<Short(o)>>
         ELSE IF o.op = "send" THEN <<[op |-> "send", m |-> o.m, u |-> o.u]>>
         ELSE IF o.op = "bcast" THEN <<[op |-> "bcast", m |-> o.m, to |-> o.to]>>
         ELSE IF o.op \in {"end", "disc", "defer"} THEN <<o>> ELSE <<>>
    [] p = "P05" ->
         IF IsError(o, {"NoAssignedConsumer", "ResponsingError"}) THEN <<o>>
         ELSE IF o.op \in {"disc", "end"} \/ (o.op = "call" /\ o.k \in {"request", "beacon"}) THEN <<Short(o)>> ELSE <<>>
    [] p = "P06" -> IF o.op = "call" /\ o.k # "plain" THEN <<Keys(o)>> ELSE IF o.op = "error" THEN <<o>> ELSE <<>>
    [] p = "P07" ->
         IF o.op = "call" THEN <<Short(o)>>
         ELSE IF IsError(o, {"ConsumerError", "ConnectionError", "ServerError"}) THEN <<[op |-> "error", k |-> o.k, u |-> o.u, idu |-> o.idu]>>
         ELSE IF o.op \in {"bcast", "srvdown", "end", "released", "defer"} THEN <<o>> ELSE <<>>
    [] p = "P08" ->
         IF IsError(o, {"BeaconEmitterError"}) \/ (o.op = "call" /\ o.k \in {"request", "beacon"}) THEN <<Short(o)>>
         ELSE IF IsSend(o, {G("BeaconConfirmation")}) \/ IsReply(o) \/ o.op = "defer" THEN <<o>> ELSE <<>>
    [] OTHER -> <<o>>
ViewAll(p, os) == FlattenSeq([k \in DOMAIN os |-> View(p, os[k])])
=============================================================================
