-------------------------------- MODULE Framing --------------------------------
EXTENDS FramingCore

(* Judging what the generated reader did.  A record: [p |-> packages, c |-> << [n |-> size, e |-> BOOLEAN,   *)
(* d |-> delivered positions, l |-> bytes left] >>].  Every record starts one behaviour, which follows the   *)
(* observations as long as the specification allows them; where it stops short, the record is refuted.       *)
Records == JsonDeserialize(IOEnv.FR_RECORDS)
VARIABLES rec, step
JInit == /\ rec \in 1..Len(Records) /\ step = 0 /\ pk = Records[rec].p
         /\ fed = 0 /\ done = 0 /\ out = << >> /\ errs = 0 /\ hist = << >>
JNext ==
  /\ step < Len(Records[rec].c)
  /\ LET o == Records[rec].c[step + 1] IN
     \E stop \in Stops(pk, done, fed + o.n) :
       /\ Chunk(o.n, stop)
       /\ o.d = GoodSeq(pk, done, stop)
       /\ o.e = (Refused(pk, done, stop) # {})
       /\ o.l = fed + o.n - EndOf(pk, stop)
  /\ step' = step + 1
  /\ rec' = rec
JSpec == JInit /\ [][JNext]_<<vars, rec, step>>
(* enough calls were made for everything to have been consumed *)
JDone == step = Len(Records[rec].c) /\ done = Len(pk)
JEmit == JDone => PrintT(ToJson([ok |-> rec]))
=============================================================================
