---------------------------- MODULE MiddlewareTrace ----------------------------
EXTENDS Middleware
(* ---- judging recorded behaviours ---- *)
VARIABLES rec, step
Records == JsonDeserialize(IOEnv.MW_RECORDS)
JInit == Init /\ rec \in DOMAIN Records /\ step = 0
JNext ==
  /\ step < Len(Records[rec])
  /\ LET o == Records[rec][step + 1] IN
     \/ /\ o.a = "switch" /\ (Switch(o.m) \/ (o.m = mw /\ UNCHANGED <<mw, st, fed, done>>))
     \/ /\ o.a = "pack" /\ Pack(o.k, o.q, o.no)
        /\ o.calls = EncodeCalls(o.k, o.q, o.u)
        /\ o.thrown = o.no
        /\ (~o.no => /\ o.body = Enc(mw, Kinds[o.k].b, o.q)
                     /\ o.len = Len(o.body)
                     /\ o.id = Kinds[o.k].id /\ o.rq = o.q)
     \/ /\ o.a = "feed"
        /\ \E stop \in Stops(fed + o.n) :
             /\ Feed(o.n, stop)
             /\ o.calls = DecodeCalls(done, stop, o.u)
             /\ o.d = Delivered(done, stop)
             /\ o.e = (Refused(done, stop) # {})
             /\ o.l = fed + o.n - EndOf(st, stop)
  /\ step' = step + 1 /\ rec' = rec /\ hist' = hist
JSpec == JInit /\ [][JNext]_<<vars, rec, step>>
JEmit == step = Len(Records[rec]) => PrintT(ToJson([ok |-> rec]))
JWhere == PrintT(ToJson([r |-> rec, s |-> step]))
=================================================================================
