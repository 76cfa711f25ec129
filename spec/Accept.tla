--------------------------------- MODULE Accept ---------------------------------
(***************************************************************************)
(* Making a message out of a plain object in the generated TypeScript code *)
(* (Message.from): which objects are messages and which are refused.       *)
(*                                                                         *)
(* An object is the base value of a type in which one place holds          *)
(* something else.  A place is a path of fields, variants and positions in *)
(* arrays; what it holds is a token.  Verdict: "yes" with the value the    *)
(* message has then, "no", or "open" where the protocol language leaves it *)
(* to the reader (fractions for integers, not-a-number, empty enums).      *)
(***************************************************************************)
EXTENDS Wire, Integers, FiniteSets

Floats == {"f32", "f64"}
Bigs == {"u64", "i64"}
Signed == {"i8", "i16", "i32", "i64"}
Numeric(t) == t \notin {"bool", "str"}
BareTokens(t) == <<"num", "big", "str", "bool", "null", "undef", "obj", "arr", "nan", "inf", "frac", "max", "min", "over", "under">>
Num5(t) == CASE t = "f32" -> <<0, 0, 160, 64>> [] t = "f64" -> <<0, 0, 0, 0, 0, 0, 20, 64>>
             [] OTHER -> [i \in 1..PrimSize[t] |-> IF i = 1 THEN 5 ELSE 0]
Frac(t) == IF t = "f32" THEN <<0, 0, 192, 63>> ELSE <<0, 0, 0, 0, 0, 0, 248, 63>>
Yes(v) == [a |-> "yes", v |-> v]
No == [a |-> "no", v |-> <<>>]
Open == [a |-> "open", v |-> <<>>]
(* what a token means where a bare scalar of type t is expected *)
Scalar(t, x) ==
  CASE x = "num"  -> IF Numeric(t) /\ t \notin Bigs THEN Yes(Num5(t)) ELSE No
    [] x = "big"  -> IF t \in Bigs THEN Yes(Num5(t)) ELSE No
    [] x = "str"  -> IF t = "str" THEN Yes(<<113>>) ELSE No
    [] x = "bool" -> IF t = "bool" THEN Yes(<<1>>) ELSE No
    [] x \in {"nan", "inf"} -> IF t \in Floats THEN Open ELSE No
    [] x = "frac" -> IF t \in Floats THEN Yes(Frac(t)) ELSE IF Numeric(t) /\ t \notin Bigs THEN Open ELSE No
    [] x = "max"  -> IF ~Numeric(t) \/ t \in Floats THEN Open ELSE IF t \in Signed THEN Yes(MaxS(PrimSize[t])) ELSE Yes(Ones(PrimSize[t]))
    [] x = "min"  -> IF ~Numeric(t) \/ t \in Floats THEN Open ELSE IF t \in Signed THEN Yes(Top(PrimSize[t])) ELSE Yes(Zeros(PrimSize[t]))
    [] x \in {"over", "under"} -> IF ~Numeric(t) \/ t \in Floats THEN Open ELSE No
    [] OTHER -> No
(* ... a struct, by its instances only *)
RefTokens == <<"inst", "other", "plain", "num", "str", "null", "undef", "arr">>
BareRef(f, x) == IF x = "inst" THEN Yes(Base(TLCEval(TVals(f, 0)))) ELSE IF x = "plain" THEN Open ELSE No
IsStruct(f) == f.t = "" /\ Types[f.r].k = "struct"
IsEnum(f) == f.t = "" /\ Types[f.r].k = "enum"
Toks(f) == IF f.t # "" THEN BareTokens(f.t) ELSE RefTokens
Bare(f, x) == IF f.t # "" THEN Scalar(f.t, x) ELSE BareRef(f, x)

(* arrays hold three items to start from *)
Start(f) == IF f.rep THEN LET b == TLCEval(TVals(f, 0)) IN << Base(b), b[1], Base(b) >> ELSE Base(TLCEval(FVals([f EXCEPT !.opt = FALSE], 0)))
(* The edits of a value v of (bare or repeated) type f: << [p |-> path below, x |-> token, r |-> verdict and value] >> *)
Put(v, i, w) == [v EXCEPT ![i] = w]
Edits1(f, v) ==
  IF f.rep THEN
    << [p |-> <<>>, x |-> "empty", r |-> Yes(<<>>)] >>
    \o [k \in 1..8 |-> [p |-> <<>>, x |-> <<"num", "big", "str", "bool", "null", "undef", "obj", "nan">>[k], r |-> No]]
    \o Flat([i \in 1..Len(v) |-> IF i # 2 THEN
              [k \in 1..Len(Toks(f)) |-> LET b == Bare(f, Toks(f)[k]) IN
                 [p |-> <<ToString(i - 1)>>, x |-> Toks(f)[k], r |-> IF b.a = "yes" THEN Yes(Put(v, i, b.v)) ELSE b]] ELSE <<>>])
  ELSE [k \in 1..Len(Toks(f)) |-> [p |-> <<>>, x |-> Toks(f)[k], r |-> Bare(f, Toks(f)[k])]]
(* an enum: one variant with a valid value; several are refused, none is open *)
EditsEnum(E, v) ==
  << [p |-> <<>>, x |-> "empty-obj", r |-> Open], [p |-> <<>>, x |-> "null", r |-> No], [p |-> <<>>, x |-> "undef", r |-> No],
     [p |-> <<>>, x |-> "num", r |-> No], [p |-> <<>>, x |-> "str", r |-> No] >>
  \o (IF Len(E.f) < 2 THEN <<>> ELSE << [p |-> <<>>, x |-> "two", r |-> No] >>)
  \o Flat([k \in 1..Len(E.f) |->
        LET base == Start(E.f[k])
            es == TLCEval(Edits1(E.f[k], base))
        IN [j \in 1..Len(es) |-> [p |-> <<"=" \o ToString(k - 1)>> \o es[j].p, x |-> es[j].x,
                                  r |-> IF es[j].x = "undef" /\ es[j].p = <<>> THEN Open
                                        ELSE IF es[j].r.a = "yes" THEN Yes(<<k - 1, es[j].r.v>>) ELSE es[j].r]]])
FieldEdits(f, v) ==      \* v: the field's value, without its optionality
  LET es == TLCEval(IF IsEnum(f) THEN EditsEnum(Types[f.r], v) ELSE Edits1(f, v))
  IN [j \in 1..Len(es) |->
        LET e == es[j] IN
        IF e.x = "undef" /\ e.p = <<>> THEN (IF f.opt THEN [e EXCEPT !.r = Yes(<<>>)] ELSE e)
        ELSE IF f.opt /\ e.r.a = "yes" THEN [e EXCEPT !.r = Yes(<<e.r.v>>)] ELSE e]

BaseVal(D) == [i \in DOMAIN D.f |-> LET f == D.f[i]  b == Start(f) IN IF f.opt THEN <<b>> ELSE b]
(* structs only: the objects made of one edit, and those without a field, or with one too many *)
Cases(D) ==
  LET base == TLCEval(BaseVal(D)) IN
  << [p |-> <<>>, x |-> "keep", r |-> Yes(base)], [p |-> <<>>, x |-> "extra", r |-> Yes(base)],
     [p |-> <<>>, x |-> "num", r |-> No], [p |-> <<>>, x |-> "null", r |-> No], [p |-> <<>>, x |-> "undef", r |-> No], [p |-> <<>>, x |-> "str", r |-> No] >>
  \o Flat([i \in 1..Len(D.f) |->
        LET f == D.f[i]
            es == TLCEval(FieldEdits(f, IF f.opt THEN base[i][1] ELSE base[i]))
            all == Append(es, [p |-> <<>>, x |-> "missing", r |-> IF f.opt THEN Yes(<<>>) ELSE No])
        IN [j \in 1..Len(all) |-> [p |-> <<"." \o ToString(i - 1)>> \o all[j].p, x |-> all[j].x,
                                   r |-> IF all[j].r.a = "yes" THEN Yes(Put(base, i, all[j].r.v)) ELSE all[j].r]]])
CaseList == TLCEval([t \in 1..NT |-> IF Types[t].k = "struct" THEN TLCEval(Cases(Types[t])) ELSE <<>>])
(* the values an enum field's variants start from *)
AltsOf(D, p) == IF p = <<>> THEN <<>> ELSE
  LET hit == {i \in DOMAIN D.f : p[1] = "." \o ToString(i - 1)}
      f == D.f[CHOOSE i \in hit : TRUE]
  IN IF ~IsEnum(f) THEN <<>> ELSE [k \in DOMAIN Types[f.r].f |-> <<k - 1, Start(Types[f.r].f[k])>>]
AInit == ti \in 1..NT /\ ci = 0
ANext == ti' = ti /\ ci < Len(CaseList[ti]) /\ ci' = ci + 1
ASpec == AInit /\ [][ANext]_vars
A == CaseList[ti][ci]
(* an accepted object is a message: its encoding is read back as it *)
Sound == IF ci = 0 THEN TRUE ELSE A.r.a = "yes" => Dec(T, Enc(T, A.r.v)) = Ok(A.r.v)
AEmit == IF ci = 0 THEN TRUE ELSE LET b == IF A.r.a = "yes" THEN TLCEval(Enc(T, A.r.v)) ELSE <<>> IN
                   PrintT(ToJson([t |-> T.n, c |-> ci, base |-> BaseVal(T), p |-> A.p, x |-> A.x, alts |-> AltsOf(T, A.p), a |-> A.r.a, v |-> A.r.v, seq |-> Seqn, h |-> Header(T, Seqn, Len(b)), b |-> b]))
=================================================================================
