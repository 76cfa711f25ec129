-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format of clibri.  The schema (message types with the ids the  *)
(* generator gave them) is read from a JSON file; the specification says   *)
(* which bytes represent which value, and what a reader must make of any   *)
(* given bytes.                                                            *)
(*                                                                         *)
(* Scalars are little-endian byte tuples (TLC's integers have 32 bits);    *)
(* strings are tuples of UTF-8 bytes; arrays tuples of values; an optional *)
(* field is <<>> or <<v>>; a struct is the tuple of its fields' values; an *)
(* enum is <<variant index, value>>.                                       *)
(*                                                                         *)
(* Behaviour: the state walks over all (type, value, mutation) triples;    *)
(* every one is checked against the codec's laws and emitted, with the     *)
(* prediction, for replay in the generated Rust and TypeScript code.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Schema == JsonDeserialize(IOEnv.WIRE_SCHEMA)
  (* [sig |-> 0..65535, types |-> << [n |-> name, k |-> "struct"|"enum", id, f |-> <<field>>] >>]    *)
  (* field: [p |-> prop id, t |-> prim name or "", r |-> index of the type referred to (or 0),       *)
  (*         opt |-> BOOLEAN, rep |-> BOOLEAN]; enum variants are fields without opt                  *)
CONSTANTS Depth,        \* nesting bound of generated values
          MutEvery,     \* emit byte damage for every MutEvery-th case (0: none)
          MutMax        \* ... if its body is not longer than this

Types == Schema.types
NT == Len(Types)

----------------------------------------------------------------------------
(* Little-endian numbers *)
Byte(n, i) == (n \div (256 ^ i)) % 256
LE2(n) == << n % 256, (n \div 256) % 256 >>
LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
LE8(n) == LE4(n) \o <<0, 0, 0, 0>>

HUGE == 2000000000  \* stands for every length above 2^24
FromLE(b) ==
  IF \E i \in 4..Len(b) : b[i] # 0 THEN HUGE
  ELSE (IF Len(b) >= 1 THEN b[1] ELSE 0) + 256 * (IF Len(b) >= 2 THEN b[2] ELSE 0)
       + 65536 * (IF Len(b) >= 3 THEN b[3] ELSE 0)

----------------------------------------------------------------------------
(* Primitive types *)
PrimSize == [bool |-> 1, u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8,
             f32 |-> 4, f64 |-> 8]
IsStr(t) == t = "str"

Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 255]
(* every single-bit-lane position matters: a "counting" pattern distinguishes every byte position *)
Count(n) == [i \in 1..n |-> i]
Top(n)   == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]       \* MIN of signed types
MaxS(n)   == [i \in 1..n |-> IF i = n THEN 127 ELSE 255]     \* MAX of signed types
One(n)   == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]

PrimVals(t) ==
  CASE t = "bool" -> << <<0>>, <<1>> >>
    [] t = "f32"  -> << <<0,0,0,0>>, <<0,0,128,63>>, <<0,0,0,128>>, <<205,204,76,192>>, <<255,255,127,127>>,
                        <<0,0,128,127>>, <<0,0,128,255>>, <<1,0,0,0>>, <<0,0,192,127>> >>
    [] t = "f64"  -> << <<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,240,63>>, <<0,0,0,0,0,0,0,128>>,
                        <<154,153,153,153,153,153,185,191>>, <<255,255,255,255,255,255,239,127>>,
                        <<0,0,0,0,0,0,240,127>>, <<0,0,0,0,0,0,240,255>>, <<1,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,248,127>>,
                        <<1,2,3,4,5,6,7,64>> >>
    [] t = "str"  -> << <<>>, <<97>>, <<104,195,169>>, <<226,130,172,240,159,152,128>>, <<0>>, <<97,0,98>>,
                        <<239,187,191,120>>, [i \in 1..70 |-> 65 + (i % 26)] >>
    [] OTHER -> LET n == PrimSize[t] IN
                  << Zeros(n), One(n), Count(n), Top(n), MaxS(n), Ones(n) >>

Base(s) == s[IF Len(s) > 2 THEN 3 ELSE Len(s)]

(* Flatten a sequence of sequences *)
RECURSIVE FlatOf(_, _, _)
FlatOf(ss, lo, hi) == IF hi - lo < 16 THEN FoldLeft(LAMBDA acc, x : acc \o x, <<>>, SubSeq(ss, lo, hi))
                      ELSE LET mid == (lo + hi) \div 2 IN FlatOf(ss, lo, mid) \o FlatOf(ss, mid + 1, hi)
Flat(ss) == LET s == TLCEval(ss) IN FlatOf(s, 1, Len(s))

----------------------------------------------------------------------------
(* Values of a type reference up to a depth, as a sequence (never a set: values are heterogeneous). *)
RECURSIVE TVals(_, _), FVals(_, _), SVals(_, _), EVals(_, _)

TVals(f, d) ==                    \* values of the bare type of field f
  IF f.t # "" THEN PrimVals(f.t)
  ELSE IF Types[f.r].k = "struct" THEN SVals(Types[f.r], d) ELSE EVals(Types[f.r], d)

Reduced(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)

FVals(f, d) ==                    \* values of field f with repetition and optionality
  LET bare == TLCEval(TVals(f, d))
      b  == Base(bare)
      rep == << <<>>, <<b>>, <<bare[1]>>, <<b, bare[1], b>>, bare >>
      v  == IF f.rep THEN (IF d = 0 THEN << <<>>, <<b>> >> ELSE rep) ELSE bare
  IN IF f.opt THEN << <<>> >> \o [i \in 1..Len(v) |-> <<v[i]>>] ELSE v

(* of very wide structs only some fields are varied *)
Picked(n) == IF n <= 16 THEN [i \in 1..n |-> i] ELSE << 1, 2, n \div 3, n \div 2, n - 1, n >>

SVals(T, d) ==
  LET n == Len(T.f) IN
  IF n = 0 THEN << <<>> >> ELSE
  LET per  == TLCEval([i \in 1..n |-> FVals(T.f[i], IF d = 0 THEN 0 ELSE d - 1)])
      base == TLCEval([i \in 1..n |-> Base(per[i])])
  IN IF d = 0
     THEN << [i \in 1..n |-> per[i][1]], base, [i \in 1..n |-> per[i][Len(per[i])]] >>
     ELSE << base, [i \in 1..n |-> per[i][1]], base, [i \in 1..n |-> per[i][Len(per[i])]] >>
          \o Flat([k \in 1..Len(Picked(n)) |-> LET i == Picked(n)[k] IN LET vs == IF n > 64 THEN Reduced(per[i], 2) ELSE per[i] IN
                                                             [j \in 1..Len(vs) |-> [base EXCEPT ![i] = vs[j]]]])

EVals(T, d) ==
  Flat([i \in 1..Len(T.f) |->
        LET vs == FVals(T.f[i], IF d = 0 THEN 0 ELSE d - 1)
            use == IF d = 0 THEN <<Base(vs)>> ELSE vs
        IN [j \in 1..Len(use) |-> <<i - 1, use[j]>>]])

----------------------------------------------------------------------------
(* Encoding *)
RECURSIVE EncBare(_, _), EncField(_, _), EncStruct(_, _), EncEnum(_, _), EncPayload(_, _)

EncBare(f, v) ==                   \* bytes of one bare value (no property header)
  IF f.t # "" THEN v
  ELSE IF Types[f.r].k = "struct" THEN EncStruct(Types[f.r], v) ELSE EncEnum(Types[f.r], v)

ItemLen(f, n) == IF f.t = "str" THEN LE4(n) ELSE LE8(n)   \* strings in arrays carry a u32 length, structs and enums u64

EncPayload(f, v) ==                \* bytes of the value of f when present
  IF f.rep THEN
    IF f.t # "" /\ f.t # "str" THEN Flat(v)
    ELSE Flat([i \in 1..Len(v) |-> LET b == TLCEval(EncBare(f, v[i])) IN ItemLen(f, Len(b)) \o b])
  ELSE EncBare(f, v)

Fixed(f) == f.t # "" /\ f.t # "str" /\ ~f.rep
EncField(f, v) ==                  \* property: id, size rank, size, bytes
  IF f.opt /\ v = <<>> THEN LE2(f.p) \o <<8, 0>>
  ELSE LET w == IF f.opt THEN v[1] ELSE v
           b == TLCEval(EncPayload(f, w))
       IN IF Fixed(f) THEN LE2(f.p) \o <<8, Len(b)>> \o b
                      ELSE LE2(f.p) \o <<64>> \o LE8(Len(b)) \o b

EncProps(T, v) == TLCEval([i \in 1..Len(T.f) |-> EncField(T.f[i], v[i])])
EncStruct(T, v) == Flat(EncProps(T, v))
EncEnum(T, v) == LE2(v[1]) \o EncPayload(T.f[v[1] + 1], v[2])
Enc(T, v) == IF T.k = "struct" THEN EncStruct(T, v) ELSE EncEnum(T, v)

Header(T, seq, len) == LE4(T.id) \o LE2(Schema.sig) \o LE4(seq) \o Zeros(8) \o LE8(len)

----------------------------------------------------------------------------
(* Decoding: [s |-> "ok", v |-> value] | [s |-> "err"] | [s |-> "any"].    *)
(* "any" marks bytes whose meaning is deliberately left open (over-long    *)
(* scalars, repeated properties, bool bytes above 1, text that is not      *)
(* UTF-8, enums without content): a reader may take them or reject them, but has to return.       *)
Ok(v) == [s |-> "ok", v |-> v]
Err == [s |-> "err", v |-> <<>>]
AnyR == [s |-> "any", v |-> <<>>]

RECURSIVE Utf8(_)
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
Utf8(b) ==
  IF b = <<>> THEN TRUE
  ELSE IF b[1] < 128 THEN Utf8(Tail(b))
  ELSE IF b[1] >= 194 /\ b[1] < 224 /\ Cont(b, 2) THEN Utf8(SubSeq(b, 3, Len(b)))
  ELSE IF b[1] >= 224 /\ b[1] < 240 /\ Cont(b, 2) /\ Cont(b, 3)
          /\ (b[1] = 224 => b[2] >= 160) /\ (b[1] = 237 => b[2] < 160) THEN Utf8(SubSeq(b, 4, Len(b)))
  ELSE IF b[1] >= 240 /\ b[1] < 245 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4)
          /\ (b[1] = 240 => b[2] >= 144) /\ (b[1] = 244 => b[2] < 144) THEN Utf8(SubSeq(b, 5, Len(b)))
  ELSE FALSE

Sub(b, i, n) == SubSeq(b, i, i + n - 1)

(* the property list of a struct body: << [id, rank, b] >>, or "bad" *)
RankLen(r) == CASE r = 8 -> 1 [] r = 16 -> 2 [] r = 32 -> 4 [] r = 64 -> 8 [] OTHER -> 0
RECURSIVE Props(_, _, _)
Props(b, pos, acc) ==
  IF pos > Len(b) THEN [ok |-> TRUE, p |-> acc]
  ELSE IF pos + 2 > Len(b) THEN [ok |-> FALSE, p |-> <<>>]
  ELSE LET rl == RankLen(b[pos + 2]) IN
       IF rl = 0 \/ pos + 2 + rl > Len(b) THEN [ok |-> FALSE, p |-> <<>>]
       ELSE LET n == FromLE(Sub(b, pos + 3, rl))
                start == pos + 3 + rl
            IN IF start + n - 1 > Len(b) THEN [ok |-> FALSE, p |-> <<>>]
               ELSE Props(b, start + n, Append(acc, [id |-> b[pos] + 256 * b[pos + 1], rank |-> b[pos + 2], b |-> Sub(b, start, n)]))

(* results of a list: any error wins, then any "any" *)
Join(rs0) == LET rs == TLCEval(rs0) IN
            IF \E i \in DOMAIN rs : rs[i].s = "err" THEN Err
            ELSE IF \E i \in DOMAIN rs : rs[i].s = "any" THEN AnyR
            ELSE Ok(TLCEval([i \in DOMAIN rs |-> rs[i].v]))

RECURSIVE DecBare(_, _), DecPayload(_, _), DecItems(_, _), DecStruct(_, _), DecEnum(_, _)

IsNaN(b, top) == LET n == Len(b) IN
  b[n] % 128 = 127 /\ b[n - 1] >= top /\ (b[n - 1] > top \/ \E i \in 1..(n - 2) : b[i] # 0)
DecPrim(t, b) ==
  IF t = "str" THEN (IF Utf8(b) THEN Ok(b) ELSE AnyR)
  ELSE IF Len(b) < PrimSize[t] THEN Err
  ELSE IF Len(b) > PrimSize[t] THEN AnyR
  ELSE IF t = "bool" /\ b[1] > 1 THEN AnyR
  ELSE IF t = "f32" /\ IsNaN(b, 128) THEN Ok(<<0, 0, 192, 127>>)         \* one NaN stands for all
  ELSE IF t = "f64" /\ IsNaN(b, 240) THEN Ok(<<0, 0, 0, 0, 0, 0, 248, 127>>)
  ELSE Ok(b)

DecBare(f, b) ==
  IF f.t # "" THEN DecPrim(f.t, b)
  ELSE IF Types[f.r].k = "struct" THEN DecStruct(Types[f.r], b) ELSE DecEnum(Types[f.r], b)

DecItems(f, b) ==                  \* length-prefixed items
  IF b = <<>> THEN <<>>
  ELSE LET pl == IF f.t = "str" THEN 4 ELSE 8 IN
       IF Len(b) < pl THEN <<Err>>
       ELSE LET n == FromLE(Sub(b, 1, pl)) IN
            IF pl + n > Len(b) THEN <<Err>>
            ELSE <<DecBare(f, Sub(b, pl + 1, n))>> \o DecItems(f, SubSeq(b, pl + n + 1, Len(b)))

DecPayload(f, b) ==
  IF f.rep THEN
    IF f.t # "" /\ f.t # "str" THEN
      LET n == PrimSize[f.t] IN
      IF Len(b) % n # 0 THEN Err
      ELSE Join([i \in 1..(Len(b) \div n) |-> DecPrim(f.t, Sub(b, (i - 1) * n + 1, n))])
    ELSE Join(DecItems(f, b))
  ELSE DecBare(f, b)

DecProp(f, ps) ==
  LET hits == SelectSeq(ps, LAMBDA p : p.id = f.p) IN
  IF Len(hits) > 1 THEN AnyR
  ELSE IF Len(hits) = 0 THEN Err
  ELSE LET h == hits[1] IN
       IF f.opt /\ h.b = <<>> THEN
         IF h.rank = 8 THEN Ok(<<>>)
         ELSE IF Fixed(f) \/ h.rank # 64 \/ (~f.rep /\ f.t = "" /\ Types[f.r].k = "enum") THEN AnyR
         ELSE LET r == DecPayload(f, h.b) IN IF r.s = "ok" THEN Ok(<<r.v>>) ELSE r
       ELSE IF h.b = <<>> /\ ~f.rep /\ f.t = "" /\ Types[f.r].k = "enum" THEN AnyR     \* an enum nobody set yet (TypeScript)
       ELSE IF h.b = <<>> /\ h.rank # 64 THEN (IF Fixed(f) THEN Err ELSE AnyR)
       ELSE LET r == DecPayload(f, h.b) IN
            IF f.opt /\ r.s = "ok" THEN Ok(<<r.v>>) ELSE r

DecStruct(T, b) ==
  LET ps == TLCEval(Props(b, 1, <<>>)) IN
  IF ~ps.ok THEN Err ELSE Join([i \in 1..Len(T.f) |-> DecProp(T.f[i], ps.p)])

DecEnum(T, b) ==
  IF Len(b) < 2 THEN Err
  ELSE LET ix == b[1] + 256 * b[2] IN
       IF ix >= Len(T.f) THEN Err
       ELSE LET r == DecPayload(T.f[ix + 1], SubSeq(b, 3, Len(b))) IN
            IF r.s = "ok" THEN Ok(<<ix, r.v>>) ELSE r

Dec(T, b) == IF T.k = "struct" THEN DecStruct(T, b) ELSE DecEnum(T, b)

----------------------------------------------------------------------------
(* Mutations of an encoded body *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rot(s) == IF Len(s) = 0 THEN s ELSE Tail(s) \o <<Head(s)>>
UnknownId(T) == CHOOSE n \in 60000..60100 : \A i \in 1..Len(T.f) : T.f[i].p # n
UnknownProps(T) == << LE2(UnknownId(T)) \o <<8, 1, 77>>, LE2(UnknownId(T)) \o <<64>> \o LE8(3) \o <<1, 2, 3>>,
                      LE2(UnknownId(T)) \o <<8, 0>>, LE2(UnknownId(T)) \o <<16>> \o LE2(2) \o <<9, 9>>,
                      LE2(UnknownId(T)) \o <<32>> \o LE4(1) \o <<200>> >>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

(* order and unknown properties *)
Shuffles(T, v) ==
  IF T.k # "struct" \/ Len(T.f) = 0 THEN <<>> ELSE
  LET ps == EncProps(T, v) IN
  << [m |-> "reverse", b |-> Flat(Rev(ps))], [m |-> "rotate", b |-> Flat(Rot(ps))] >>
  \o [i \in 1..5 |-> [m |-> "unknown", b |-> Flat(Ins(ps, (i * 7) % (Len(ps) + 1), UnknownProps(T)[i]))]]
  \o [k \in 1..Len(Picked(Len(ps))) |-> [m |-> "omit", b |-> Flat(Drop(ps, Picked(Len(ps))[k]))]]

(* damage: descriptors <<kind, position>>, applied by Apply (and, byte for byte, by the replay driver) *)
Exts == << <<0>>, <<1, 2, 8>>, <<255, 255, 64, 255, 255, 255, 255, 255, 255, 255, 255>>,
           <<255, 255, 64, 0, 0, 0, 0, 0, 0, 0, 64>>, <<255, 255, 64, 255, 255, 255, 255, 255, 255, 255, 127>>,
           <<255, 255, 32, 255, 255, 255, 255>>, <<255, 255, 33, 1, 1>>, <<255, 255, 16, 1>>, <<255>>, <<255, 255>>, <<255, 255, 8>> >>
Apply(b, m, i) ==
  CASE m = "cut" -> SubSeq(b, 1, i - 1)
    [] m = "inc" -> [b EXCEPT ![i] = (@ + 1) % 256]
    [] m = "dec" -> [b EXCEPT ![i] = (@ + 255) % 256]
    [] m = "max" -> [b EXCEPT ![i] = 255]
    [] m = "hi"  -> [b EXCEPT ![i] = (@ + 128) % 256]
    [] m = "del" -> Drop(b, i)
    [] m = "ext" -> b \o Exts[i]
Kinds == <<"cut", "inc", "dec", "max", "hi", "del">>
Damage(b) == Flat([k \in 1..Len(Kinds) |-> [i \in 1..Len(b) |-> <<Kinds[k], i>>]])
             \o [i \in 1..Len(Exts) |-> <<"ext", i>>]

(* consistent damage: a property (or, one level down, a property of a nested struct, or an item of an array) keeps *)
(* a truthful size, but its content is shortened, extended, or announced with another rank                          *)
Prop(id, rank, b) == LE2(id) \o <<rank>> \o (CASE rank = 8 -> <<Len(b)>> [] rank = 16 -> LE2(Len(b)) [] rank = 32 -> LE4(Len(b)) [] OTHER -> LE8(Len(b))) \o b
Cut(b, n) == SubSeq(b, 1, Len(b) - n)
Bodies(b) == << b \o <<0>>, b \o <<1, 2, 3>> >>
             \o (IF Len(b) >= 1 THEN << Cut(b, 1), Tail(b), <<>> >> ELSE << >>)
             \o (IF Len(b) >= 3 THEN << Cut(b, 2), Cut(b, 3) >> ELSE << >>)
             \o (IF Len(b) >= 6 THEN << Cut(b, 5), SubSeq(b, 1, Len(b) \div 2 + 1) >> ELSE << >>)
Swap(ps, i, x) == [ps EXCEPT ![i] = x]
FieldPicks(n, c) == IF n <= 4 THEN [i \in 1..n |-> i] ELSE << (c % n) + 1, ((c + 1 + n \div 3) % n) + 1, ((c + 2 + (2 * n) \div 3) % n) + 1 >>

RECURSIVE Reshape(_, _, _, _), ReField(_, _, _, _)
ReField(f, v, c, deep) ==          \* other contents for field f holding v
  IF f.opt /\ v = <<>> THEN << >> ELSE
  LET w == IF f.opt THEN v[1] ELSE v
      b == TLCEval(EncPayload(f, w))
      nested == IF deep = 0 \/ f.t # "" THEN << >>
                ELSE IF ~f.rep THEN (IF Types[f.r].k = "struct" THEN Reshape(Types[f.r], w, c, deep - 1) ELSE << >>)
                ELSE IF Len(w) = 0 \/ Types[f.r].k # "struct" THEN << >>
                ELSE LET rs == TLCEval(Reshape(Types[f.r], w[1], c, deep - 1))
                         rest == EncPayload(f, Tail(w))
                     IN [i \in 1..Len(rs) |-> LE8(Len(rs[i])) \o rs[i] \o rest]
      items == IF ~f.rep \/ f.t \notin {"", "str"} \/ Len(w) = 0 THEN << >>
               ELSE LET one == TLCEval(EncBare(f, w[1]))
                        rest == EncPayload(f, Tail(w))
                    IN [i \in 1..Len(Bodies(one)) |-> LET x == Bodies(one)[i] IN ItemLen(f, Len(x)) \o x \o rest]
  IN Bodies(b) \o nested \o items
Reshape(T0, v, c, deep) ==
  IF T0.k # "struct" THEN << >> ELSE
  LET ps == EncProps(T0, v)  picks == FieldPicks(Len(ps), c) IN
  Flat([k \in 1..Len(picks) |->
        LET i == picks[k]  f == T0.f[i]
            bs == TLCEval(ReField(f, v[i], c, deep))
            own == IF f.opt /\ v[i] = <<>> THEN << >> ELSE << EncPayload(f, IF f.opt THEN v[i][1] ELSE v[i]) >>
            ranks == IF Fixed(f) THEN << 8 >> ELSE << 64 >>
        IN [j \in 1..Len(bs) |-> Flat(Swap(ps, i, Prop(f.p, IF Len(bs[j]) < 200 /\ j % 5 = 0 THEN 16 ELSE ranks[1], bs[j])))]
           \o (IF own = << >> THEN << >> ELSE
               [j \in 1..3 |-> Flat(Swap(ps, i, Prop(f.p, <<16, 32, 64>>[j], own[1])))])])

----------------------------------------------------------------------------
(* The walk.  ti: type, ci: case of the type. *)
Vals == TLCEval([t \in 1..NT |-> TLCEval(IF Types[t].k = "struct" THEN SVals(Types[t], Depth) ELSE EVals(Types[t], Depth))])

VARIABLES ti, ci
vars == <<ti, ci>>

Init == ti \in 1..NT /\ ci = 1
Next == ti' = ti /\ ci' = ci + 1 /\ ci < Len(Vals[ti]) 
Spec == Init /\ [][Next]_vars

T == Types[ti]
Shuf(v) == IF Len(T.f) > 64 /\ ci > 3 THEN <<>> ELSE Shuffles(T, v)
V == Vals[ti][ci]
Body == Enc(T, V)
Seqn == (ti * 7919 + ci * 104729) % 2000000000

Mutants(b) == IF MutEvery > 0 /\ Len(b) <= MutMax /\ (ci % MutEvery = 0 \/ ci <= 2) THEN Damage(b) ELSE <<>>

WithExp(ms0) == LET ms == TLCEval(ms0) IN [i \in 1..Len(ms) |-> LET r == TLCEval(Dec(T, ms[i].b)) IN <<ms[i].m, ms[i].b, r.s, r.v>>]
Judged(b, ms0) == LET ms == TLCEval(ms0) IN [i \in 1..Len(ms) |-> LET r == TLCEval(Dec(T, TLCEval(Apply(b, ms[i][1], ms[i][2])))) IN <<ms[i][1], ms[i][2], r.s, r.v>>]

Reshaped == IF MutEvery = 0 \/ Len(T.f) > 64 THEN << >> ELSE
            LET bs == TLCEval(IF T.k = "struct" THEN Reshape(T, V, ci, 2)
                              ELSE LET xs == TLCEval(ReField(T.f[V[1] + 1], V[2], ci, 2)) IN [i \in 1..Len(xs) |-> LE2(V[1]) \o xs[i]])
            IN [i \in 1..Len(bs) |-> LET r == TLCEval(Dec(T, bs[i])) IN <<"reshape", bs[i], r.s, r.v>>]

(* the laws of the codec *)
RoundTrip == Dec(T, Body) = Ok(V)
OrderFree == LET ss == TLCEval(Shuf(V)) IN \A i \in DOMAIN ss :
               LET m == ss[i] IN
               m.m \in {"reverse", "rotate", "unknown"} => Dec(T, m.b) = Ok(V)
Emit == LET b == TLCEval(Body) IN
        PrintT(ToJson([t |-> T.n, c |-> ci, v |-> V, seq |-> Seqn, h |-> Header(T, Seqn, Len(b)), b |-> b,
                       sh |-> WithExp(Shuf(V)), dm |-> Judged(b, Mutants(b)), rs |-> Reshaped]))

----------------------------------------------------------------------------
(* Streams: what a reader has to make of arbitrary bytes.  Items: [k |-> "ok"|"err"|"any", t |-> type, v, seq] *)
TypeOf(id4) == LET hits == {x \in 1..NT : LE4(Types[x].id) = id4} IN IF hits = {} THEN 0 ELSE CHOOSE x \in hits : TRUE
RECURSIVE Stream(_)
Stream(b) ==
  IF Len(b) < 26 THEN [items |-> <<>>, left |-> Len(b)]
  ELSE LET n == FromLE(Sub(b, 19, 8)) IN
       IF 26 + n > Len(b) THEN [items |-> <<>>, left |-> Len(b)]
       ELSE LET x == TypeOf(Sub(b, 1, 4))
                r == IF Sub(b, 5, 2) # LE2(Schema.sig) \/ x = 0 THEN Err ELSE Dec(Types[x], Sub(b, 27, n))
                item == [k |-> r.s, t |-> IF x = 0 THEN "" ELSE Types[x].n, v |-> r.v, seq |-> Sub(b, 7, 4)]
                rest == Stream(SubSeq(b, 27 + n, Len(b)))
            IN [items |-> <<item>> \o rest.items, left |-> rest.left]

(* a delivery list explains the items: every "ok" delivered with its value, no "err" delivered, "any" may be *)
RECURSIVE Explains(_, _)
Explains(items, got) ==
  IF items = <<>> THEN got = <<>>
  ELSE LET it == Head(items) IN
       IF it.k = "ok" THEN got # <<>> /\ got[1].t = it.t /\ got[1].v = it.v /\ got[1].seq = it.seq /\ Explains(Tail(items), Tail(got))
       ELSE IF it.k = "err" THEN Explains(Tail(items), got)
       ELSE Explains(Tail(items), got) \/ (got # <<>> /\ got[1].t = it.t /\ Explains(Tail(items), Tail(got)))

NErr(items) == Len(SelectSeq(items, LAMBDA it : it.k = "err"))
NAny(items) == Len(SelectSeq(items, LAMBDA it : it.k = "any"))

(* Records made from the real code: [b |-> bytes fed, got |-> deliveries, errs |-> reported errors, left |-> bytes kept] *)
Records == JsonDeserialize(IOEnv.WIRE_RECORDS)
Explained(r) == LET st == Stream(r.b) IN
  /\ Explains(st.items, r.got)
  /\ r.errs >= NErr(st.items) /\ r.errs <= NErr(st.items) + NAny(st.items)
  /\ r.left = st.left

JInit == ti = 0 /\ ci = 1 /\ Len(Records) > 0
JNext == ti' = 0 /\ ci < Len(Records) /\ ci' = ci + 1
JSpec == JInit /\ [][JNext]_vars
JEmit == IF Explained(Records[ci]) THEN TRUE
         ELSE LET st == Stream(Records[ci].b) IN PrintT(ToJson([rec |-> ci, items |-> st.items, left |-> st.left]))
=============================================================================
