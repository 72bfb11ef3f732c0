------------------------------- MODULE Binary -------------------------------
(***************************************************************************)
(* The WebAssembly binary format and the typing rules: Verdict(b) is "ok"  *)
(* when the bytes b are a valid module, "bad" when they are malformed or   *)
(* invalid, and "unsup" when they use a feature that this specification    *)
(* does not describe (garbage collection, exceptions, threads, typed       *)
(* function references) or go past customary implementation limits, about  *)
(* which nothing is claimed.                                               *)
(*                                                                         *)
(* One state s walks over the bytes: p is the position, e the end of the   *)
(* current section or body, v the verdict so far, x the value read last;   *)
(* types, fn, tabs, mems, globs, elems, refs, ... the module so far;       *)
(* ops/ctl the operand and control stacks of the body being typed.         *)
(***************************************************************************)
EXTENDS Bytes

Bad(s) == [s EXCEPT !.v = "bad"]
Unsup(s) == IF s.v = "ok" THEN [s EXCEPT !.v = "unsup"] ELSE s
Req(s, c) == IF c THEN s ELSE Bad(s)
Ok(s) == s.v = "ok"
Count_(n) == Tup([i \in 1..n |-> i])

-----------------------------------------------------------------------------
(* Primitive readers: each moves s.p and leaves the value in s.x *)

RByte(s) == IF s.p > s.e THEN Bad(s) ELSE [s EXCEPT !.x = s.b[s.p], !.p = @ + 1]
Skip(s, n) == IF n > s.e - s.p + 1 THEN Bad(s) ELSE [s EXCEPT !.p = @ + n]
\* the position of the last byte of a LEB number of at most k bytes, 0 if there is none
RECURSIVE LebEnd(_,_,_,_)
LebEnd(b, p, e, k) == IF p > e \/ k = 0 THEN 0 ELSE IF b[p] < 128 THEN p ELSE LebEnd(b, p + 1, e, k - 1)
\* unsigned, 32 bits; values of 2^29 and more read as Clip
RU32(s) ==
  LET p == s.p
      q == LebEnd(s.b, p, s.e, 5)
      n == q - p + 1
      d(i) == s.b[p + i] % 128
  IN  IF p <= s.e /\ s.b[p] < 128 THEN [s EXCEPT !.x = s.b[p], !.p = p + 1]
      ELSE IF q = 0 \/ (n = 5 /\ s.b[q] >= 16) THEN Bad(s)
      ELSE [s EXCEPT !.p = q + 1,
                     !.x = IF n = 5 /\ s.b[q] >= 2 THEN Clip
                           ELSE FoldLeft(LAMBDA a, i : a + d(i - 1) * Pow2[7 * (i - 1)], 0, Count_(n))]
\* unsigned, 64 bits, as 8 bytes
RU64(s) ==
  LET p == s.p
      q == LebEnd(s.b, p, s.e, 10)
      n == q - p + 1
  IN  IF p <= s.e /\ s.b[p] < 128 THEN [s EXCEPT !.x = FromNat(s.b[p], 8), !.p = p + 1]
      ELSE IF q = 0 \/ (n = 10 /\ s.b[q] >= 2) THEN Bad(s)
      ELSE [s EXCEPT !.p = q + 1,
                     !.x = FoldLeft(LAMBDA a, i : LET t == ShlK(a, 7) IN [t EXCEPT ![1] = @ + (s.b[q + 1 - i] % 128)], Zero(8), Count_(n))]
\* a 32-bit unsigned number as 8 bytes
RU32x8(s) == LET t == RU64(s) IN
  IF ~Ok(t) THEN t ELSE Req(t, t.p - s.p <= 5 /\ t.x[5] = 0 /\ t.x[6] = 0 /\ t.x[7] = 0 /\ t.x[8] = 0)
\* signed numbers, of which only the extent matters
RS(s, k, last(_)) ==
  LET q == LebEnd(s.b, s.p, s.e, k) IN
  IF q = 0 \/ (q - s.p + 1 = k /\ ~last(s.b[q])) THEN Bad(s) ELSE [s EXCEPT !.p = q + 1]
RS32(s) == RS(s, 5, LAMBDA y : y \in 0..7 \/ y \in 120..127)
RS64(s) == RS(s, 10, LAMBDA y : y = 0 \/ y = 127)

\* well-formed UTF-8 in positions from..to: state <<needed, low, high>>, or <<-1>>
Utf8At(b, from, to) ==
  LET r == FoldLeft(LAMBDA a, i :
             LET c == b[from + i - 1] IN
             IF a[1] < 0 THEN a
             ELSE IF a[1] > 0 THEN (IF c >= a[2] /\ c <= a[3] THEN <<a[1] - 1, 128, 191>> ELSE <<-1, 0, 0>>)
             ELSE IF c < 128 THEN a
             ELSE IF c >= 194 /\ c <= 223 THEN <<1, 128, 191>>
             ELSE IF c = 224 THEN <<2, 160, 191>>
             ELSE IF c = 237 THEN <<2, 128, 159>>
             ELSE IF c >= 225 /\ c <= 239 THEN <<2, 128, 191>>
             ELSE IF c = 240 THEN <<3, 144, 191>>
             ELSE IF c >= 241 /\ c <= 243 THEN <<3, 128, 191>>
             ELSE IF c = 244 THEN <<3, 128, 143>>
             ELSE <<-1, 0, 0>>,
           <<0, 128, 191>>, Count_(to - from + 1))
  IN  r[1] = 0
\* a name; its bytes
RName(s) ==
  LET t == RU32(s)
      n == t.x
  IN  IF ~Ok(t) \/ n > t.e - t.p + 1 THEN Bad(t)
      ELSE IF ~Utf8At(t.b, t.p, t.p + n - 1) THEN Bad(t)
      ELSE [t EXCEPT !.x = SubSeq(t.b, t.p, t.p + n - 1), !.p = @ + n]

\* a vector: item is applied count times
RVec(s, item(_)) ==
  LET t == RU32(s) IN
  IF ~Ok(t) THEN t
  ELSE IF t.x > t.e - t.p + 1 THEN Bad(t)       \* every item takes at least a byte
  ELSE FoldLeft(LAMBDA a, i : IF Ok(a) THEN item(a) ELSE a, t, Count_(t.x))

-----------------------------------------------------------------------------
(* Types *)

Refs == {"funcref", "externref"}
GcTypes == {99, 100} \cup (105..110) \cup (113..116)    \* typed references and the types of other proposals
IsValByte(y) == y \in 123..127 \/ y \in {111, 112} \/ y \in GcTypes
ValOf(y) == CASE y = 127 -> "i32" [] y = 126 -> "i64" [] y = 125 -> "f32" [] y = 124 -> "f64" [] y = 123 -> "v128"
              [] y = 112 -> "funcref" [] y = 111 -> "externref"
RVal(s) == LET t == RByte(s) IN
  IF ~Ok(t) THEN t ELSE IF t.x \in GcTypes THEN Unsup(t)
  ELSE IF ~IsValByte(t.x) THEN Bad(t) ELSE [t EXCEPT !.x = ValOf(t.x)]
RRefType(s) == LET t == RVal(s) IN IF Ok(t) THEN Req(t, t.x \in Refs) ELSE t
RVals(s) == LET t == RVec([s EXCEPT !.l = <<>>], LAMBDA a : LET u == RVal(a) IN IF Ok(u) THEN [u EXCEPT !.l = Append(@, u.x)] ELSE u)
            IN  IF Ok(t) THEN (IF Len(t.l) > 1000 THEN Unsup(t) ELSE [t EXCEPT !.x = t.l]) ELSE t
RFuncType(s) ==
  LET f == RByte(s)
      p == RVals(f)
      r == RVals(p)
  IN  IF ~Ok(f) THEN f ELSE IF f.x \in {78, 79, 80, 93, 94, 95, 76, 77} THEN Unsup(f) ELSE IF f.x # 96 THEN Bad(f)
      ELSE IF ~Ok(p) THEN p ELSE IF ~Ok(r) THEN r
      ELSE [r EXCEPT !.types = Append(@, [p |-> p.x, r |-> r.x])]
\* limits, given the flags: x = <<min, max>> as 8 bytes each, max empty if there is none
RLimits(s, has, is64) ==
  LET rd(u) == IF is64 THEN RU64(u) ELSE RU32x8(u)
      a == rd(s)
      z == rd(a)
  IN  IF ~Ok(a) THEN a ELSE IF ~has THEN [a EXCEPT !.x = <<a.x, <<>>>>]
      ELSE IF ~Ok(z) THEN z ELSE Req([z EXCEPT !.x = <<a.x, z.x>>], ~LtU(z.x, a.x))
RTableType(s) ==
  LET t == RRefType(s)
      f == RByte(t)
      has == f.x % 2 = 1
      is64 == f.x >= 4
      l == RLimits(f, has, is64)
  IN  IF ~Ok(t) THEN t ELSE IF ~Ok(f) THEN f
      ELSE IF f.x \in {2, 3, 6, 7} THEN Unsup(f) ELSE IF f.x > 7 THEN Bad(f)
      ELSE IF ~Ok(l) THEN l
      ELSE IF ToNat(l.x[1]) > 10000000 THEN Unsup(l)
      ELSE [l EXCEPT !.tabs = Append(@, [et |-> t.x, it |-> IF is64 THEN "i64" ELSE "i32"])]
PagesOk(n, is64, ps) ==      \* n pages of 2^ps bytes fit the address space
  IF ps = 0 THEN TRUE
  ELSE IF is64 THEN ~LtU(<<0, 0, 0, 0, 0, 0, 1, 0>>, n) ELSE ~LtU(<<0, 0, 1, 0, 0, 0, 0, 0>>, n)
RMemType(s) ==
  LET f == RByte(s)
      bits(k) == (f.x \div k) % 2 = 1
      l == RLimits(f, bits(1), bits(4))
      z == RU32(l)
      u == IF bits(8) THEN z ELSE l
      ps == IF bits(8) THEN z.x ELSE 16
  IN  IF ~Ok(f) THEN f ELSE IF f.x > 15 THEN Bad(f) ELSE IF bits(2) THEN Unsup(f)
      ELSE IF ~Ok(l) THEN l ELSE IF ~Ok(u) THEN u
      ELSE IF ps \notin {0, 16} THEN Bad(u)
      ELSE IF ~PagesOk(l.x[1], bits(4), ps) \/ (l.x[2] # <<>> /\ ~PagesOk(l.x[2], bits(4), ps)) THEN Bad(u)
      ELSE [u EXCEPT !.mems = Append(@, IF bits(4) THEN "i64" ELSE "i32")]
RGlobType(s, imp) ==
  LET t == RVal(s)
      m == RByte(t)
  IN  IF ~Ok(t) THEN t ELSE IF ~Ok(m) THEN m ELSE IF m.x > 1 THEN Bad(m)
      ELSE [m EXCEPT !.globs = Append(@, [ty |-> t.x, mu |-> m.x = 1, imp |-> imp])]
\* x = <<parameter types, result types>>
RBlockType(s) ==
  LET y == IF s.p > s.e THEN -1 ELSE s.b[s.p]
      t == RS(s, 5, LAMBDA z : z \in 0..15 \/ z \in 112..127)
      i == RU32(s)
  IN  IF y < 0 THEN Bad(s)
      ELSE IF y = 64 THEN [s EXCEPT !.p = @ + 1, !.x = <<<<>>, <<>>>>]
      ELSE IF y \in GcTypes THEN Unsup(s)
      ELSE IF IsValByte(y) THEN [s EXCEPT !.p = @ + 1, !.x = <<<<>>, <<ValOf(y)>>>>]
      ELSE IF ~Ok(t) \/ s.b[t.p - 1] >= 64 THEN Bad(s)
      ELSE IF ~Ok(i) \/ i.x >= Len(s.types) THEN Bad(s)
      ELSE [i EXCEPT !.x = <<s.types[i.x + 1].p, s.types[i.x + 1].r>>]

-----------------------------------------------------------------------------
(* Typing: operand and control stacks.  "bot" is a value of every type. *)

Top(s) == s.ctl[Len(s.ctl)]
Pop(s, t) ==      \* t = "any": x is the type found
  LET n == Len(s.ops)
      c == Top(s)
  IN  IF ~Ok(s) THEN s
      ELSE IF n = c.h THEN (IF c.un THEN [s EXCEPT !.x = "bot"] ELSE Bad(s))
      ELSE LET o == s.ops[n] IN
           IF t = "any" \/ o = t \/ o = "bot" THEN [s EXCEPT !.ops = SubSeq(@, 1, n - 1), !.x = o] ELSE Bad(s)
RECURSIVE PopN_(_,_,_)
PopN_(s, ts, n) == IF n = 0 \/ ~Ok(s) THEN s ELSE PopN_(Pop(s, ts[n]), ts, n - 1)
PopAll(s, ts) == PopN_(s, ts, Len(ts))
PushAll(s, ts) == IF Ok(s) THEN [s EXCEPT !.ops = @ \o ts] ELSE s
App(s, ins, outs) == PushAll(PopAll(s, ins), outs)
Dead(s) == IF ~Ok(s) THEN s
           ELSE [s EXCEPT !.ops = SubSeq(@, 1, Top(s).h), !.ctl[Len(s.ctl)].un = TRUE]
Open(s, k, st, en) ==
  LET t == PopAll(s, st) IN
  IF ~Ok(t) THEN t
  ELSE [t EXCEPT !.ctl = Append(@, [k |-> k, st |-> st, en |-> en, h |-> Len(t.ops), un |-> FALSE]), !.ops = @ \o st]
\* the current block's results are there, and nothing else
Closing(s) == LET t == PopAll(s, Top(s).en) IN IF Ok(t) THEN Req(t, Len(t.ops) = Top(s).h) ELSE t
End_(s) ==
  LET c == Top(s)
      t == Closing(s)
      u == [t EXCEPT !.ctl = SubSeq(@, 1, Len(@) - 1), !.ops = @ \o c.en]
  IN  IF ~Ok(t) THEN t
      ELSE IF c.k = "if" /\ c.st # c.en THEN Bad(t)
      ELSE IF Len(s.ctl) = 1 THEN [u EXCEPT !.done = TRUE] ELSE u
Else_(s) ==
  LET c == Top(s)
      t == Closing(s)
  IN  IF c.k # "if" THEN Bad(s) ELSE IF ~Ok(t) THEN t
      ELSE [t EXCEPT !.ctl[Len(s.ctl)] = [c EXCEPT !.k = "else", !.un = FALSE], !.ops = @ \o c.st]
Label(s, d) == LET c == s.ctl[Len(s.ctl) - d] IN IF c.k = "loop" THEN c.st ELSE c.en
Branch(s, d, f(_,_)) == IF d >= Len(s.ctl) THEN Bad(s) ELSE f(s, Label(s, d))
\* the operands would suit the label; they stay
Check(s, ts) == LET t == PopAll(s, ts) IN IF Ok(t) THEN s ELSE t
BrTable(s) ==
  LET v == RVec([s EXCEPT !.l = <<>>], LAMBDA a : LET u == RU32(a) IN IF Ok(u) THEN [u EXCEPT !.l = Append(@, u.x)] ELSE u)
      d == RU32(v)
      i == Pop(d, "i32")
  IN  IF ~Ok(v) THEN v ELSE IF ~Ok(d) THEN d ELSE IF ~Ok(i) THEN i
      ELSE IF d.x >= Len(s.ctl) \/ \E j \in 1..Len(v.l) : v.l[j] >= Len(s.ctl) THEN Bad(d)
      ELSE LET t == Label(s, d.x)
               ls == { Label(s, v.l[j]) : j \in 1..Len(v.l) }
               \* (checking a label never changes the operands)
               good == /\ \A y \in ls : Len(y) = Len(t) /\ Ok(PopAll(i, y))
           IN  IF good THEN Dead(PopAll(i, t)) ELSE Bad(i)

Index(s, n) == LET t == RU32(s) IN IF Ok(t) THEN Req(t, t.x < n) ELSE t
\* two index immediates: x = <<first, second>>
Index2(s, n, k) == LET t == Index(s, n)
                       u == Index(t, k)
                   IN  IF ~Ok(t) THEN t ELSE IF ~Ok(u) THEN u ELSE [u EXCEPT !.x = <<t.x, u.x>>]
RECURSIVE UpTo2(_,_)
UpTo2(n, k) == IF n = 1 THEN k ELSE UpTo2(n \div 2, k + 1)
\* alignment, memory and offset; x is the memory's address type
MemArg(s, width) ==
  LET f == RU32(s)
      multi == (f.x \div 64) % 2 = 1
      m == IF multi THEN RU32(f) ELSE [f EXCEPT !.x = 0]
      o == RU64(m)
  IN  IF ~Ok(f) THEN f ELSE IF f.x >= 128 THEN Bad(f) ELSE IF ~Ok(m) THEN m ELSE IF ~Ok(o) THEN o
      ELSE IF m.x >= Len(s.mems) THEN Bad(o)
      ELSE IF (f.x % 64) > UpTo2(width, 0) THEN Bad(o)
      ELSE IF s.mems[m.x + 1] = "i32" /\ ~(\A j \in 5..8 : o.x[j] = 0) THEN Bad(o)
      ELSE [o EXCEPT !.x = s.mems[m.x + 1]]
Load(s, width, t) == LET m == MemArg(s, width) IN IF Ok(m) THEN App(m, <<m.x>>, <<t>>) ELSE m
Store(s, width, t) == LET m == MemArg(s, width) IN IF Ok(m) THEN App(m, <<m.x, t>>, <<>>) ELSE m
Lane(s, n) == LET t == RByte(s) IN IF Ok(t) THEN Req(t, t.x < n) ELSE t

\* operators without immediates, by opcode
Un(t) == <<<<t>>, <<t>>>>
Bin(t) == <<<<t, t>>, <<t>>>>
Rel(t) == <<<<t, t>>, <<"i32">>>>
Cv(a, r) == <<<<a>>, <<r>>>>
NumSig(c) ==
  CASE c = 69 -> Cv("i32", "i32") [] c \in 70..79 -> Rel("i32") [] c = 80 -> Cv("i64", "i32") [] c \in 81..90 -> Rel("i64")
    [] c \in 91..96 -> Rel("f32") [] c \in 97..102 -> Rel("f64") [] c \in 103..105 -> Un("i32") [] c \in 106..120 -> Bin("i32")
    [] c \in 121..123 -> Un("i64") [] c \in 124..138 -> Bin("i64") [] c \in 139..145 -> Un("f32") [] c \in 146..152 -> Bin("f32")
    [] c \in 153..159 -> Un("f64") [] c \in 160..166 -> Bin("f64") [] c = 167 -> Cv("i64", "i32") [] c \in {168, 169} -> Cv("f32", "i32")
    [] c \in {170, 171} -> Cv("f64", "i32") [] c \in {172, 173} -> Cv("i32", "i64") [] c \in {174, 175} -> Cv("f32", "i64")
    [] c \in {176, 177} -> Cv("f64", "i64") [] c \in {178, 179} -> Cv("i32", "f32") [] c \in {180, 181} -> Cv("i64", "f32")
    [] c = 182 -> Cv("f64", "f32") [] c \in {183, 184} -> Cv("i32", "f64") [] c \in {185, 186} -> Cv("i64", "f64")
    [] c = 187 -> Cv("f32", "f64") [] c = 188 -> Cv("f32", "i32") [] c = 189 -> Cv("f64", "i64") [] c = 190 -> Cv("i32", "f32")
    [] c = 191 -> Cv("i64", "f64") [] c \in {192, 193} -> Un("i32") [] c \in 194..196 -> Un("i64")
NumSigs == Tup([i \in 1..128 |-> NumSig(i + 68)])
\* memory accesses: <<store, bytes, type>>
MemOps == <<<<FALSE, 4, "i32">>, <<FALSE, 8, "i64">>, <<FALSE, 4, "f32">>, <<FALSE, 8, "f64">>, <<FALSE, 1, "i32">>, <<FALSE, 1, "i32">>,
            <<FALSE, 2, "i32">>, <<FALSE, 2, "i32">>, <<FALSE, 1, "i64">>, <<FALSE, 1, "i64">>, <<FALSE, 2, "i64">>, <<FALSE, 2, "i64">>,
            <<FALSE, 4, "i64">>, <<FALSE, 4, "i64">>, <<TRUE, 4, "i32">>, <<TRUE, 8, "i64">>, <<TRUE, 4, "f32">>, <<TRUE, 8, "f64">>,
            <<TRUE, 1, "i32">>, <<TRUE, 2, "i32">>, <<TRUE, 1, "i64">>, <<TRUE, 2, "i64">>, <<TRUE, 4, "i64">>>>
V1 == <<<<"v128">>, <<"v128">>>>
V2 == <<<<"v128", "v128">>, <<"v128">>>>
V3 == <<<<"v128", "v128", "v128">>, <<"v128">>>>
VT == <<<<"v128">>, <<"i32">>>>
VS == <<<<"v128", "i32">>, <<"v128">>>>
NoSuch == <<<<>>, <<>>>>
SimdSig(c) ==      \* vector operators without immediates
  CASE c = 14 -> V2
    [] c \in {15, 16, 17} -> Cv("i32", "v128") [] c = 18 -> Cv("i64", "v128") [] c = 19 -> Cv("f32", "v128") [] c = 20 -> Cv("f64", "v128")
    [] c \in 35..76 -> V2 [] c = 77 -> V1 [] c \in 78..81 -> V2 [] c = 82 -> V3 [] c = 83 -> VT
    [] c \in {94, 95, 96, 97, 98} -> V1 [] c \in {99, 100} -> VT [] c \in {101, 102} -> V2 [] c \in 103..106 -> V1
    [] c \in 107..109 -> VS [] c \in 110..115 -> V2 [] c \in {116, 117} -> V1 [] c \in 118..121 -> V2 [] c = 122 -> V1 [] c = 123 -> V2
    [] c \in 124..129 -> V1 [] c = 130 -> V2 [] c \in {131, 132} -> VT [] c \in {133, 134} -> V2 [] c \in 135..138 -> V1
    [] c \in 139..141 -> VS [] c \in 142..147 -> V2 [] c = 148 -> V1 [] c \in 149..153 -> V2 [] c \in 155..159 -> V2
    [] c \in {160, 161} -> V1 [] c \in {163, 164} -> VT [] c \in 167..170 -> V1 [] c \in 171..173 -> VS [] c \in {174, 177} -> V2
    [] c \in 181..186 -> V2 [] c \in 188..191 -> V2 [] c \in {192, 193} -> V1 [] c \in {195, 196} -> VT [] c \in 199..202 -> V1
    [] c \in 203..205 -> VS [] c \in {206, 209} -> V2 [] c \in 213..223 -> V2 [] c \in {224, 225, 227} -> V1 [] c \in 228..235 -> V2
    [] c \in {236, 237, 239} -> V1 [] c \in 240..247 -> V2 [] c \in 248..255 -> V1
    [] c = 256 -> V2 [] c \in 257..260 -> V1 [] c \in 261..268 -> V3 [] c \in 269..274 -> V2 [] c = 275 -> V3
    [] OTHER -> NoSuch
SimdSigs == Tup([i \in 1..276 |-> SimdSig(i - 1)])
\* extract and replace lane: <<lanes, scalar, replace>>
LaneOps == <<<<16, "i32", FALSE>>, <<16, "i32", FALSE>>, <<16, "i32", TRUE>>, <<8, "i32", FALSE>>, <<8, "i32", FALSE>>, <<8, "i32", TRUE>>,
             <<4, "i32", FALSE>>, <<4, "i32", TRUE>>, <<2, "i64", FALSE>>, <<2, "i64", TRUE>>, <<4, "f32", FALSE>>, <<4, "f32", TRUE>>,
             <<2, "f64", FALSE>>, <<2, "f64", TRUE>>>>
Simd(s) ==
  LET o == RU32(s)
      c == o.x
      k == Skip(o, 16)
      l(n) == Lane(o, n)
      ml(m, n) == IF Ok(m) THEN LET u == Lane(m, 16 \div n) IN [u EXCEPT !.x = m.x] ELSE m
      w(n) == Pow2[n % 4]
  IN  IF ~Ok(o) THEN o
      ELSE IF c > 275 THEN Bad(o)
      ELSE IF c = 0 THEN Load(o, 16, "v128")
      ELSE IF c \in 1..6 THEN Load(o, 8, "v128")
      ELSE IF c \in 7..10 THEN Load(o, Pow2[c - 7], "v128")
      ELSE IF c = 11 THEN Store(o, 16, "v128")
      ELSE IF c = 12 THEN (IF Ok(k) THEN PushAll(k, <<"v128">>) ELSE k)
      ELSE IF c = 13 THEN (IF ~Ok(k) THEN k ELSE IF \E j \in 0..15 : o.b[o.p + j] >= 32 THEN Bad(k) ELSE App(k, <<"v128", "v128">>, <<"v128">>))
      ELSE IF c \in 21..34 THEN LET q == LaneOps[c - 20]
                                    t == l(q[1])
                                IN  IF ~Ok(t) THEN t ELSE IF q[3] THEN App(t, <<"v128", q[2]>>, <<"v128">>) ELSE App(t, <<"v128">>, <<q[2]>>)
      ELSE IF c \in 84..87 THEN LET m == ml(MemArg(o, w(c)), w(c)) IN IF Ok(m) THEN App(m, <<m.x, "v128">>, <<"v128">>) ELSE m
      ELSE IF c \in 88..91 THEN LET m == ml(MemArg(o, w(c)), w(c)) IN IF Ok(m) THEN App(m, <<m.x, "v128">>, <<>>) ELSE m
      ELSE IF c = 92 THEN Load(o, 4, "v128") ELSE IF c = 93 THEN Load(o, 8, "v128")
      ELSE IF SimdSigs[c + 1] = NoSuch THEN Bad(o)
      ELSE App(o, SimdSigs[c + 1][1], SimdSigs[c + 1][2])

MinIt(a, z) == IF a = "i32" \/ z = "i32" THEN "i32" ELSE "i64"
Misc(s) ==
  LET o == RU32(s)
      c == o.x
      it(j) == s.mems[j + 1]
      tt(j) == s.tabs[j + 1]
      mem == Index(o, Len(s.mems))
      tab == Index(o, Len(s.tabs))
      two == CASE c = 8 -> Index2(o, IF s.nd < 0 THEN 0 ELSE s.nd, Len(s.mems))
               [] c = 10 -> Index2(o, Len(s.mems), Len(s.mems))
               [] c = 12 -> Index2(o, Len(s.elems), Len(s.tabs))
               [] c = 14 -> Index2(o, Len(s.tabs), Len(s.tabs))
               [] OTHER -> o
  IN  IF ~Ok(o) THEN o
      ELSE IF c \in {8, 10, 12, 14} /\ ~Ok(two) THEN two
      ELSE CASE c \in {0, 1} -> App(o, <<"f32">>, <<"i32">>) [] c \in {2, 3} -> App(o, <<"f64">>, <<"i32">>)
             [] c \in {4, 5} -> App(o, <<"f32">>, <<"i64">>) [] c \in {6, 7} -> App(o, <<"f64">>, <<"i64">>)
             [] c = 8 -> App(two, <<it(two.x[2]), "i32", "i32">>, <<>>)
             [] c = 9 -> Index(o, IF s.nd < 0 THEN 0 ELSE s.nd)
             [] c = 10 -> App(two, <<it(two.x[1]), it(two.x[2]), MinIt(it(two.x[1]), it(two.x[2]))>>, <<>>)
             [] c = 11 -> IF Ok(mem) THEN App(mem, <<it(mem.x), "i32", it(mem.x)>>, <<>>) ELSE mem
             [] c = 12 -> IF s.elems[two.x[1] + 1] # tt(two.x[2]).et THEN Bad(two) ELSE App(two, <<tt(two.x[2]).it, "i32", "i32">>, <<>>)
             [] c = 13 -> Index(o, Len(s.elems))
             [] c = 14 -> IF tt(two.x[1]).et # tt(two.x[2]).et THEN Bad(two)
                          ELSE App(two, <<tt(two.x[1]).it, tt(two.x[2]).it, MinIt(tt(two.x[1]).it, tt(two.x[2]).it)>>, <<>>)
             [] c = 15 -> IF Ok(tab) THEN App(tab, <<tt(tab.x).et, tt(tab.x).it>>, <<tt(tab.x).it>>) ELSE tab
             [] c = 16 -> IF Ok(tab) THEN PushAll(tab, <<tt(tab.x).it>>) ELSE tab
             [] c = 17 -> IF Ok(tab) THEN App(tab, <<tt(tab.x).it, tt(tab.x).et, tt(tab.x).it>>, <<>>) ELSE tab
             [] c \in {19, 20} -> App(o, <<"i64", "i64", "i64", "i64">>, <<"i64", "i64">>)
             [] c \in {21, 22} -> App(o, <<"i64", "i64">>, <<"i64", "i64">>)
             [] OTHER -> Bad(o)

Select(s) ==
  LET c == Pop(s, "i32")
      a == Pop(c, "any")
      z == Pop(a, "any")
      num(t) == t \notin Refs
  IN  IF ~Ok(z) THEN Bad(s)
      ELSE IF ~num(a.x) \/ ~num(z.x) \/ (a.x # z.x /\ a.x # "bot" /\ z.x # "bot") THEN Bad(z)
      ELSE PushAll(z, <<IF a.x = "bot" THEN z.x ELSE a.x>>)
HeapType(s) == LET t == RByte(s) IN
  IF ~Ok(t) THEN t ELSE IF t.x \in {111, 112} THEN [t EXCEPT !.x = ValOf(t.x)]
  ELSE IF t.x < 64 \/ t.x >= 128 \/ t.x \in GcTypes THEN Unsup(t) ELSE Bad(t)
\* a tail call: the callee's results are the caller's
TailCall(s, f) == IF f.r = s.ctl[1].en THEN Dead(PopAll(s, f.p)) ELSE Bad(s)
ConstOps == {11, 35, 65, 66, 67, 68, 106, 107, 108, 124, 125, 126, 208, 210, 253}

Instr(s0) ==
  LET s == RByte(s0)
      c == s.x
      ix(n) == Index(s, n)
      fty(i) == s.types[s.fn[i + 1] + 1]
      bt == RBlockType(s)
      if1 == Pop(bt, "i32")
      i == CASE c \in {32, 33, 34} -> ix(Len(s.loc)) [] c \in {35, 36} -> ix(Len(s.globs)) [] c \in {37, 38} -> ix(Len(s.tabs))
             [] c \in {63, 64} -> ix(Len(s.mems)) [] c \in {16, 18, 210} -> ix(Len(s.fn)) [] c \in {12, 13} -> ix(Len(s.ctl))
             [] c \in {17, 19} -> Index2(s, Len(s.types), Len(s.tabs))
             [] OTHER -> s
      g == s.globs[i.x + 1]
      tb == s.tabs[i.x + 1]
      cl == Pop([i EXCEPT !.x = 0], s.tabs[i.x[2] + 1].it)
      r == Pop(s, "any")
      ts == RVals(s)
  IN  IF ~Ok(s) THEN s
      ELSE IF s.cx /\ c \notin ConstOps THEN Bad(s)
      ELSE IF ~Ok(i) THEN i
      ELSE IF c \in 69..196 THEN App(s, NumSigs[c - 68][1], NumSigs[c - 68][2])
      ELSE IF c \in 40..62 THEN LET o == MemOps[c - 39] IN IF o[1] THEN Store(s, o[2], o[3]) ELSE Load(s, o[2], o[3])
      ELSE CASE c = 0 -> Dead(s)
             [] c = 1 -> s
             [] c \in {2, 3} -> IF Ok(bt) THEN Open(bt, IF c = 2 THEN "block" ELSE "loop", bt.x[1], bt.x[2]) ELSE bt
             [] c = 4 -> IF ~Ok(bt) THEN bt ELSE IF Ok(if1) THEN Open(if1, "if", bt.x[1], bt.x[2]) ELSE if1
             [] c = 5 -> Else_(s)
             [] c = 11 -> End_(s)
             [] c = 12 -> Dead(PopAll(i, Label(s, i.x)))
             [] c = 13 -> LET t == Pop(i, "i32") IN App(t, Label(s, i.x), Label(s, i.x))
             [] c = 14 -> BrTable(s)
             [] c = 15 -> Dead(PopAll(s, s.ctl[1].en))
             [] c = 16 -> App(i, fty(i.x).p, fty(i.x).r)
             [] c = 18 -> TailCall(i, fty(i.x))
             [] c \in {17, 19} ->
                  IF s.tabs[i.x[2] + 1].et # "funcref" THEN Bad(i) ELSE IF ~Ok(cl) THEN cl
                  ELSE LET f == s.types[i.x[1] + 1] IN IF c = 17 THEN App(cl, f.p, f.r) ELSE TailCall(cl, f)
             [] c = 26 -> r
             [] c = 27 -> Select(s)
             [] c = 28 -> IF ~Ok(ts) THEN ts ELSE IF Len(ts.x) # 1 THEN Bad(ts) ELSE App(ts, <<ts.x[1], ts.x[1], "i32">>, ts.x)
             [] c = 32 -> PushAll(i, <<s.loc[i.x + 1]>>)
             [] c = 33 -> Pop(i, s.loc[i.x + 1])
             [] c = 34 -> App(i, <<s.loc[i.x + 1]>>, <<s.loc[i.x + 1]>>)
             [] c = 35 -> IF s.cx /\ g.mu THEN Bad(i) ELSE IF s.cx /\ ~g.imp THEN Unsup(i) ELSE PushAll(i, <<g.ty>>)
             [] c = 36 -> IF ~g.mu THEN Bad(i) ELSE Pop(i, g.ty)
             [] c = 37 -> App(i, <<tb.it>>, <<tb.et>>)
             [] c = 38 -> App(i, <<tb.it, tb.et>>, <<>>)
             [] c = 63 -> PushAll(i, <<s.mems[i.x + 1]>>)
             [] c = 64 -> App(i, <<s.mems[i.x + 1]>>, <<s.mems[i.x + 1]>>)
             [] c = 65 -> PushAll(RS32(s), <<"i32">>)
             [] c = 66 -> PushAll(RS64(s), <<"i64">>)
             [] c = 67 -> PushAll(Skip(s, 4), <<"f32">>)
             [] c = 68 -> PushAll(Skip(s, 8), <<"f64">>)
             [] c = 208 -> LET h == HeapType(s) IN IF Ok(h) THEN PushAll(h, <<h.x>>) ELSE h
             [] c = 209 -> IF ~Ok(r) THEN r ELSE IF r.x \in Refs \cup {"bot"} THEN PushAll(r, <<"i32">>) ELSE Bad(r)
             [] c = 210 -> IF s.cx THEN PushAll([i EXCEPT !.refs = @ \cup {i.x}], <<"funcref">>)
                           ELSE IF i.x \in s.refs THEN PushAll(i, <<"funcref">>) ELSE Bad(i)
             [] c = 252 -> Misc(s)
             [] c = 253 -> IF s.cx /\ (s.p > s.e \/ s.b[s.p] # 12) THEN Unsup(s) ELSE Simd(s)
             \* exceptions, typed function references, garbage collection, threads, stack switching
             [] c \in {6, 7, 8, 9, 10, 20, 21, 24, 25, 31, 211, 212, 213, 214, 251, 254} \cup (224..230) -> Unsup(s)
             [] OTHER -> Bad(s)

\* the instructions of a body or constant expression, up to the end that closes it
Typed(s, loc, en, cx) ==
  LET t == FoldLeft(LAMBDA a, k : IF ~Ok(a) \/ a.done THEN a ELSE Instr(a),
                    [s EXCEPT !.ops = <<>>, !.loc = loc, !.done = FALSE, !.cx = cx,
                              !.ctl = <<[k |-> "func", st |-> <<>>, en |-> en, h |-> 0, un |-> FALSE]>>],
                    Count_(s.e - s.p + 1))
  IN  IF Ok(t) THEN Req([t EXCEPT !.loc = <<>>, !.ops = <<>>, !.ctl = <<>>], t.done) ELSE t
ConstExpr(s, t) == Typed(s, <<>>, <<t>>, TRUE)

-----------------------------------------------------------------------------
(* Sections *)

Import(s) ==
  LET m == RName(s)
      n == RName(m)
      k == RByte(n)
      f == Index(k, Len(s.types))
  IN  IF ~Ok(m) THEN m ELSE IF ~Ok(n) THEN n ELSE IF ~Ok(k) THEN k
      ELSE CASE k.x = 0 -> IF Ok(f) THEN [f EXCEPT !.fn = Append(@, f.x)] ELSE f
             [] k.x = 1 -> RTableType(k)
             [] k.x = 2 -> RMemType(k)
             [] k.x = 3 -> RGlobType(k, TRUE)
             [] k.x \in {4, 32, 126, 127} -> Unsup(k)
             [] OTHER -> Bad(k)
Table(s) ==
  LET two == s.p + 1 <= s.e /\ s.b[s.p] = 64
      t == RTableType(IF two THEN Skip(s, 2) ELSE s)
  IN  IF ~Ok(t) THEN t
      ELSE IF ~two THEN t
      ELSE IF s.b[s.p + 1] # 0 THEN Bad(t)
      ELSE ConstExpr(t, t.tabs[Len(t.tabs)].et)
Global(s) ==
  LET t == RGlobType(s, FALSE)
      n == Len(t.globs)
      \* the global itself is not in scope yet
      c == ConstExpr([t EXCEPT !.globs = SubSeq(@, 1, n - 1)], t.globs[n].ty)
  IN  IF ~Ok(t) THEN t ELSE IF ~Ok(c) THEN c ELSE [c EXCEPT !.globs = t.globs]
Export(s) ==
  LET n == RName(s)
      k == RByte(n)
      i == CASE k.x = 0 -> Index(k, Len(s.fn)) [] k.x = 1 -> Index(k, Len(s.tabs)) [] k.x = 2 -> Index(k, Len(s.mems))
             [] k.x = 3 -> Index(k, Len(s.globs)) [] OTHER -> k
  IN  IF ~Ok(n) THEN n ELSE IF ~Ok(k) THEN k
      ELSE IF k.x \in {4, 32} THEN Unsup(k) ELSE IF k.x > 3 THEN Bad(k)
      ELSE IF ~Ok(i) THEN i
      ELSE IF n.x \in s.names THEN Bad(i)
      ELSE [i EXCEPT !.names = @ \cup {n.x}, !.refs = IF k.x = 0 THEN @ \cup {i.x} ELSE @]
Elem(s) ==
  LET f == RU32(s)
      active == f.x % 2 = 0
      table == f.x \in {2, 6}
      exprs == f.x >= 4
      ti == IF table THEN RU32(f) ELSE [f EXCEPT !.x = 0]
      inr == ti.x < Len(s.tabs)
      off == IF active THEN ConstExpr(ti, s.tabs[ti.x + 1].it) ELSE ti
      kd == IF f.x \in {0, 4} THEN [off EXCEPT !.x = "funcref"]
            ELSE IF exprs THEN RRefType(off)
            ELSE LET y == RByte(off) IN IF Ok(y) THEN Req([y EXCEPT !.x = "funcref"], y.x = 0) ELSE y
      et == kd.x
      items == IF exprs THEN RVec(kd, LAMBDA a : ConstExpr(a, et))
               ELSE RVec(kd, LAMBDA a : LET i == Index(a, Len(s.fn)) IN IF Ok(i) THEN [i EXCEPT !.refs = @ \cup {i.x}] ELSE i)
  IN  IF ~Ok(f) THEN f ELSE IF f.x > 7 THEN Bad(f)
      ELSE IF ~Ok(ti) THEN ti ELSE IF active /\ ~inr THEN Bad(ti)
      ELSE IF ~Ok(off) THEN off ELSE IF ~Ok(kd) THEN kd ELSE IF ~Ok(items) THEN items
      ELSE IF active /\ s.tabs[ti.x + 1].et # et THEN Bad(items)
      ELSE [items EXCEPT !.elems = Append(@, et)]
Locals(s) ==       \* s.loc grows
  LET n == RU32(s)
      t == RVal(n)
      k == t.loc[1] + n.x
  IN  IF ~Ok(n) THEN n ELSE IF ~Ok(t) THEN t
      ELSE IF n.x >= Clip \/ k > 50000 THEN Unsup(t)
      ELSE [t EXCEPT !.loc = <<k, @[2] \o Tup([j \in 1..n.x |-> t.x])>>]
Body(s) ==
  LET n == RU32(s)
      last == n.p + n.x - 1
      ft == s.types[s.fn[s.nc + 1] + 1]
      l == RVec([n EXCEPT !.e = last, !.loc = <<Len(ft.p), ft.p>>], Locals)
      t == Typed(l, l.loc[2], ft.r, FALSE)
  IN  IF ~Ok(n) THEN n ELSE IF n.x > n.e - n.p + 1 THEN Bad(n)
      ELSE IF s.nc >= Len(s.fn) THEN Bad(n)
      ELSE IF ~Ok(l) THEN l ELSE IF ~Ok(t) THEN t
      ELSE IF t.p # last + 1 THEN Bad(t)
      ELSE [t EXCEPT !.e = s.e, !.nc = @ + 1]
Data(s) ==
  LET f == RU32(s)
      m == IF f.x = 2 THEN RU32(f) ELSE [f EXCEPT !.x = 0]
      off == IF f.x # 1 THEN ConstExpr(m, s.mems[m.x + 1]) ELSE m
      n == RU32(off)
      t == Skip(n, n.x)
  IN  IF ~Ok(f) THEN f ELSE IF f.x > 2 THEN Bad(f)
      ELSE IF ~Ok(m) THEN m ELSE IF f.x # 1 /\ m.x >= Len(s.mems) THEN Bad(m)
      ELSE IF ~Ok(off) THEN off ELSE IF ~Ok(n) THEN n ELSE t

\* where each section id stands in the order
Rank(id) == CASE id <= 5 -> id [] id = 13 -> 6 [] id \in 6..9 -> id + 1 [] id = 12 -> 11 [] id = 10 -> 12 [] id = 11 -> 13
Contents(s, id) ==
  CASE id = 0 -> LET n == RName(s) IN IF Ok(n) THEN [n EXCEPT !.p = n.e + 1] ELSE n
    [] id = 1 -> RVec(s, RFuncType)
    [] id = 2 -> LET t == RVec(s, Import) IN [t EXCEPT !.nc = Len(t.fn)]
    [] id = 3 -> RVec(s, LAMBDA a : LET i == Index(a, Len(a.types)) IN IF Ok(i) THEN [i EXCEPT !.fn = Append(@, i.x)] ELSE i)
    [] id = 4 -> RVec(s, Table)
    [] id = 5 -> RVec(s, RMemType)
    [] id = 6 -> RVec(s, Global)
    [] id = 7 -> RVec(s, Export)
    [] id = 8 -> LET i == Index(s, Len(s.fn)) IN
                 IF ~Ok(i) THEN i ELSE Req(i, s.types[s.fn[i.x + 1] + 1] = [p |-> <<>>, r |-> <<>>])
    [] id = 9 -> RVec(s, Elem)
    [] id = 12 -> LET n == RU32(s) IN IF Ok(n) THEN [n EXCEPT !.nd = n.x] ELSE n
    [] id = 10 -> LET n == RU32(s) IN IF ~Ok(n) THEN n ELSE IF n.x # Len(s.fn) - s.nc THEN Bad(n) ELSE RVec(s, Body)
    [] id = 11 -> LET n == RU32(s)
                      t == RVec(s, Data)
                  IN  IF ~Ok(n) THEN n ELSE IF s.nd >= 0 /\ s.nd # n.x THEN Bad(n)
                      ELSE IF Ok(t) THEN [t EXCEPT !.ndata = n.x] ELSE t
    [] id = 13 -> Unsup(s)
    [] OTHER -> Bad(s)
Section(s) ==
  LET i == RByte(s)
      id == i.x
      n == RU32(i)
      last == n.p + n.x - 1
      t == Contents([n EXCEPT !.e = last], id)
  IN  IF ~Ok(i) THEN i ELSE IF ~Ok(n) THEN n
      ELSE IF n.x > n.e - n.p + 1 \/ id > 13 THEN Bad(n)
      ELSE IF id # 0 /\ Rank(id) <= s.rank THEN Bad(n)
      ELSE IF ~Ok(t) THEN t
      ELSE IF t.p # last + 1 THEN Bad(t)
      ELSE [t EXCEPT !.e = s.e, !.rank = IF id = 0 THEN @ ELSE Rank(id)]

Start0(b) == [b |-> b, p |-> 9, e |-> Len(b), v |-> "ok", x |-> 0, l |-> <<>>, types |-> <<>>, fn |-> <<>>, tabs |-> <<>>, mems |-> <<>>,
              globs |-> <<>>, elems |-> <<>>, refs |-> {}, names |-> {}, nc |-> 0, nd |-> -1, ndata |-> 0, rank |-> 0,
              ops |-> <<>>, ctl |-> <<>>, loc |-> <<>>, done |-> FALSE, cx |-> FALSE]
Preamble == <<0, 97, 115, 109, 1, 0, 0, 0>>
Verdict(b) ==
  IF Len(b) < 8 \/ SubSeq(b, 1, 8) # Preamble THEN "bad"
  ELSE LET t == FoldLeft(LAMBDA s, k : IF ~Ok(s) \/ s.p > s.e THEN s ELSE Section(s), Start0(b), Count_(Len(b) - 8))
       IN  IF ~Ok(t) THEN t.v
           ELSE IF t.nc # Len(t.fn) THEN "bad"                    \* functions without code
           ELSE IF t.nd > 0 /\ t.ndata = 0 THEN "bad"             \* announced data segments missing
           ELSE IF Len(t.mems) > 100 \/ Len(t.tabs) > 100 THEN "unsup"
           ELSE "ok"
=============================================================================
