------------------------------- MODULE Embed -------------------------------
(***************************************************************************)
(* What an embedder of tinywasm can do and see: stores, host-created       *)
(* externs, linking and instantiation, calls, host functions, resumable    *)
(* execution, and direct access to memories, tables and globals.           *)
(*                                                                         *)
(* An event e is a record e.op, e.<arguments>, e.<outcome>.  EvStep(m, e)  *)
(* is the set of machines that may follow when the implementation reports  *)
(* e in machine m: empty when the specification forbids the report.        *)
(*                                                                         *)
(* Extra machine components (see Wasm):                                    *)
(*   SS, cs   the other stores and the number of the current one           *)
(*   O        objects the embedder holds: <<kind, address, store>>         *)
(*   I        instances the embedder holds: <<address, store>>             *)
(*   run      FALSE while a resumable execution is suspended (or rejected) *)
(*   fuel     the budget accounting of the current resumable execution     *)
(*   ok       FALSE once a learned identity was contradicted               *)
(* Each store also learns, injectively, which implementation numbers       *)
(* denote which function (fm) and which instance (im).                     *)
(***************************************************************************)
EXTENDS Cli

EmptyStore == [f |-> <<>>, t |-> <<>>, m |-> <<>>, g |-> <<>>, e |-> <<>>, d |-> <<>>, i |-> <<>>,
               fm |-> EmptyFcn, im |-> EmptyFcn]
NoFuel == [on |-> FALSE, k |-> "", b |-> 0, ch |-> 0, n0 |-> 0, sus |-> 0, need |-> 0, x0 |-> 0, most |-> 0, nest |-> FALSE,
           w0 |-> -1, ex |-> -1, rem |-> -1, up |-> <<>>]
InitMachine(c, lim, ns) ==
  [c |-> c, S |-> EmptyStore, SS |-> Tup([i \in 1..ns |-> EmptyStore]), cs |-> 1,
   O |-> <<>>, I |-> <<>>, cur |-> [k |-> "b"], st |-> <<>>, dep |-> 0, lim |-> lim, n |-> 0, x |-> 0, w |-> 0,
   run |-> TRUE, fuel |-> NoFuel, ok |-> TRUE]

AtEmb(m) == m.run /\ (m.cur.k = "b" \/ (m.cur.k = "h" /\ m.cur.ph = "run"))
Active(m) == m.cur.k = "h"       \* inside an invocation

-----------------------------------------------------------------------------
(* Values crossing the boundary: [t |-> type, v |-> bytes or <<number>>] *)

Rng(f) == { f[x] : x \in DOMAIN f }
\* the implementation's number raw denotes address a
LearnF(m, raw, a) ==
  IF raw \in DOMAIN m.S.fm THEN [m EXCEPT !.ok = @ /\ m.S.fm[raw] = a]
  ELSE IF a \in Rng(m.S.fm) THEN [m EXCEPT !.ok = FALSE]
  ELSE [m EXCEPT !.S.fm = (raw :> a) @@ @]
LearnI(m, raw, a) ==
  IF raw \in DOMAIN m.S.im THEN [m EXCEPT !.ok = @ /\ m.S.im[raw] = a]
  ELSE IF a \in Rng(m.S.im) THEN [m EXCEPT !.ok = FALSE]
  ELSE [m EXCEPT !.S.im = (raw :> a) @@ @]

\* the specified value s of type t is reported as o
MatchVal(m, t, s, o) ==
  IF o.t # t THEN [m EXCEPT !.ok = FALSE]
  ELSE IF t = "funcref"
  THEN IF s = Null \/ o.v[1] = -1 THEN [m EXCEPT !.ok = @ /\ s = Null /\ o.v[1] = -1]
       ELSE LearnF(m, o.v[1], s[1])
  ELSE IF t = "externref" THEN [m EXCEPT !.ok = @ /\ s = o.v]
  ELSE [m EXCEPT !.ok = @ /\ Match(s, o.v)]
MatchVals(m, ts, ss, os) ==
  IF Len(ss) # Len(os) THEN [m EXCEPT !.ok = FALSE]
  ELSE FoldLeft(LAMBDA a, j : MatchVal(a, ts[j], ss[j], os[j]), m, Tup([j \in 1..Len(os) |-> j]))

\* a value supplied by the embedder
InVal(m, o) == IF o.t = "funcref" /\ o.v[1] # -1
               THEN IF o.v[1] \in DOMAIN m.S.fm THEN <<m.S.fm[o.v[1]]>> ELSE <<-2>>
               ELSE o.v
InVals(m, os) == Tup([j \in 1..Len(os) |-> InVal(m, os[j])])
TypesOf(os) == Tup([j \in 1..Len(os) |-> os[j].t])

Keep(m) == IF m.ok THEN {m} ELSE {}
If(b, m) == IF b THEN {m} ELSE {}

-----------------------------------------------------------------------------
(* Import resolution *)

MinOf(t) == ToNat(t.min)
MaxOfT(t) == IF t.max = <<>> THEN Clip ELSE ToNat(t.max)
LimMatch(have, hmax, want, wmax) == have >= want /\ (wmax = <<>> \/ (hmax # <<>> /\ CmpU(hmax, wmax) <= 0))

FTyEq(a, b) == a.p = b.p /\ a.r = b.r
Matches(m, mi, im, x) ==     \* extern x = <<kind, addr, store>> against import im of module mi
  /\ x[1] = im.k
  /\ CASE im.k = "f" -> FTyEq(m.S.f[x[2]].ty, Mod(m, mi).types[im.t + 1])
       [] im.k = "g" -> m.S.g[x[2]].ty = im.ty /\ m.S.g[x[2]].mu = im.mu
       [] im.k = "t" -> LET t == m.S.t[x[2]] IN
            /\ t.it = im.ty.it /\ t.et = im.ty.et
            /\ LimMatch(TabSize(t), t.ty.max, MinOf(im.ty), im.ty.max)
       [] im.k = "m" -> LET q == m.S.m[x[2]] IN
            /\ q.it = im.ty.it /\ q.ps = im.ty.ps
            /\ LimMatch(q.pg, q.ty.max, MinOf(im.ty), im.ty.max)

KindAddr(inst, ex) == CASE ex.k = "f" -> inst.f[ex.x + 1] [] ex.k = "t" -> inst.t[ex.x + 1]
                        [] ex.k = "m" -> inst.m[ex.x + 1] [] ex.k = "g" -> inst.g[ex.x + 1]
ExportNo(mod, nm) == { j \in 1..Len(mod.exports) : mod.exports[j].n = nm }
ExportIn(m, S, ia, nm) ==     \* <<>> or <<kind, addr>>
  LET inst == S.i[ia]
      js == ExportNo(Mod(m, inst.mi), nm)
  IN  IF js = {} THEN <<>> ELSE LET ex == Mod(m, inst.mi).exports[CHOOSE j \in js : TRUE] IN <<ex.k, KindAddr(inst, ex)>>

ExportOf(m, ia, nm) == ExportIn(m, m.S, ia, nm)

\* the last definition of a name counts
LastIx(ds, P(_)) == LET js == { j \in 1..Len(ds) : P(ds[j]) } IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A q \in js : q <= j

\* <<extern>> or <<>> with the error kind
Provide(m, im, defs, links) ==
  LET dj == LastIx(defs, LAMBDA d : d.m = im.m /\ d.n = im.n)
      lj == LastIx(links, LAMBDA d : d.m = im.m)
  IN  IF dj > 0 THEN LET o == m.O[defs[dj].o] IN IF o[3] # m.cs THEN <<"store">> ELSE <<"ok", o>>
      ELSE IF lj = 0 THEN <<"unknown">>
      ELSE IF m.I[links[lj].i][2] # m.cs THEN <<"store">>
      ELSE LET x == ExportOf(m, m.I[links[lj].i][1], im.n)
           IN  IF x = <<>> THEN <<"unknown">> ELSE <<"ok", <<x[1], x[2], m.cs>>>>

LinkAll(m, mi, defs, links) ==     \* [err, f, t, m, g]
  FoldLeft(LAMBDA a, im :
             IF a.err # "" THEN a
             ELSE LET p == Provide(m, im, defs, links)
                  IN  IF p[1] = "unknown" THEN [a EXCEPT !.err = "unknown:" \o im.m \o "." \o im.n]
                      ELSE IF p[1] = "store" THEN [a EXCEPT !.err = "rej"]
                      ELSE IF ~Matches(m, mi, im, p[2]) THEN [a EXCEPT !.err = "incompat:" \o im.m \o "." \o im.n]
                      ELSE CASE im.k = "f" -> [a EXCEPT !.f = Append(@, p[2][2])]
                             [] im.k = "t" -> [a EXCEPT !.t = Append(@, p[2][2])]
                             [] im.k = "m" -> [a EXCEPT !.m = Append(@, p[2][2])]
                             [] im.k = "g" -> [a EXCEPT !.g = Append(@, p[2][2])],
           [err |-> "", f |-> <<>>, t |-> <<>>, m |-> <<>>, g |-> <<>>], Mod(m, mi).imps)

-----------------------------------------------------------------------------
(* Parsing: the parser's options, the way the bytes arrive and the number of threads do not matter *)

\* (without validation, bytes that are not a module are not claimed to be refused); and what the
\* bytes are, a module or not, is said by Binary
WB == INSTANCE Binary
ParseOk(e) ==
  IF e.rel THEN \A j \in 1..Len(e.outs) : e.outs[j].ok = e.outs[1].ok
  ELSE LET v == WB!Verdict(e.b)
           js == { j \in 1..Len(e.outs) : e.outs[j].val }
       IN  CASE v = "ok" -> \A j \in 1..Len(e.outs) : e.outs[j].ok
             [] v = "bad" -> \A j \in js : ~e.outs[j].ok
             [] v = "unsup" -> \A j, k \in js : e.outs[j].ok = e.outs[k].ok

\* An archive: 16 bytes of magic number, version and padding, then the module.  Loading it gives
\* an equal module; a changed header or a missing end is an error.  (Of other changes only this is
\* claimed, that loading ends.)
ArchiveHeader == 16
ArchiveOk(e) ==
  /\ e.ser /\ e.full >= ArchiveHeader
  /\ e.n = e.full /\ e.diff = <<>> => e.ok /\ e.eq
  /\ \/ e.n < e.full /\ e.diff = <<>>
     \/ e.n < ArchiveHeader
     \/ \E j \in 1..Len(e.diff) : e.diff[j] < ArchiveHeader
     => ~e.ok

-----------------------------------------------------------------------------
(* Embedder frames *)

\* a boundary frame: outcome, call depth to restore, instance, result types, delivered
Bound(m, k, out, ia, rt) == [k |-> k, out |-> out, dep |-> m.dep, ia |-> ia, rt |-> rt, dn |-> FALSE]
Failed(m, k, why) == [m EXCEPT !.st = Append(@, m.cur), !.cur = Bound(m, k, <<"trap", why>>, 0, <<>>)]
\* (a guest function called from a host function takes a place on the call stack, too)
Start(m, k, a, args, ia, from) ==
  IF Active(m) /\ m.S.f[a].k = "w" /\ m.dep >= m.lim THEN Failed(m, k, "call_stack") ELSE
  [Enter(m, a, args, m.st \o <<m.cur, Bound(m, k, <<>>, ia, m.S.f[a].ty.r)>>, from)
     EXCEPT !.dep = IF Active(m) /\ m.S.f[a].k = "w" THEN @ + 1 ELSE @,
            !.fuel.nest = @ \/ Active(m)]
Back(m) == LET f == m.st[Len(m.st)] IN [m EXCEPT !.cur = f, !.st = SubSeq(@, 1, Len(@) - 1), !.n = IF m.fuel.on THEN @ ELSE 0]

ArgsOk(m, o, args) == TypesOf(args) = m.S.f[o[2]].ty.p

DoCall(m, k, e) ==
  LET o == m.O[e.o] IN
  IF o[3] # m.cs \/ ~ArgsOk(m, o, e.args) \/ (Active(m) /\ e.d) \/ (~Active(m) /\ ~e.d)
  THEN Failed(m, k, "rej")
  ELSE Start(m, k, o[2], InVals(m, e.args), 0, 0)

\* initial sizes beyond what is modelled, and which need not be available
Huge(mod) == \/ \E j \in 1..Len(mod.mems) : ToNat(mod.mems[j].min) >= (Clip \div Pow2[mod.mems[j].ps])
             \/ \E j \in 1..Len(mod.tables) : ToNat(mod.tables[j].ty.min) >= 10000
DoInst(m, e) ==
  LET l == LinkAll(m, e.mod, e.defs, e.links) IN
  IF l.err # "" THEN Failed(m, "i", l.err)
  ELSE IF Huge(Mod(m, e.mod)) THEN [m EXCEPT !.st = Append(@, m.cur), !.cur = [k |-> "inc"]]
  ELSE LET r == Instantiate(m, e.mod, l)
           m1 == [m EXCEPT !.S = r[1]]
           sf == Mod(m, e.mod).start
       IN  IF r[2] # "" THEN Failed(m1, "i", r[2])
           ELSE IF e.ns \/ sf < 0 THEN [m1 EXCEPT !.st = Append(@, m1.cur), !.cur = Bound(m1, "i", <<"ok", <<>>>>, r[3], <<>>)]
           ELSE IF Active(m) THEN Failed(m1, "i", "rej")
           ELSE Start(m1, "i", m1.S.i[r[3]].f[sf + 1], <<>>, r[3], r[3])

-----------------------------------------------------------------------------
(* Strings *)

\* a well-formed UTF-8 byte string
Utf8Ok(b) ==
  LET cont(j) == j <= Len(b) /\ b[j] >= 128 /\ b[j] <= 191
      \* length of the well-formed sequence starting at j, 0 if none
      seq(j) ==
        LET x == b[j] IN
        CASE x < 128 -> 1
          [] x >= 194 /\ x <= 223 -> IF cont(j+1) THEN 2 ELSE 0
          [] x >= 224 /\ x <= 239 ->
               IF cont(j+1) /\ cont(j+2) /\ (x # 224 \/ b[j+1] >= 160) /\ (x # 237 \/ b[j+1] <= 159) THEN 3 ELSE 0
          [] x >= 240 /\ x <= 244 ->
               IF cont(j+1) /\ cont(j+2) /\ cont(j+3) /\ (x # 240 \/ b[j+1] >= 144) /\ (x # 244 \/ b[j+1] <= 143) THEN 4 ELSE 0
          [] OTHER -> 0
      r == FoldLeft(LAMBDA a, j : IF a < 0 \/ j < a THEN a ELSE LET s == seq(j) IN IF s = 0 THEN -1 ELSE j + s,
                    1, Tup([j \in 1..Len(b) |-> j]))
  IN  r >= 0

Utf8Of(c) ==     \* a code point as UTF-8
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* UTF-16 code units (pairs of bytes, an odd last byte ignored) as UTF-8, or <<-1>>
Utf16To8(b) ==
  LET n == Len(b) \div 2
      u(j) == b[2*j - 1] + 256 * b[2*j]
      r == FoldLeft(LAMBDA a, j :
             IF a.bad THEN a
             ELSE IF a.hi > 0
             THEN IF u(j) >= 56320 /\ u(j) <= 57343
                  THEN [a EXCEPT !.hi = 0, !.s = @ \o Utf8Of(65536 + ((a.hi - 55296) * 1024) + (u(j) - 56320))]
                  ELSE [a EXCEPT !.bad = TRUE]
             ELSE IF u(j) >= 55296 /\ u(j) <= 56319 THEN [a EXCEPT !.hi = u(j)]
             ELSE IF u(j) >= 56320 /\ u(j) <= 57343 THEN [a EXCEPT !.bad = TRUE]
             ELSE [a EXCEPT !.s = @ \o Utf8Of(u(j))],
             [bad |-> FALSE, hi |-> 0, s |-> <<>>], Tup([j \in 1..n |-> j]))
  IN  IF r.bad \/ r.hi > 0 THEN <<-1>> ELSE r.s

FirstNul(b) == LET js == { j \in 1..Len(b) : b[j] = 0 } IN IF js = {} THEN 0 ELSE CHOOSE j \in js : \A q \in js : j <= q

-----------------------------------------------------------------------------
(* Memories, tables and globals used by the host *)

\* a cursor operation: acc = <<machine, position, agreed>>; positions are 64 bit
CurStep(acc, q, a) ==
  LET m == acc[1]
      p == ToNat(acc[2])
      by(n) == Add(acc[2], FromNat(n, 8))
      mem == m.S.m[a]
      room == IF p >= MemBytes(mem) THEN 0 ELSE MemBytes(mem) - p
  IN  IF ~acc[3] THEN acc ELSE
      CASE q.k = "read" ->
             LET c == Len(q.b) IN
             <<m, by(c), c <= BMin(room, q.n) /\ (c > 0 \/ room = 0 \/ q.n = 0) /\ (c > 0 => Match(ReadB(mem, p, c), q.b))>>
        [] q.k = "write" ->
             <<IF q.r > 0 /\ q.r <= BMin(room, Len(q.b)) THEN [m EXCEPT !.S.m[a] = WriteB(@, p, SubSeq(q.b, 1, q.r))] ELSE m,
               by(BMax(q.r, 0)), q.r <= BMin(room, Len(q.b)) /\ (q.r > 0 \/ room = 0 \/ q.b = <<>>)>>
        [] q.k = "seek" ->
             LET base == CASE q.w = "s" -> Zero(9) [] q.w = "c" -> ZExt(acc[2], 9) [] q.w = "e" -> FromNat(MemBytes(mem), 9)
                 t == Add(base, IF q.w = "s" THEN ZExt(q.d, 9) ELSE SExt(q.d, 9))
             IN  IF t[9] # 0 THEN <<m, acc[2], q.r = <<>>>> ELSE <<m, Trunc(t, 8), q.r = Trunc(t, 8)>>
        [] q.k = "set" -> <<m, q.d, TRUE>>
        [] q.k = "pos" -> <<m, acc[2], q.r = acc[2]>>
        [] q.k = "wall" ->      \* write_all
             IF Len(q.b) <= room THEN <<[m EXCEPT !.S.m[a] = WriteB(@, p, q.b)], by(Len(q.b)), q.r = 1>>
             ELSE <<[m EXCEPT !.S.m[a] = WriteB(@, p, SubSeq(q.b, 1, room))], by(room), q.r = 0>>
        [] q.k = "rall" ->      \* read_exact
             IF q.n <= room THEN <<m, by(q.n), q.r = 1 /\ Match(ReadB(mem, p, q.n), q.b)>>
             ELSE <<m, by(room), q.r = 0>>

MemOp(m, e) ==
  LET o == m.O[e.o]
      a == o[2]
      mem == m.S.m[a]
      size == MemBytes(mem)
      off == ToNat(e.off)
      fits(x, n) == x + n <= size
  IN
  IF o[3] # m.cs THEN If(~e.ok, m)
  ELSE CASE e.op = "m.len" -> If(e.ok /\ e.r = size, m)
    [] e.op = "m.pages" -> If(e.ok /\ e.r = mem.pg, m)
    [] e.op = "m.ty" -> If(e.ok /\ e.r = mem.ty, m)
    [] e.op = "m.read" -> LET c == Len(e.b)
                              room == IF off >= size THEN 0 ELSE size - off
                          IN  If(/\ e.ok /\ c <= BMin(room, e.n)
                                 /\ c > 0 \/ room = 0 \/ e.n = 0
                                 /\ c > 0 => Match(ReadB(mem, off, c), e.b), m)
    [] e.op = "m.write" -> LET room == IF off >= size THEN 0 ELSE size - off
                           IN  If(e.ok /\ e.r <= BMin(room, Len(e.b)) /\ (e.r > 0 \/ room = 0 \/ e.b = <<>>),
                                  IF e.r > 0 THEN [m EXCEPT !.S.m[a] = WriteB(@, off, SubSeq(e.b, 1, e.r))] ELSE m)
    [] e.op \in {"m.rex", "m.rvec"} ->
         IF fits(off, ToNat(e.n)) THEN If(e.ok /\ Match(ReadB(mem, off, ToNat(e.n)), e.b), m) ELSE If(~e.ok, m)
    [] e.op = "m.put" -> IF fits(off, Len(e.b)) THEN If(e.ok, [m EXCEPT !.S.m[a] = WriteB(@, off, e.b)]) ELSE If(~e.ok, m)
    [] e.op = "m.wcs" -> IF fits(off, Len(e.b) + 1) THEN If(e.ok, [m EXCEPT !.S.m[a] = WriteB(@, off, Append(e.b, 0))]) ELSE If(~e.ok, m)
    [] e.op = "m.fill" -> LET n == ToNat(e.n) IN
         IF fits(off, n) THEN If(e.ok, [m EXCEPT !.S.m[a] = WriteB(@, off, Rep_(e.v, n))]) ELSE If(~e.ok, m)
    [] e.op = "m.copy" -> LET n == ToNat(e.n)
                              s == ToNat(e.s) IN
         IF fits(off, n) /\ fits(s, n) THEN If(e.ok, [m EXCEPT !.S.m[a] = WriteB(@, off, ReadB(mem, s, n))]) ELSE If(~e.ok, m)
    [] e.op = "m.grow" ->
         LET d == ToNat(e.d) IN
         IF Neg1(e.d) \/ ~GrowOk(mem, d) THEN If(e.ok /\ e.r = -1, m)
         ELSE IF NoRoom(m, mem, d) THEN If(~e.ok \/ e.r = -1, m)     \* the host may be told either way
         ELSE If(e.ok /\ e.r = mem.pg, [m EXCEPT !.S.m[a] = Grown(@, d)])
    [] e.op = "m.rcs" -> LET n == ToNat(e.n) IN      \* exactly one NUL, at the end
         IF fits(off, n) /\ n > 0 /\ FirstNul(ReadB(mem, off, n)) = n
         THEN If(e.ok /\ e.b = ReadB(mem, off, n - 1), m) ELSE If(~e.ok, m)
    [] e.op = "m.rcu" -> LET n == ToNat(e.n)
                             z == FirstNul(ReadB(mem, off, n)) IN
         IF fits(off, n) /\ z > 0 THEN If(e.ok /\ e.b = ReadB(mem, off, z - 1), m) ELSE If(~e.ok, m)
    [] e.op = "m.rstr" -> LET n == ToNat(e.n) IN
         IF fits(off, n) /\ Utf8Ok(ReadB(mem, off, n)) THEN If(e.ok /\ e.b = ReadB(mem, off, n), m) ELSE If(~e.ok, m)
    [] e.op = "m.rjs" -> LET n == ToNat(e.n)
                             u == Utf16To8(ReadB(mem, off, n)) IN
         IF fits(off, n) /\ u # <<-1>> THEN If(e.ok /\ e.b = u, m) ELSE If(~e.ok, m)
    [] e.op = "m.cur" ->
         LET r == FoldLeft(LAMBDA acc, q : CurStep(acc, q, a), <<m, e.off, TRUE>>, e.l) IN If(e.ok /\ r[3], r[1])

TabOp(m, e) ==
  LET o == m.O[e.o]
      a == o[2]
      t == m.S.t[a]
      x == ToNat(e.i)
      n == ToNat(e.n)
  IN
  IF o[3] # m.cs THEN If(~e.ok, m)
  ELSE CASE e.op = "t.size" -> If(e.ok /\ e.r = TabSize(t), m)
    [] e.op = "t.ty" -> If(e.ok /\ e.r = t.ty, m)
    [] e.op = "t.get" -> IF x < TabSize(t) THEN IF e.ok THEN Keep(MatchVal(m, t.et, t.el[x + 1], e.v)) ELSE {} ELSE If(~e.ok, m)
    [] e.op = "t.load" -> IF x + n <= TabSize(t)
                          THEN IF e.ok THEN Keep(MatchVals(m, Rep_(t.et, n), SubSeq(t.el, x + 1, x + n), e.vs)) ELSE {}
                          ELSE If(~e.ok, m)
    [] e.op = "t.set" -> IF x < TabSize(t) /\ e.v.t = t.et
                         THEN If(e.ok, [m EXCEPT !.S.t[a].el[x + 1] = InVal(m, e.v)]) ELSE If(~e.ok, m)
    [] e.op = "t.copy" -> LET s == ToNat(e.s) IN
                          IF x + n <= TabSize(t) /\ s + n <= TabSize(t)
                          THEN If(e.ok, [m EXCEPT !.S.t[a] = TabWrite(@, x, SubSeq(t.el, s + 1, s + n))]) ELSE If(~e.ok, m)
    [] e.op = "t.grow" -> IF ~Neg1(e.i) /\ e.v.t = t.et /\ TabGrowOk(t, x)
                          THEN If(e.ok /\ e.r = TabSize(t), [m EXCEPT !.S.t[a].el = @ \o Rep_(InVal(m, e.v), x)])
                          ELSE If(~e.ok, m)

GlobOp(m, e) ==
  LET o == m.O[e.o]
      a == o[2]
      g == m.S.g[a]
  IN
  IF o[3] # m.cs THEN If(~e.ok, m)
  ELSE CASE e.op = "g.get" -> IF e.ok THEN Keep(MatchVal(m, g.ty, g.v, e.v)) ELSE {}
    [] e.op = "g.ty" -> If(e.ok /\ e.ty = g.ty /\ e.mu = g.mu, m)
    [] e.op = "g.set" -> IF g.mu /\ e.v.t = g.ty THEN If(e.ok, [m EXCEPT !.S.g[a].v = InVal(m, e.v)]) ELSE If(~e.ok, m)

\* the whole content of one object, as seen by the host
ObsOne(m, q) ==
  LET a == m.O[q.o][2] IN
  CASE q.k = "m" -> LET mem == m.S.m[a]
                        seen == { q.ch[j][1] : j \in 1..Len(q.ch) }
                    IN  [m EXCEPT !.ok = @ /\ q.pg = mem.pg
                           /\ (\A j \in 1..Len(q.ch) : Match(ReadB(mem, q.ch[j][1] * ChunkN, Len(q.ch[j][2])), q.ch[j][2]))
                           /\ (\A k \in DOMAIN mem.ch \ seen : \A x \in 1..ChunkN : mem.ch[k][x] <= 0)]
    [] q.k = "t" -> MatchVals(m, Rep_(m.S.t[a].et, Len(q.el)), m.S.t[a].el, q.el)
    [] q.k = "g" -> MatchVal(m, m.S.g[a].ty, m.S.g[a].v, q.v)

-----------------------------------------------------------------------------
(* Descriptors *)

ExtDesc(m, ex, inst) ==
  LET a == KindAddr(inst, ex) IN
  CASE ex.k = "f" -> [n |-> ex.n, k |-> "f", ty |-> [p |-> m.S.f[a].ty.p, r |-> m.S.f[a].ty.r]]
    [] ex.k = "t" -> [n |-> ex.n, k |-> "t", ty |-> m.S.t[a].ty]
    [] ex.k = "m" -> [n |-> ex.n, k |-> "m", ty |-> m.S.m[a].ty]
    [] ex.k = "g" -> [n |-> ex.n, k |-> "g", ty |-> [ty |-> m.S.g[a].ty, mu |-> m.S.g[a].mu]]

\* the exports of an instance in order; the embedder keeps a handle to each
DoExports(m, e) ==
  IF m.I[e.i][2] # m.cs THEN {} ELSE
  LET inst == m.S.i[m.I[e.i][1]]
      xs == Mod(m, inst.mi).exports
  IN  If(e.l = Tup([j \in 1..Len(xs) |-> ExtDesc(m, xs[j], inst)]),
         [m EXCEPT !.O = @ \o Tup([j \in 1..Len(xs) |-> <<xs[j].k, KindAddr(inst, xs[j]), m.cs>>])])

\* the static descriptors of a module: types before any instantiation
ImpDesc(mod, im) ==
  [m |-> im.m, n |-> im.n, k |-> im.k,
   ty |-> CASE im.k = "f" -> mod.types[im.t + 1]
            [] im.k = "g" -> [ty |-> im.ty, mu |-> im.mu]
            [] OTHER -> im.ty]
ImpTys(mod, k) == SelectSeq(mod.imps, LAMBDA im : im.k = k)
ModExtTy(mod, ex) ==
  LET is == ImpTys(mod, ex.k)
      ni == Len(is)
  IN  IF ex.x < ni THEN ImpDesc(mod, is[ex.x + 1]).ty
      ELSE LET j == ex.x - ni + 1 IN
           CASE ex.k = "f" -> mod.types[mod.funcs[j] + 1]
             [] ex.k = "t" -> mod.tables[j].ty
             [] ex.k = "m" -> mod.mems[j]
             [] ex.k = "g" -> [ty |-> mod.globals[j].ty, mu |-> mod.globals[j].mu]
DescOk(mod, e) ==
  /\ e.imps = Tup([j \in 1..Len(mod.imps) |-> ImpDesc(mod, mod.imps[j])])
  /\ e.exps = Tup([j \in 1..Len(mod.exports) |->
                    [n |-> mod.exports[j].n, k |-> mod.exports[j].k, ty |-> ModExtTy(mod, mod.exports[j])]])
  /\ e.start = (mod.start >= 0)

-----------------------------------------------------------------------------
(* The listing of a module on the command line *)

RECURSIVE DivTen(_,_,_), DecStr(_), Commas(_)
\* bytes 1..i of a, least first, divided by ten, the remainder of what is above being r: <<quotient, remainder>>
DivTen(a, i, r) == IF i = 0 THEN <<<<>>, r>>
                   ELSE LET x == r * 256 + a[i]
                            d == DivTen(a, i - 1, x % 10)
                        IN  <<Append(d[1], x \div 10), d[2]>>
DecStr(a) == LET d == DivTen(a, Len(a), 0) IN (IF \A i \in 1..Len(a) : d[1][i] = 0 THEN "" ELSE DecStr(d[1])) \o ToString(d[2])
Commas(ts) == IF ts = <<>> THEN "" ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o ", " \o Commas(Tail(ts))
PowTwo(k) == [i \in 1..8 |-> IF k \div 8 = i - 1 THEN 2 ^ (k % 8) ELSE 0]
\* the pages a memory may have at most
MaxPages(ty) == IF ty.max # <<>> THEN ty.max
                ELSE IF ty.it = "i32" THEN PowTwo(32 - ty.ps)
                ELSE IF ty.ps = 0 THEN [i \in 1..8 |-> 255] ELSE PowTwo(64 - ty.ps)
TyLine(k, ty) ==
  CASE k = "f" -> "func (" \o Commas(ty.p) \o ")" \o (IF ty.r = <<>> THEN "" ELSE " -> (" \o Commas(ty.r) \o ")")
    [] k = "m" -> "memory[" \o ty.it \o "] initial=" \o DecStr(ty.min) \o " max=" \o DecStr(MaxPages(ty)) \o " page_size=" \o DecStr(PowTwo(ty.ps))
    [] k = "t" -> "table[" \o ty.it \o " " \o ty.et \o "] initial=" \o DecStr(ty.min) \o " max=" \o (IF ty.max = <<>> THEN "unbounded" ELSE DecStr(ty.max))
    [] k = "g" -> "global[" \o (IF ty.mu THEN "mut " ELSE "const ") \o ty.ty \o "]"
NoLines(ls) == IF ls = <<>> THEN <<"  (none)">> ELSE ls
Listing(mod) ==
  <<"Imports">>
  \o NoLines(Tup([j \in 1..Len(mod.imps) |-> LET d == ImpDesc(mod, mod.imps[j]) IN "  " \o d.m \o "." \o d.n \o ": " \o TyLine(d.k, d.ty)]))
  \o <<"", "Exports">>
  \o NoLines(Tup([j \in 1..Len(mod.exports) |-> LET x == mod.exports[j] IN "  " \o x.n \o ": " \o TyLine(x.k, ModExtTy(mod, x))]))
InspectOk(mod, e) == IF e.bad THEN e.exit > 0 /\ e.lines = <<>> ELSE e.exit = 0 /\ e.lines = Listing(mod)

\* looking up a named export of kind k ("" : any kind)
DoGet(m, e) ==
  LET it == m.I[e.i] IN
  IF it[2] # m.cs
  THEN IF e.k = "f" THEN If(~e.ok, m)
       ELSE LET x == ExportIn(m, m.SS[it[2]], it[1], e.n) IN      \* (the other lookups do not involve a store)
            IF x # <<>> /\ e.k \in {"", x[1]} THEN If(e.ok, [m EXCEPT !.O = Append(@, <<x[1], x[2], it[2]>>)]) ELSE If(~e.ok, m)
  ELSE LET x == ExportOf(m, it[1], e.n)
           good == x # <<>> /\ (e.k = "" \/ e.k = x[1]) /\ (e.k = "f" /\ e.typed => FTyEq(m.S.f[x[2]].ty, e.ty))
       IN  IF good THEN If(e.ok, [m EXCEPT !.O = Append(@, <<x[1], x[2], m.cs>>)]) ELSE If(~e.ok, m)

\* the same by index (guest-debug): exports do not matter, and what nothing uses is there as well
DoByIndex(m, e) ==
  LET it == m.I[e.i]
      in == IF it[2] = m.cs THEN m.S.i[it[1]] ELSE m.SS[it[2]].i[it[1]]
      sp == CASE e.k = "f" -> in.f [] e.k = "t" -> in.t [] e.k = "m" -> in.m [] OTHER -> in.g
      good == /\ e.x < Len(sp)
              /\ e.k = "f" => it[2] = m.cs /\ (e.typed => FTyEq(m.S.f[sp[e.x + 1]].ty, e.ty))
  IN  IF good THEN If(e.ok, [m EXCEPT !.O = Append(@, <<e.k, sp[e.x + 1], it[2]>>)]) ELSE If(~e.ok, m)

-----------------------------------------------------------------------------
(* Resumable execution and fuel *)

RoundUp128(x) == ((x + 127) \div 128) * 128

\* A suspension: the budget must allow for what was seen to happen since the resume.
SuspendOk(m) ==
  LET f == m.fuel IN
  /\ f.b < 500000000
  /\ f.b = 0 => f.w0 < 0
\* Every host call made by metered code costs at least one unit, and so does what the host
\* charges: once that alone has used up the budget (ex is the call at which it had), at most
\* one accounting chunk more of them can follow.
Exhaust(m) ==
  LET f == m.fuel IN
  IF f.k = "f" /\ f.ex < 0 /\ f.w0 >= 0 /\ ~f.nest /\ m.w - f.w0 + 1 >= (IF f.ch >= f.b THEN 0 ELSE RoundUp128(f.b - f.ch))
  THEN [m EXCEPT !.fuel.ex = m.w] ELSE m
Spent(m) == m.fuel.on /\ m.fuel.ex >= 0 /\ ~m.fuel.nest /\ m.w + 1 > m.fuel.ex + 128

\* An instruction of the module costs at most UnitsPer units of fuel, and a unit pays for at
\* most PerUnit instructions (several may be fused into one; blocks and their ends are free).
UnitsPer == 8
PerUnit == 32
\* (entering a function may cost something for each of its locals: x)
\* each earlier suspension of this execution used up its budget, and no more was done than all
\* budgets allow (calls made by host functions are not metered)
Progress(m) == m.fuel.on => /\ m.fuel.need <= m.n - m.fuel.n0 + (m.x - m.fuel.x0)
                            /\ m.fuel.nest \/ m.n - m.fuel.n0 <= m.fuel.most

DoResume(m, e) ==
  IF m.run \/ ~m.fuel.on THEN {}
  ELSE {[m EXCEPT !.run = TRUE,
                  !.fuel = [@ EXCEPT !.k = e.k, !.b = e.b, !.ch = 0, !.w0 = -1, !.ex = -1, !.rem = -1,
                                     !.most = IF e.b = 0 THEN @
                                              ELSE IF e.k # "f" \/ e.b > 1000000 THEN Clip
                                              ELSE BMin(Clip, @ + PerUnit * (RoundUp128(e.b) + 128))]]}

DoSuspend(m) ==
  IF m.run /\ m.fuel.on /\ m.cur.k # "b" /\ ~(m.cur.k \in {"r", "h"} /\ m.fuel.b > 0 /\ m.cur.k = "r" /\ m.cur.dn) /\ SuspendOk(m)
  THEN {[m EXCEPT !.run = FALSE, !.fuel.sus = @ + (IF m.fuel.b > 0 THEN 1 ELSE 0),
                  !.fuel.need = IF m.fuel.b = 0 THEN @ ELSE IF m.fuel.k # "f" THEN @ + 1
                                ELSE @ + BMax(1, (m.fuel.b - BMin(m.fuel.b, m.fuel.ch)) \div UnitsPer)]}
  ELSE {}

\* abandon the suspended execution
DoDrop(m) ==
  IF m.run \/ ~m.fuel.on THEN {}
  ELSE LET j == IF m.cur.k = "r" THEN Len(m.st) + 1 ELSE BoundaryBelow(m.st, Len(m.st))
           d == IF m.cur.k = "r" THEN m.cur.dep ELSE m.st[j].dep
       IN  {[m EXCEPT !.cur = m.st[j-1], !.st = SubSeq(@, 1, j-2), !.dep = d, !.run = TRUE, !.n = m.fuel.n0, !.x = m.fuel.x0,
                    !.fuel = @.up[1]]}

\* fuel as reported to a host function
RemOk(m, r) ==
  IF ~(m.fuel.on /\ m.fuel.k = "f") THEN r = 0
  ELSE IF m.fuel.b >= 500000000 THEN TRUE      \* recorded numbers stop there
  ELSE /\ r <= (IF m.fuel.ch >= m.fuel.b THEN 0 ELSE m.fuel.b - m.fuel.ch)
       /\ m.fuel.rem >= 0 => r = m.fuel.rem

-----------------------------------------------------------------------------
(* The events *)

EvStep(m, e) ==
  CASE \* a host function is entered ...
       e.op = "hc" ->
         IF ~(m.run /\ m.cur.k = "h" /\ m.cur.ph = "pend" /\ m.O[e.o] = <<"f", m.cur.f, m.cs>>) THEN {}
         ELSE IF m.fuel.on /\ m.fuel.k # "" /\ (m.fuel.b = 0 \/ Spent(m) \/ ~Progress(m)) THEN {}
         ELSE LET m1 == MatchVals(m, m.S.f[m.cur.f].ty.p, m.cur.args, e.args)
                  m2 == IF m.cur.in = 0 \/ e.in = -1 THEN m1 ELSE LearnI(m1, e.in, m.cur.in)
              IN  Keep(Exhaust([m2 EXCEPT !.cur.ph = "run", !.w = @ + 1, !.fuel.rem = -1,
                                          !.fuel.w0 = IF @ < 0 THEN m.w + 1 ELSE @]))
    [] \* ... returns values ...
       e.op = "hr" ->
         IF ~(AtEmb(m) /\ m.cur.k = "h") THEN {}
         ELSE IF TypesOf(e.vals) = m.S.f[m.cur.f].ty.r THEN {Return(m, InVals(m, e.vals))}
         ELSE {Trap(m, "badret")}
    [] \* ... or fails
       e.op = "he" -> IF ~(AtEmb(m) /\ m.cur.k = "h") THEN {} ELSE {Trap(m, e.kind)}
    [] e.op = "rem" -> IF AtEmb(m) /\ m.cur.k = "h" /\ RemOk(m, e.r) THEN {[m EXCEPT !.fuel.rem = IF e.r < 500000000 THEN e.r ELSE -1]} ELSE {}
    [] e.op = "charge" ->
         IF AtEmb(m) /\ m.cur.k = "h"
         THEN {Exhaust([m EXCEPT !.fuel.ch = BMin(Clip, @ + e.n), !.fuel.rem = IF @ < 0 THEN @ ELSE IF @ < e.n THEN 0 ELSE @ - e.n])}
         ELSE {}
    [] \* calls
       e.op = "call" -> IF ~AtEmb(m) THEN {} ELSE {DoCall(m, "c", e)}
    [] e.op = "start" ->      \* run the start function of an instance
         IF ~AtEmb(m) THEN {}
         ELSE LET it == m.I[e.i]
                  in == m.S.i[it[1]]
              IN  IF it[2] # m.cs THEN {Failed(m, "c", "rej")}
                  ELSE LET sf == Mod(m, in.mi).start IN
                  IF sf < 0 THEN {[m EXCEPT !.st = Append(@, m.cur), !.cur = Bound(m, "c", <<"none", <<>>>>, 0, <<>>)]}
                  ELSE IF Active(m) THEN {Failed(m, "c", "rej")}
                  ELSE {Start(m, "c", in.f[sf + 1], <<>>, 0, it[1])}
    [] e.op = "none" -> IF m.run /\ m.cur.k = "c" /\ m.cur.out # <<>> /\ m.cur.out[1] = "none" THEN {Back(m)} ELSE {}
    [] e.op = "ret" ->
         IF ~(m.run /\ m.cur.k \in {"c", "r"} /\ m.cur.out # <<>> /\ m.cur.out[1] = "ok" /\ ~m.cur.dn) THEN {}
         ELSE IF m.cur.k = "r" /\ ~Progress(m) THEN {}
         ELSE LET m1 == MatchVals(m, m.cur.rt, m.cur.out[2], e.vals)
              IN  IF m.cur.k = "c" THEN Keep(Back(m1)) ELSE Keep([m1 EXCEPT !.cur.dn = TRUE, !.run = FALSE])
    [] e.op = "err" ->
         IF ~(m.run /\ m.cur.k \in {"c", "r"} /\ m.cur.out # <<>> /\ m.cur.out[1] = "trap" /\ ~m.cur.dn /\ m.cur.out[2] = e.kind) THEN {}
         ELSE IF m.cur.k = "c" THEN {Back(m)} ELSE IF ~Progress(m) THEN {} ELSE {[m EXCEPT !.cur.dn = TRUE, !.run = FALSE]}
    [] \* resumable calls
       e.op = "rnew" ->
         IF ~AtEmb(m) THEN {}
         ELSE LET m0 == DoCall(m, "r", e)
                  m1 == [m0 EXCEPT !.fuel = [NoFuel EXCEPT !.on = TRUE, !.n0 = m.n, !.x0 = m.x, !.up = <<m.fuel>>],
                                          !.x = IF m0.cur.k = "w" THEN m.x + 2 * Len(m0.cur.loc) ELSE m.x]
              IN  {[m1 EXCEPT !.run = m1.cur.k # "w"]}
                  \cup (IF m1.cur.k = "w" /\ m1.cur.sk = "must"      \* the function may be entered already here
                        THEN { Trap(m1, why) : why \in {"call_stack", "value_stack"} } ELSE {})
    [] e.op = "rnewok" ->
         IF \/ ~m.run /\ m.cur.k = "w"
            \/ m.run /\ m.cur.k = "r" /\ m.cur.out # <<>> /\ m.cur.out[1] = "ok"
         THEN {[m EXCEPT !.run = FALSE]} ELSE {}
    [] e.op = "rnewerr" ->
         IF m.run /\ m.cur.k = "r" /\ m.cur.out # <<>> /\ m.cur.out = <<"trap", e.kind>>
         THEN {[Back(m) EXCEPT !.fuel = @.up[1]]} ELSE {}
    [] e.op = "res" -> DoResume(m, e)
    [] e.op = "susp" -> DoSuspend(m)
    [] e.op = "rrej" -> IF m.run /\ m.cur.k = "r" /\ m.cur.dn THEN {[m EXCEPT !.run = FALSE]} ELSE {}
    [] e.op = "rdrop" -> DoDrop(m)
    [] \* instantiation
       e.op = "inst" -> IF ~AtEmb(m) THEN {} ELSE {DoInst(m, e)}
    [] e.op = "instok" ->
         IF m.run /\ m.cur.k = "i" /\ m.cur.out # <<>> /\ m.cur.out[1] = "ok"
         THEN Keep([Back(LearnI(m, e.id, m.cur.ia)) EXCEPT !.I = Append(@, <<m.cur.ia, m.cs>>)]) ELSE {}
    [] e.op = "insterr" ->
         IF m.run /\ m.cur.k = "i" /\ m.cur.out # <<>> /\ m.cur.out = <<"trap", e.kind>> THEN {Back(m)} ELSE {}
    [] OTHER ->
         IF ~AtEmb(m) THEN {}
         ELSE CASE e.op = "hnew" -> {[m EXCEPT !.S.f = Append(@, [k |-> "h", ty |-> e.ty]),
                                              !.O = Append(@, <<"f", Len(m.S.f) + 1, m.cs>>)]}
           [] e.op = "mnew" -> If(e.ok, [m EXCEPT !.S.m = Append(@, AllocMem(e.ty)), !.O = Append(@, <<"m", Len(m.S.m) + 1, m.cs>>)])
           [] e.op = "tnew" -> IF e.v.t # e.ty.et THEN If(~e.ok, m)
                               ELSE If(e.ok, [m EXCEPT !.S.t = Append(@, AllocTab(e.ty, InVal(m, e.v))),
                                                       !.O = Append(@, <<"t", Len(m.S.t) + 1, m.cs>>)])
           [] e.op = "gnew" -> IF e.v.t # e.ty THEN If(~e.ok, m)
                               ELSE If(e.ok, [m EXCEPT !.S.g = Append(@, [ty |-> e.ty, mu |-> e.mu, v |-> InVal(m, e.v)]),
                                                       !.O = Append(@, <<"g", Len(m.S.g) + 1, m.cs>>)])
           [] e.op = "exps" -> DoExports(m, e)
           [] e.op = "get" -> DoGet(m, e)
           [] e.op = "byidx" -> DoByIndex(m, e)
           [] e.op = "desc" -> If(DescOk(Mod(m, e.mod), e), m)
           [] e.op = "parse" -> If(ParseOk(e), m)
           [] e.op = "arch" -> If(ArchiveOk(e), m)
           [] e.op = "cli" -> If(CliRunOk(Mod(m, e.mod), e), m)
           [] e.op = "comp" -> If(CliCompileOk(e), m)
           [] e.op = "wast" -> If(WastOk(e, LAMBDA b : WB!Verdict(b)), m)
           [] e.op = "insp" -> If(InspectOk(Mod(m, e.mod), e), m)
           [] e.op = "hasstart" -> IF m.I[e.i][2] # m.cs THEN If(~e.ok, m)
                                   ELSE If(e.ok /\ e.r = (Mod(m, m.S.i[m.I[e.i][1]].mi).start >= 0), m)
           [] e.op = "eq" -> If(e.r = (m.O[e.o] = m.O[e.o2]), m)
           [] e.op = "use" -> If(m.cur.k = "b", [m EXCEPT !.SS[m.cs] = m.S, !.cs = e.s,
                                                         !.S = IF e.s = m.cs THEN m.S ELSE m.SS[e.s]])
           [] e.op = "obs" -> Keep(FoldLeft(ObsOne, m, e.l))
           [] e.op \in {"m.len", "m.pages", "m.ty", "m.read", "m.write", "m.rex", "m.rvec", "m.put", "m.wcs", "m.fill",
                        "m.copy", "m.grow", "m.rcs", "m.rcu", "m.rstr", "m.rjs", "m.cur"} -> MemOp(m, e)
           [] e.op \in {"t.size", "t.ty", "t.get", "t.load", "t.set", "t.copy", "t.grow"} -> TabOp(m, e)
           [] e.op \in {"g.get", "g.ty", "g.set"} -> GlobOp(m, e)
           [] e.op = "wless" -> If(e.a <= e.b, m)
           [] e.op = "same" -> If(e.ok, m)
           [] e.op = "note" -> {m}
           [] e.op = "toolong" -> {m}      \* the recording stops here
           [] OTHER -> {}
=============================================================================
