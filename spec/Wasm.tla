-------------------------------- MODULE Wasm --------------------------------
(***************************************************************************)
(* The WebAssembly execution semantics as a state machine.                 *)
(*                                                                         *)
(* A machine m is a record                                                 *)
(*   c    the index of the case (its modules are Cases[c].mods)            *)
(*   S    the store: functions, tables, memories, globals, segments,       *)
(*        instances                                                        *)
(*   cur  the active frame                                                 *)
(*   st   the frames below it, innermost last                              *)
(*   dep  the number of guest frames suspended in a guest-to-guest call    *)
(*   n    the number of guest instructions executed                        *)
(*   x    an allowance for the cost of entering functions                  *)
(* Frames:                                                                 *)
(*   k = "w"  a guest function: module mi, function fi, instance in,       *)
(*            pc, locals, operand stack, label stack, result count         *)
(*   k = "h"  a host function: waiting to start (ph = "pend") or running   *)
(*   k = "c"  an embedder call awaiting its outcome (also "r", a resumable *)
(*            call, and "i", an instantiation running its start function)  *)
(*   k = "b"  the embedder itself                                          *)
(*   k = "inc" the specification cannot tell what follows (a decision      *)
(*            depended on bits WebAssembly leaves open)                    *)
(* Values are byte tuples (see Bytes); a reference is a 1-tuple holding a  *)
(* store address or host number, or -1 for null.                           *)
(***************************************************************************)
EXTENDS SimdOps, TLC

CONSTANT Cases

Mod(m, mi) == Cases[m.c].mods[mi]
Null == <<-1>>
IsRefTy(t) == t = "funcref" \/ t = "externref"
DefaultVal(t) == CASE t \in {"i32", "f32"} -> Zero(4)
                   [] t \in {"i64", "f64"} -> Zero(8)
                   [] t = "v128" -> Zero(16)
                   [] OTHER -> Null

EmptyFcn == [k \in {} |-> 0]
Strict(f) == f @@ EmptyFcn

-----------------------------------------------------------------------------
(* Frames, calls, returns, traps *)

Pop(ops, n) == SubSeq(ops, 1, Len(ops) - n)
TopN(ops, n) == SubSeq(ops, Len(ops) - n + 1, Len(ops))
Peek(m, k) == m.cur.ops[Len(m.cur.ops) - k]

\* replace the top n operands by vs and go on
Rep(m, n, vs) == [m EXCEPT !.cur.ops = Pop(@, n) \o vs, !.cur.pc = @ + 1]
Skip(m) == [m EXCEPT !.cur.pc = @ + 1]
Inc(m) == [m EXCEPT !.cur = [k |-> "inc"]]

IsBoundary(f) == f.k \in {"c", "i", "r"}
RECURSIVE BoundaryBelow(_,_)
BoundaryBelow(st, j) == IF IsBoundary(st[j]) THEN j ELSE BoundaryBelow(st, j-1)

\* A trap (or a host error) unwinds to the innermost embedder boundary.
Trap(m, why) ==
  LET j == BoundaryBelow(m.st, Len(m.st))
  IN  [m EXCEPT !.cur = [m.st[j] EXCEPT !.out = <<"trap", why>>],
                !.st = SubSeq(@, 1, j-1),
                !.dep = m.st[j].dep]

Return(m, vals) ==
  LET below == m.st[Len(m.st)]
      st2 == SubSeq(m.st, 1, Len(m.st) - 1)
  IN  IF below.k = "w"
      THEN [m EXCEPT !.st = st2, !.cur = [below EXCEPT !.ops = @ \o vals],
                     !.dep = IF m.cur.k = "w" THEN @ - 1 ELSE @ - m.cur.pl]
      ELSE [m EXCEPT !.st = st2, !.cur = [below EXCEPT !.out = <<"ok", vals>>], !.dep = below.dep]

FrameFor(m, a, args) ==
  LET f == m.S.f[a] IN
  IF f.k = "h" THEN [k |-> "h", f |-> a, ph |-> "pend", args |-> args, in |-> 0, rem |-> -1, pl |-> 0]
  ELSE [k |-> "w", mi |-> f.mi, fi |-> f.fi, in |-> f.in, pc |-> 1,
        loc |-> args \o Mod(m, f.mi).code[f.fi].loc,
        ops |-> <<>>, lab |-> <<>>, nr |-> Len(f.ty.r), base |-> <<>>, sk |-> ""]

(* The value stack limits vl of a case (slots of 32, 64 and 128 bits; none given: not        *)
(* modelled).  Locals, and operands that wait for a call to return, take a slot of the stack  *)
(* of their size; the operands of the running function may or may not be there.  A function   *)
(* whose locals do not fit must overflow (sk = "must"), one that might not fit may overflow   *)
(* wherever its operands could be too many (sk = "may").                                      *)
Sizes == <<4, 8, 16>>
Slots(vs, k) == FoldLeft(LAMBDA n, v : IF Len(v) = Sizes[k] \/ (Len(v) = 1 /\ k = 1) THEN n + 1 ELSE n, 0, vs)
RECURSIVE GuestBelow(_,_)
GuestBelow(fs, j) == IF j = 0 THEN 0 ELSE IF fs[j].k = "w" THEN j ELSE GuestBelow(fs, j - 1)
OperandSlack == 2
Measure(m, fr, fs) ==
  LET vl == Cases[m.c].vl
      j == GuestBelow(fs, Len(fs))
      b == IF j = 0 THEN <<0, 0, 0>> ELSE LET g == fs[j] IN Tup([k \in 1..3 |-> g.base[k] + Slots(g.loc, k) + Slots(g.ops, k)])
      need == [k \in 1..3 |-> b[k] + Slots(fr.loc, k)]
      code == Len(Mod(m, fr.mi).code[fr.fi].code)
  IN  [fr EXCEPT !.base = b,
                 !.sk = IF \E k \in 1..3 : need[k] > vl[k] THEN "must"
                        ELSE IF \E k \in 1..3 : need[k] + code + OperandSlack > vl[k] THEN "may" ELSE ""]
MayOverflow(m) ==
  LET vl == Cases[m.c].vl IN
  \E k \in 1..3 : m.cur.base[k] + Slots(m.cur.loc, k) + Slots(m.cur.ops, k) + OperandSlack > vl[k]

\* Enter function a on top of the frames fs; from: the calling instance.
Enter(m, a, args, fs, from) ==
  LET fr == FrameFor(m, a, args) IN
  [m EXCEPT !.st = fs, !.x = IF m.fuel.on /\ fr.k = "w" THEN BMin(Clip, @ + 2 * Len(fr.loc)) ELSE @,
            !.cur = IF fr.k = "h" THEN [fr EXCEPT !.in = from]
                               ELSE IF Cases[m.c].vl = <<>> THEN fr ELSE Measure(m, fr, fs)]

Call(m, a) ==
  LET f == m.S.f[a]
      np == Len(f.ty.p)
      args == TopN(m.cur.ops, np)
      me == [m.cur EXCEPT !.ops = Pop(@, np), !.pc = @ + 1]
  IN  IF f.k = "h" THEN Enter(m, a, args, Append(m.st, me), m.cur.in)
      ELSE IF m.dep >= m.lim THEN Trap(m, "call_stack")
      ELSE [Enter(m, a, args, Append(m.st, me), m.cur.in) EXCEPT !.dep = @ + 1]

\* The caller's frame is replaced; a host function keeps the place its caller had until it returns.
TailCall(m, a) ==
  LET f == m.S.f[a]
      np == Len(f.ty.p)
      args == TopN(m.cur.ops, np)
      below == m.st[Len(m.st)]
  IN  IF f.k = "h" /\ below.k = "w"
      THEN [Enter(m, a, args, m.st, m.cur.in) EXCEPT !.cur.pl = 1]
      ELSE Enter(m, a, args, m.st, m.cur.in)

Branch(m, d) ==
  LET fr == m.cur
      nl == Len(fr.lab)
  IN  IF d = nl THEN Return(m, TopN(fr.ops, fr.nr))
      ELSE LET l == fr.lab[nl - d] IN
           [m EXCEPT !.cur = [fr EXCEPT
              !.ops = SubSeq(@, 1, l.h) \o TopN(@, l.n),
              !.lab = SubSeq(@, 1, IF l.lp THEN nl - d ELSE nl - d - 1),
              !.pc = l.pc]]

-----------------------------------------------------------------------------
(* Memories: pages pg of 2^ps bytes, contents as a sparse map of 32-byte chunks *)

ChunkN == 32
ZeroChunk == Zero(ChunkN)
MemBytes(mem) == IF mem.pg >= (Clip \div Pow2[mem.ps]) THEN Clip ELSE mem.pg * Pow2[mem.ps]
ByteAt(ch, x) == LET k == x \div ChunkN IN IF k \in DOMAIN ch THEN ch[k][(x % ChunkN) + 1] ELSE 0
ReadB(mem, a, n) ==
  IF n = 0 THEN <<>>
  ELSE LET ch == mem.ch
           k == a \div ChunkN
           o == a % ChunkN
       IN  IF o + n <= ChunkN
           THEN IF k \in DOMAIN ch THEN SubSeq(ch[k], o + 1, o + n) ELSE Zero(n)
           ELSE Tup([i \in 1..n |-> ByteAt(ch, a + i - 1)])
WriteB(mem, a, bs) ==
  LET n == Len(bs) IN
  IF n = 0 THEN mem
  ELSE LET k0 == a \div ChunkN
           k1 == (a + n - 1) \div ChunkN
           ch == mem.ch
           new == [k \in k0..k1 |->
                    LET old == IF k \in DOMAIN ch THEN ch[k] ELSE ZeroChunk
                    IN  Tup([j \in 1..ChunkN |-> LET p == k*ChunkN + j - a
                                                IN  IF p >= 1 /\ p <= n THEN bs[p] ELSE old[j]])]
       IN  [mem EXCEPT !.ch = new @@ ch]

InBounds(mem, a, n) == a + n <= MemBytes(mem)

\* largest page count a memory may reach
MemMax(mem) == mem.max

\* index operand (4 or 8 bytes) as a clipped natural
Idxv(v) == ToNat(v)

Grown(mem, d) == [mem EXCEPT !.pg = @ + d]
GrowOk(mem, d) == d < Clip /\ mem.pg + d <= mem.max
\* the configured backend cannot hold the grown memory (cap = 0: it has no such limit)
NoRoom(m, mem, d) == Cases[m.c].cap > 0 /\ d > 0 /\ MemBytes(Grown(mem, d)) > Cases[m.c].cap
OomTraps(m) == Cases[m.c].oom

-----------------------------------------------------------------------------
(* Tables *)
TabSize(t) == Len(t.el)
TabGrowOk(t, d) == d < Clip /\ TabSize(t) + d <= t.max
Rep_(v, n) == Tup([i \in 1..n |-> v])
TabWrite(t, at, vs) ==
  [t EXCEPT !.el = Tup([i \in 1..Len(t.el) |-> IF i > at /\ i <= at + Len(vs) THEN vs[i - at] ELSE t.el[i]])]

-----------------------------------------------------------------------------
(* Constant expressions *)
ConstStep(S, inst, stk, i) ==
  LET n == Len(stk) IN
  CASE i.k = "const" -> Append(stk, i.v)
    [] i.k = "gget" -> Append(stk, S.g[inst.g[i.x + 1]].v)
    [] i.k = "rfunc" -> Append(stk, <<inst.f[i.x + 1]>>)
    [] i.k = "rnull" -> Append(stk, Null)
    [] i.k = "ib" -> Append(Pop(stk, 2), IBin(i.f, stk[n-1], stk[n]))
EvalConst(S, inst, e) == FoldLeft(LAMBDA stk, i : ConstStep(S, inst, stk, i), <<>>, e)[1]

-----------------------------------------------------------------------------
(* Instantiation: allocate everything, then run active segments in order *)

MaxPagesOf(t) ==     \* clipped page limit of a memory type
  LET lim == IF t.ps >= 16 /\ t.it = "i32" THEN 65536 ELSE Clip
      dm == IF t.max = <<>> THEN Clip ELSE ToNat(t.max)
  IN  BMin(lim, dm)
AllocMem(t) == [pg |-> ToNat(t.min), ps |-> t.ps, max |-> MaxPagesOf(t), it |-> t.it, ty |-> t, ch |-> EmptyFcn]
AllocTab(t, v) == [el |-> Rep_(v, ToNat(t.min)), max |-> IF t.max = <<>> THEN Clip ELSE ToNat(t.max),
                   it |-> t.it, et |-> t.et, ty |-> t]

Upto(n) == Idx[n]
Addrs(base, n) == Tup([i \in 1..n |-> base + i])

\* imp: the addresses bound to the imports, by kind [f, t, m, g]
\* Result: <<store, trap reason or "", instance address>>
Instantiate(m, mi, imp) ==
  LET mod == Mod(m, mi)
      S == m.S
      ia == Len(S.i) + 1
      nf == Len(mod.funcs)
      inst0 == [mi |-> mi,
                f |-> imp.f \o Addrs(Len(S.f), nf),
                t |-> imp.t \o Addrs(Len(S.t), Len(mod.tables)),
                m |-> imp.m \o Addrs(Len(S.m), Len(mod.mems)),
                g |-> imp.g \o Addrs(Len(S.g), Len(mod.globals)),
                e |-> Addrs(Len(S.e), Len(mod.elems)),
                d |-> Addrs(Len(S.d), Len(mod.datas))]
      newf == Tup([i \in 1..nf |-> [k |-> "w", mi |-> mi, fi |-> i, in |-> ia, ty |-> mod.types[mod.funcs[i] + 1]]])
      S1 == [S EXCEPT !.f = @ \o newf,
                      !.m = @ \o Tup([i \in 1..Len(mod.mems) |-> AllocMem(mod.mems[i])])]
      \* globals in order; each initializer sees the earlier ones
      S2 == FoldLeft(LAMBDA s, gd : [s EXCEPT !.g = Append(@, [ty |-> gd.ty, mu |-> gd.mu, v |-> EvalConst(s, inst0, gd.init)])],
                     S1, mod.globals)
      S3 == FoldLeft(LAMBDA s, td : [s EXCEPT !.t = Append(@, AllocTab(td.ty, IF td.init = <<>> THEN Null ELSE EvalConst(s, inst0, td.init)))],
                     S2, mod.tables)
      S4 == [S3 EXCEPT !.e = @ \o Tup([i \in 1..Len(mod.elems) |->
                                 Tup([j \in 1..Len(mod.elems[i].init) |-> EvalConst(S3, inst0, mod.elems[i].init[j])])]),
                       !.d = @ \o Tup([i \in 1..Len(mod.datas) |-> mod.datas[i].b]),
                       !.i = Append(@, inst0)]
      doElem(acc, j) ==
        LET s == acc[1]
            el == mod.elems[j]
            ea == inst0.e[j]
        IN IF acc[2] # "" \/ el.mode = "passive" THEN acc
           ELSE IF el.mode = "declared" THEN <<[s EXCEPT !.e[ea] = <<>>], "">>
           ELSE LET ta == inst0.t[el.x + 1]
                    off == ToNat(EvalConst(s, inst0, el.off))
                IN  IF off + Len(s.e[ea]) > TabSize(s.t[ta]) THEN <<s, "table_oob">>
                    ELSE <<[s EXCEPT !.t[ta] = TabWrite(@, off, s.e[ea]), !.e[ea] = <<>>], "">>
      doData(acc, j) ==
        LET s == acc[1]
            da == mod.datas[j]
            aa == inst0.d[j]
        IN IF acc[2] # "" \/ da.mode = "passive" THEN acc
           ELSE LET ma == inst0.m[da.x + 1]
                    off == ToNat(EvalConst(s, inst0, da.off))
                IN  IF off + Len(s.d[aa]) > MemBytes(s.m[ma]) THEN <<s, "mem_oob">>
                    ELSE <<[s EXCEPT !.m[ma] = WriteB(@, off, s.d[aa]), !.d[aa] = <<>>], "">>
      r1 == FoldLeft(doElem, <<S4, "">>, Upto(Len(mod.elems)))
      r2 == FoldLeft(doData, r1, Upto(Len(mod.datas)))
  IN <<r2[1], r2[2], ia>>

-----------------------------------------------------------------------------
(* Scalar conversions, by name *)
CvtTrap(f, x) ==
  CASE f \in {"i32.trunc_f32_s", "i32.trunc_f64_s"} -> ToIntTrap(x, 4, TRUE)
    [] f \in {"i32.trunc_f32_u", "i32.trunc_f64_u"} -> ToIntTrap(x, 4, FALSE)
    [] f \in {"i64.trunc_f32_s", "i64.trunc_f64_s"} -> ToIntTrap(x, 8, TRUE)
    [] f \in {"i64.trunc_f32_u", "i64.trunc_f64_u"} -> ToIntTrap(x, 8, FALSE)
    [] OTHER -> ""
Cvt(f, x) ==
  CASE f = "i32.wrap_i64" -> Trunc(x, 4)
    [] f = "i64.extend_i32_s" -> SExt(x, 8)
    [] f = "i64.extend_i32_u" -> ZExt(x, 8)
    [] f \in {"i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64"} -> x
    [] f = "f64.promote_f32" -> Promote(x)
    [] f = "f32.demote_f64" -> Demote(x)
    [] f \in {"f32.convert_i32_s", "f32.convert_i64_s"} -> FromIntS(x, 4)
    [] f \in {"f32.convert_i32_u", "f32.convert_i64_u"} -> FromIntU(x, 4)
    [] f \in {"f64.convert_i32_s", "f64.convert_i64_s"} -> FromIntS(x, 8)
    [] f \in {"f64.convert_i32_u", "f64.convert_i64_u"} -> FromIntU(x, 8)
    [] f \in {"i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u"} -> ToInt(x, 4)
    [] f \in {"i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u"} -> ToInt(x, 8)
    [] f \in {"i32.trunc_sat_f32_s", "i32.trunc_sat_f64_s"} -> ToIntSat(x, 4, TRUE)
    [] f \in {"i32.trunc_sat_f32_u", "i32.trunc_sat_f64_u"} -> ToIntSat(x, 4, FALSE)
    [] f \in {"i64.trunc_sat_f32_s", "i64.trunc_sat_f64_s"} -> ToIntSat(x, 8, TRUE)
    [] f \in {"i64.trunc_sat_f32_u", "i64.trunc_sat_f64_u"} -> ToIntSat(x, 8, FALSE)
CvtWidth(f) == CASE f \in {"i32.wrap_i64", "i32.reinterpret_f32", "f32.reinterpret_i32", "f32.demote_f64",
                           "f32.convert_i32_s", "f32.convert_i32_u", "f32.convert_i64_s", "f32.convert_i64_u",
                           "i32.trunc_sat_f32_s", "i32.trunc_sat_f32_u", "i32.trunc_sat_f64_s", "i32.trunc_sat_f64_u"} -> 4
                 [] OTHER -> 8
CvtOk(f, x) ==    \* the specification knows enough of x
  \/ f \in {"i32.wrap_i64", "i64.extend_i32_s", "i64.extend_i32_u",
            "i32.reinterpret_f32", "i64.reinterpret_f64", "f32.reinterpret_i32", "f64.reinterpret_i64"}
  \/ Known(x)
  \/ f \in {"f64.promote_f32", "f32.demote_f64"} /\ FOk(x)
  \/ ~(f \in {"f32.convert_i32_s", "f32.convert_i64_s", "f32.convert_i32_u", "f32.convert_i64_u",
              "f64.convert_i32_s", "f64.convert_i64_s", "f64.convert_i32_u", "f64.convert_i64_u"}) /\ FOk(x)
CvtTraps(f) == f \in {"i32.trunc_f32_s", "i32.trunc_f32_u", "i32.trunc_f64_s", "i32.trunc_f64_u",
                      "i64.trunc_f32_s", "i64.trunc_f32_u", "i64.trunc_f64_s", "i64.trunc_f64_u"}

-----------------------------------------------------------------------------
(***************************************************************************)
(* One guest instruction i in machine m.                                   *)
(***************************************************************************)
Num(m, i) ==
  LET a == Peek(m, 0)
      b == Peek(m, 0)
      x == Peek(m, 1)
  IN
  CASE i.k = "ib" ->      \* integer binary: x op b
        IF ~(Known(x) /\ Known(b))
        THEN IF i.f \in {"div_s", "div_u", "rem_s", "rem_u"} THEN Inc(m)
             ELSE IF i.f = "and" THEN Rep(m, 2, <<And_(x, b)>>)
             ELSE IF i.f = "or" THEN Rep(m, 2, <<Or_(x, b)>>)
             ELSE IF i.f = "xor" THEN Rep(m, 2, <<Xor_(x, b)>>)
             ELSE Rep(m, 2, <<AnyB(Len(x))>>)
        ELSE LET t == IBinTrap(i.f, x, b)
             IN  IF t # "" THEN Trap(m, t) ELSE Rep(m, 2, <<IBin(i.f, x, b)>>)
    [] i.k = "ir" -> Rep(m, 2, <<IF Known(x) /\ Known(b) THEN Bool(IRel(i.f, x, b)) ELSE <<AnyBy, 0, 0, 0>>>>)
    [] i.k = "eqz" -> Rep(m, 1, <<IF Known(a) THEN Bool(IsZero(a)) ELSE <<AnyBy, 0, 0, 0>>>>)
    [] i.k = "iu" -> Rep(m, 1, <<IF Known(a) THEN IUn(i.f, a) ELSE AnyB(Len(a))>>)
    [] i.k = "fb" -> Rep(m, 2, <<IF i.f = "copysign" THEN FCopysign(x, b)
                                ELSE IF FOk(x) /\ FOk(b) THEN FBin(i.f, x, b) ELSE AnyB(Len(x))>>)
    [] i.k = "fr" -> Rep(m, 2, <<IF FOk(x) /\ FOk(b) THEN Bool(FRel(i.f, x, b)) ELSE <<AnyBy, 0, 0, 0>>>>)
    [] i.k = "fu" -> Rep(m, 1, <<IF i.f \in {"abs", "neg"} \/ FOk(a) THEN FUn(i.f, a) ELSE AnyB(Len(a))>>)
    [] i.k = "cvt" ->
        IF ~CvtOk(i.f, a) THEN IF CvtTraps(i.f) THEN Inc(m) ELSE Rep(m, 1, <<AnyB(CvtWidth(i.f))>>)
        ELSE LET t == CvtTrap(i.f, a) IN IF t # "" THEN Trap(m, t) ELSE Rep(m, 1, <<Cvt(i.f, a)>>)
    [] i.k = "wide" ->
        LET xs == TopN(m.cur.ops, i.n)
        IN  Rep(m, i.n, IF \A j \in 1..i.n : Known(xs[j]) THEN Wide(i.f, xs) ELSE <<AnyB(8), AnyB(8)>>)

\* immediate offset plus address operand; huge when out of any memory's reach
EA(i, v) == ToNat(v) + ToNat(i.off)
MemOf(m, i) == m.S.i[m.cur.in].m[i.m + 1]

LoadExt(i, bs) == IF i.sx = "s" THEN SExt(bs, i.w) ELSE ZExt(bs, i.w)
Mem(m, i) ==
  LET ma == MemOf(m, i)
      mem == m.S.m[ma]
      top == Peek(m, 0)
  IN
  CASE i.k = "load" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET ea == EA(i, top)
             IN  IF ~InBounds(mem, ea, i.b) THEN Trap(m, "mem_oob")
                 ELSE Rep(m, 1, <<LoadExt(i, ReadB(mem, ea, i.b))>>)
    [] i.k = "store" ->
        IF ~Known(Peek(m, 1)) THEN Inc(m)
        ELSE LET ea == EA(i, Peek(m, 1))
             IN  IF ~InBounds(mem, ea, i.b) THEN Trap(m, "mem_oob")
                 ELSE [Rep(m, 2, <<>>) EXCEPT !.S.m[ma] = WriteB(@, ea, Trunc(top, i.b))]
    [] i.k = "msize" -> Rep(m, 0, <<FromNat(mem.pg, IF mem.it = "i32" THEN 4 ELSE 8)>>)
    [] i.k = "mgrow" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET d == Idxv(top)
                 w == IF mem.it = "i32" THEN 4 ELSE 8
             IN  IF ~GrowOk(mem, d) THEN Rep(m, 1, <<Ones(w)>>)
                 ELSE IF NoRoom(m, mem, d) THEN IF OomTraps(m) THEN Trap(m, "oom") ELSE Rep(m, 1, <<Ones(w)>>)
                 ELSE IF MemBytes(Grown(mem, d)) > 33554432 THEN Inc(m)
                 ELSE [Rep(m, 1, <<FromNat(mem.pg, w)>>) EXCEPT !.S.m[ma] = Grown(@, d)]
    [] i.k = "mfill" ->
        IF ~(Known(Peek(m, 2)) /\ Known(Peek(m, 0))) THEN Inc(m)
        ELSE LET d == Idxv(Peek(m, 2))
                 n == Idxv(Peek(m, 0))
             IN  IF ~InBounds(mem, d, n) THEN Trap(m, "mem_oob")
                 ELSE [Rep(m, 3, <<>>) EXCEPT !.S.m[ma] = WriteB(@, d, Rep_(Peek(m, 1)[1], n))]
    [] i.k = "mcopy" ->      \* memory i.m <- memory i.m2
        IF ~(Known(Peek(m, 2)) /\ Known(Peek(m, 1)) /\ Known(Peek(m, 0))) THEN Inc(m)
        ELSE LET mb == m.S.i[m.cur.in].m[i.m2 + 1]
                 d == Idxv(Peek(m, 2))
                 s == Idxv(Peek(m, 1))
                 n == Idxv(Peek(m, 0))
             IN  IF ~InBounds(mem, d, n) \/ ~InBounds(m.S.m[mb], s, n) THEN Trap(m, "mem_oob")
                 ELSE [Rep(m, 3, <<>>) EXCEPT !.S.m[ma] = WriteB(@, d, ReadB(m.S.m[mb], s, n))]
    [] i.k = "minit" ->
        IF ~(Known(Peek(m, 2)) /\ Known(Peek(m, 1)) /\ Known(Peek(m, 0))) THEN Inc(m)
        ELSE LET da == m.S.d[m.S.i[m.cur.in].d[i.x + 1]]
                 d == Idxv(Peek(m, 2))
                 s == Idxv(Peek(m, 1))
                 n == Idxv(Peek(m, 0))
             IN  IF ~InBounds(mem, d, n) \/ s + n > Len(da) THEN Trap(m, "mem_oob")
                 ELSE [Rep(m, 3, <<>>) EXCEPT !.S.m[ma] = WriteB(@, d, SubSeq(da, s + 1, s + n))]
    \* vector loads and stores
    [] i.k = "vload" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET ea == EA(i, top)
             IN  IF ~InBounds(mem, ea, i.b) THEN Trap(m, "mem_oob")
                 ELSE LET bs == ReadB(mem, ea, i.b)
                      IN  Rep(m, 1, <<CASE i.f = "splat" -> Splat(bs)
                                        [] i.f = "zero" -> ZExt(bs, 16)
                                        [] i.f = "ext" -> Flat([j \in 1..(8 \div i.w) |->
                                             LET l == Lane(bs, i.w, j) IN IF i.sx = "s" THEN SExt(l, 2*i.w) ELSE ZExt(l, 2*i.w)])>>)
    [] i.k = "vloadl" ->
        IF ~Known(Peek(m, 1)) THEN Inc(m)
        ELSE LET ea == EA(i, Peek(m, 1))
             IN  IF ~InBounds(mem, ea, i.b) THEN Trap(m, "mem_oob")
                 ELSE Rep(m, 2, <<Replace(top, i.b, i.l, ReadB(mem, ea, i.b))>>)
    [] i.k = "vstorel" ->
        IF ~Known(Peek(m, 1)) THEN Inc(m)
        ELSE LET ea == EA(i, Peek(m, 1))
             IN  IF ~InBounds(mem, ea, i.b) THEN Trap(m, "mem_oob")
                 ELSE [Rep(m, 2, <<>>) EXCEPT !.S.m[ma] = WriteB(@, ea, Lane(top, i.b, i.l + 1))]

Tab(m, i) ==
  LET in == m.S.i[m.cur.in]
      ta == in.t[i.x + 1]
      t == m.S.t[ta]
      w == IF t.it = "i32" THEN 4 ELSE 8
      top == Peek(m, 0)
  IN
  CASE i.k = "tget" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET x == Idxv(top)
             IN  IF x >= TabSize(t) THEN Trap(m, "table_oob") ELSE Rep(m, 1, <<t.el[x + 1]>>)
    [] i.k = "tset" ->
        IF ~Known(Peek(m, 1)) THEN Inc(m)
        ELSE LET x == Idxv(Peek(m, 1))
             IN  IF x >= TabSize(t) THEN Trap(m, "table_oob")
                 ELSE [Rep(m, 2, <<>>) EXCEPT !.S.t[ta].el[x + 1] = top]
    [] i.k = "tsize" -> Rep(m, 0, <<FromNat(TabSize(t), w)>>)
    [] i.k = "tgrow" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET d == Idxv(top)
             IN  IF ~TabGrowOk(t, d) THEN Rep(m, 2, <<Ones(w)>>)
                 ELSE IF TabSize(t) + d > 4096 THEN Inc(m)
                 ELSE [Rep(m, 2, <<FromNat(TabSize(t), w)>>) EXCEPT !.S.t[ta].el = @ \o Rep_(Peek(m, 1), d)]
    [] i.k = "tfill" ->
        IF ~(Known(Peek(m, 2)) /\ Known(top)) THEN Inc(m)
        ELSE LET d == Idxv(Peek(m, 2))
                 n == Idxv(top)
             IN  IF d + n > TabSize(t) THEN Trap(m, "table_oob")
                 ELSE [Rep(m, 3, <<>>) EXCEPT !.S.t[ta] = TabWrite(@, d, Rep_(Peek(m, 1), n))]
    [] i.k = "tcopy" ->
        IF ~(Known(Peek(m, 2)) /\ Known(Peek(m, 1)) /\ Known(top)) THEN Inc(m)
        ELSE LET t2 == m.S.t[in.t[i.x2 + 1]]
                 d == Idxv(Peek(m, 2))
                 s == Idxv(Peek(m, 1))
                 n == Idxv(top)
             IN  IF d + n > TabSize(t) \/ s + n > TabSize(t2) THEN Trap(m, "table_oob")
                 ELSE [Rep(m, 3, <<>>) EXCEPT !.S.t[ta] = TabWrite(@, d, SubSeq(t2.el, s + 1, s + n))]
    [] i.k = "tinit" ->
        IF ~(Known(Peek(m, 2)) /\ Known(Peek(m, 1)) /\ Known(top)) THEN Inc(m)
        ELSE LET el == m.S.e[in.e[i.e + 1]]
                 d == Idxv(Peek(m, 2))
                 s == Idxv(Peek(m, 1))
                 n == Idxv(top)
             IN  IF d + n > TabSize(t) \/ s + n > Len(el) THEN Trap(m, "table_oob")
                 ELSE [Rep(m, 3, <<>>) EXCEPT !.S.t[ta] = TabWrite(@, d, SubSeq(el, s + 1, s + n))]

\* the function a call_indirect reaches: <<address, "">> or <<0, trap>>
Resolve(m, i, ix) ==
  LET in == m.S.i[m.cur.in]
      t == m.S.t[in.t[i.x + 1]]
      want == Mod(m, in.mi).types[i.t + 1]
      x == Idxv(ix)
  IN  IF x >= TabSize(t) THEN <<0, "undef_elem">>
      ELSE IF t.el[x + 1] = Null THEN <<0, "uninit_elem">>
      ELSE LET a == t.el[x + 1][1]
               ty == m.S.f[a].ty
           IN  IF ty.p # want.p \/ ty.r # want.r THEN <<0, "sig_mismatch">> ELSE <<a, "">>

PopM(m, n) == [m EXCEPT !.cur.ops = Pop(@, n)]

Ctl(m, i) ==
  LET fr == m.cur
      top == Peek(m, 0)
  IN
  CASE i.k = "block" ->
        [m EXCEPT !.cur.lab = Append(@, [n |-> i.r, pc |-> i.e + 1, h |-> Len(fr.ops) - i.a, lp |-> FALSE]), !.cur.pc = @ + 1]
    [] i.k = "loop" ->
        [m EXCEPT !.cur.lab = Append(@, [n |-> i.a, pc |-> fr.pc + 1, h |-> Len(fr.ops) - i.a, lp |-> TRUE]), !.cur.pc = @ + 1]
    [] i.k = "if" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET l == [n |-> i.r, pc |-> i.e + 1, h |-> Len(fr.ops) - 1 - i.a, lp |-> FALSE]
             IN  IF ~IsZero(top)
                 THEN [m EXCEPT !.cur.ops = Pop(@, 1), !.cur.lab = Append(@, l), !.cur.pc = @ + 1]
                 ELSE IF i.l > 0
                 THEN [m EXCEPT !.cur.ops = Pop(@, 1), !.cur.lab = Append(@, l), !.cur.pc = i.l + 1]
                 ELSE [m EXCEPT !.cur.ops = Pop(@, 1), !.cur.pc = i.e + 1]
    [] i.k = "else" -> [m EXCEPT !.cur.lab = Pop(@, 1), !.cur.pc = i.e + 1]
    [] i.k = "end" -> [m EXCEPT !.cur.lab = Pop(@, 1), !.cur.pc = @ + 1]
    [] i.k = "br" -> Branch(m, i.d)
    [] i.k = "br_if" -> IF ~Known(top) THEN Inc(m)
                        ELSE IF IsZero(top) THEN Rep(m, 1, <<>>) ELSE Branch(PopM(m, 1), i.d)
    [] i.k = "br_table" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET x == Idxv(top)
             IN  Branch(PopM(m, 1), IF x < Len(i.ds) THEN i.ds[x + 1] ELSE i.d)
    [] i.k = "return" -> Return(m, TopN(fr.ops, fr.nr))
    [] i.k = "call" -> Call(m, m.S.i[fr.in].f[i.x + 1])
    [] i.k = "rcall" -> TailCall(m, m.S.i[fr.in].f[i.x + 1])
    [] i.k = "calli" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET r == Resolve(m, i, top) IN IF r[2] # "" THEN Trap(m, r[2]) ELSE Call(PopM(m, 1), r[1])
    [] i.k = "rcalli" ->
        IF ~Known(top) THEN Inc(m)
        ELSE LET r == Resolve(m, i, top) IN IF r[2] # "" THEN Trap(m, r[2]) ELSE TailCall(PopM(m, 1), r[1])
    [] i.k = "unreachable" -> Trap(m, "unreachable")

Var(m, i) ==
  LET top == Peek(m, 0) IN
  CASE i.k = "const" -> Rep(m, 0, <<i.v>>)
    [] i.k = "lget" -> Rep(m, 0, <<m.cur.loc[i.x + 1]>>)
    [] i.k = "lset" -> [Rep(m, 1, <<>>) EXCEPT !.cur.loc[i.x + 1] = top]
    [] i.k = "ltee" -> [Skip(m) EXCEPT !.cur.loc[i.x + 1] = top]
    [] i.k = "gget" -> Rep(m, 0, <<m.S.g[m.S.i[m.cur.in].g[i.x + 1]].v>>)
    [] i.k = "gset" -> [Rep(m, 1, <<>>) EXCEPT !.S.g[m.S.i[m.cur.in].g[i.x + 1]].v = top]
    [] i.k = "drop" -> Rep(m, 1, <<>>)
    [] i.k = "select" -> IF ~Known(top) THEN Inc(m)
                         ELSE Rep(m, 3, <<IF IsZero(top) THEN Peek(m, 1) ELSE Peek(m, 2)>>)
    [] i.k = "nop" -> Skip(m)
    [] i.k = "rnull" -> Rep(m, 0, <<Null>>)
    [] i.k = "risnull" -> Rep(m, 1, <<Bool(top = Null)>>)
    [] i.k = "rfunc" -> Rep(m, 0, <<<<m.S.i[m.cur.in].f[i.x + 1]>>>>)
    [] i.k = "ddrop" -> [Skip(m) EXCEPT !.S.d[m.S.i[m.cur.in].d[i.x + 1]] = <<>>]
    [] i.k = "edrop" -> [Skip(m) EXCEPT !.S.e[m.S.i[m.cur.in].e[i.x + 1]] = <<>>]

Vec(m, i) ==
  LET top == Peek(m, 0)
      x == Peek(m, 1)
  IN
  CASE i.k = "vu" -> Rep(m, 1, <<VUn(i.t, i.f, top)>>)
    [] i.k = "vb" -> Rep(m, 2, <<VBin(i.t, i.f, x, top)>>)
    [] i.k = "vc" -> Rep(m, 1, <<IF Known(top) \/ IsFloatShape(i.t) \/ i.fl THEN VCvt(i.t, i.f, top) ELSE AnyB(16)>>)
    [] i.k = "vc2" -> Rep(m, 2, <<IF Known(top) /\ Known(x) THEN VCvt2(i.t, i.f, x, top) ELSE AnyB(16)>>)
    [] i.k = "vsh" -> Rep(m, 2, <<IF Known(top) /\ Known(x) THEN VShift(i.t, i.f, x, top) ELSE AnyB(16)>>)
    [] i.k = "vsplat" -> Rep(m, 1, <<Splat(Trunc(top, LaneW(i.t)))>>)
    [] i.k = "vext" -> Rep(m, 1, <<LET l == Lane(top, LaneW(i.t), i.l + 1)
                                  IN  CASE i.sx = "s" -> SExt(l, 4) [] i.sx = "u" -> ZExt(l, 4) [] OTHER -> l>>)
    [] i.k = "vrep" -> Rep(m, 2, <<Replace(x, LaneW(i.t), i.l, Trunc(top, LaneW(i.t)))>>)
    [] i.k = "vshuf" -> Rep(m, 2, <<Shuffle(x, top, i.ls)>>)
    [] i.k = "vsel" -> Rep(m, 3, <<BitSelect(Peek(m, 2), x, top)>>)
    [] i.k = "vany" -> Rep(m, 1, <<IF Known(top) THEN Bool(AnyTrue(top)) ELSE <<AnyBy, 0, 0, 0>>>>)
    [] i.k = "vall" -> Rep(m, 1, <<IF Known(top) THEN Bool(AllTrue(top, LaneW(i.t))) ELSE <<AnyBy, 0, 0, 0>>>>)
    [] i.k = "vmask" -> Rep(m, 1, <<IF Known(top) THEN BitMask(top, LaneW(i.t)) ELSE AnyB(4)>>)

\* instruction i is of class i.g: which family interprets it
Exec(m, i) ==
  CASE i.g = "n" -> Num(m, i)
    [] i.g = "v" -> Var(m, i)
    [] i.g = "c" -> Ctl(m, i)
    [] i.g = "m" -> Mem(m, i)
    [] i.g = "t" -> Tab(m, i)
    [] i.g = "s" -> Vec(m, i)

InstrAt(m) == Mod(m, m.cur.mi).code[m.cur.fi].code[m.cur.pc]

\* all outcomes of the next guest instruction
Steps(m) ==
  LET i == InstrAt(m)
      m1 == [m EXCEPT !.n = @ + 1]
  IN  IF m.cur.sk = "must" THEN {}
      ELSE IF i.g = "r"      \* relaxed SIMD: any allowed result
      THEN { Rep(m1, i.n, <<v>>) : v \in Relaxed(i.t, i.f, TopN(m.cur.ops, i.n) \o <<Zero(16)>> \o <<Zero(16)>>) }
      ELSE { Exec(m1, i) }

\* an overflow of a value stack at this point
Overflow(m, why) == IF m.cur.sk = "must" \/ (m.cur.sk = "may" /\ MayOverflow(m)) THEN {Trap(m, why)} ELSE {}

\* up to k deterministic guest instructions at once (careful: not past one that may overflow)
RunDet(m, k, careful) ==
  FoldLeft(LAMBDA a, j : IF a.cur.k # "w" \/ a.cur.sk = "must" \/ (careful /\ a.cur.sk = "may") THEN a
                         ELSE LET i == InstrAt(a) IN IF i.g = "r" THEN a ELSE Exec([a EXCEPT !.n = @ + 1], i),
           m, Idx[k])
=============================================================================
