------------------------------ MODULE SimdOps ------------------------------
(* WebAssembly 128-bit vector instructions, lane by lane. A v128 is a 16-tuple of bytes. *)
EXTENDS FloatOps

Lane(v, w, i) == SubSeq(v, (i-1)*w + 1, i*w)
Lanes(v, w) == Tup([i \in 1..(Len(v) \div w) |-> Lane(v, w, i)])
\* concatenate lanes of equal width
Flat(ls) == LET w == Len(ls[1])
            IN  Tup([j \in 1..(Len(ls)*w) |-> ls[((j-1) \div w) + 1][((j-1) % w) + 1]])
Map1(f(_), v, w) == Flat(Tup([i \in 1..(16 \div w) |-> f(Lane(v, w, i))]))
Map2(f(_,_), a, b, w) == Flat(Tup([i \in 1..(16 \div w) |-> f(Lane(a, w, i), Lane(b, w, i))]))

IsFloatShape(t) == t \in {"f32x4", "f64x2"}
LaneW(t) == CASE t = "i8x16" -> 1 [] t = "i16x8" -> 2 [] t \in {"i32x4", "f32x4"} -> 4 [] OTHER -> 8

Mask(b, w) == IF b THEN Ones(w) ELSE Zero(w)
MinS(a, b) == IF LtS(a, b) THEN a ELSE b
MaxS(a, b) == IF LtS(a, b) THEN b ELSE a
MinU(a, b) == IF LtU(a, b) THEN a ELSE b
MaxU(a, b) == IF LtU(a, b) THEN b ELSE a

\* saturate a wide two's-complement number to w bytes
SatS(x, w) == LET n == Len(x) IN
  IF LtS(x, SExt(IntMin(w), n)) THEN IntMin(w)
  ELSE IF LtS(SExt(IntMax(w), n), x) THEN IntMax(w) ELSE Trunc(x, w)
SatU(x, w) == LET n == Len(x) IN
  IF Neg1(x) THEN Zero(w) ELSE IF LtS(ZExt(Ones(w), n), x) THEN Ones(w) ELSE Trunc(x, w)

IntLane2(f, a, b) ==
  LET w == Len(a) IN
  CASE f \in {"add", "sub", "mul"} -> IBin(f, a, b)
    [] f \in {"eq", "ne", "lt_s", "lt_u", "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u"} -> Mask(IRel(f, a, b), w)
    [] f = "add_sat_s" -> SatS(Add(SExt(a, w+1), SExt(b, w+1)), w)
    [] f = "add_sat_u" -> SatU(Add(ZExt(a, w+2), ZExt(b, w+2)), w)
    [] f = "sub_sat_s" -> SatS(Sub(SExt(a, w+1), SExt(b, w+1)), w)
    [] f = "sub_sat_u" -> SatU(Sub(ZExt(a, w+2), ZExt(b, w+2)), w)
    [] f = "min_s" -> MinS(a, b)
    [] f = "min_u" -> MinU(a, b)
    [] f = "max_s" -> MaxS(a, b)
    [] f = "max_u" -> MaxU(a, b)
    [] f = "avgr_u" -> Trunc(ShrUK(AddC(ZExt(a, w+1), ZExt(b, w+1), 1), 1), w)
    \* (a*b + 2^14) >> 15, saturated; only -2^15 * -2^15 saturates
    [] f = "q15mulr_sat_s" ->
        SatS(ShrSK(Add(SExt(MulFullS(a, b), 5), <<0, 64, 0, 0, 0>>), 15), 2)

IntLane1(f, a) ==
  CASE f = "abs" -> Abs_(a)
    [] f = "neg" -> Neg(a)
    [] f = "popcnt" -> FromNat(PopN(a), Len(a))

FloatLane2(f, a, b) ==
  IF f \in {"eq", "ne", "lt", "gt", "le", "ge"} THEN Mask(FRel(f, a, b), Len(a)) ELSE FBin(f, a, b)

\* lanes holding unknown bytes give unknown lanes
ILift1(f, a) == IF Known(a) THEN IntLane1(f, a) ELSE AnyB(Len(a))
ILift2(f, a, b) == IF Known(a) /\ Known(b) THEN IntLane2(f, a, b) ELSE AnyB(Len(a))
FLift1(f, a) == IF f \in {"neg", "abs"} \/ FOk(a) THEN FUn(f, a) ELSE AnyB(Len(a))
FLift2(f, a, b) == IF FOk(a) /\ FOk(b) THEN FloatLane2(f, a, b) ELSE AnyB(Len(a))

VUn(t, f, v) ==
  IF t = "v128" THEN NotU(v)
  ELSE IF IsFloatShape(t) THEN Map1(LAMBDA x : FLift1(f, x), v, LaneW(t))
  ELSE Map1(LAMBDA x : ILift1(f, x), v, LaneW(t))

BitSelect(a, b, c) == Or_(And_(a, c), And_(b, NotU(c)))

VBin(t, f, a, b) ==
  IF t = "v128"
  THEN CASE f = "and" -> And_(a, b)
         [] f = "or" -> Or_(a, b)
         [] f = "xor" -> Xor_(a, b)
         [] f = "andnot" -> And_(a, NotU(b))
  ELSE IF f = "swizzle"
  THEN Tup([i \in 1..16 |-> IF b[i] < 0 THEN AnyBy ELSE IF b[i] < 16 THEN a[b[i] + 1] ELSE 0])
  ELSE IF IsFloatShape(t) THEN Map2(LAMBDA x, y : FLift2(f, x, y), a, b, LaneW(t))
  ELSE Map2(LAMBDA x, y : ILift2(f, x, y), a, b, LaneW(t))

Shuffle(a, b, ls) == Tup([i \in 1..16 |-> IF ls[i] < 16 THEN a[ls[i] + 1] ELSE b[ls[i] - 15]])
Splat(x) == Tup([i \in 1..16 |-> x[((i-1) % Len(x)) + 1]])
VShift(t, f, v, c) == LET w == LaneW(t) IN Map1(LAMBDA x : IBin(f, x, c), v, w)
Replace(v, w, i, x) == Tup([j \in 1..16 |-> IF j > i*w /\ j <= (i+1)*w THEN x[j - i*w] ELSE v[j]])
AnyTrue(v) == ~IsZero(v)
AllTrue(v, w) == \A i \in 1..(16 \div w) : ~IsZero(Lane(v, w, i))
BitMask(v, w) == LET n == 16 \div w
                     bits == Tup([i \in 1..n |-> IF Neg1(Lane(v, w, i)) THEN 1 ELSE 0])
                 IN  FromNat(FoldLeft(LAMBDA s, i : s + bits[i] * Pow2[i-1], 0, Tup([i \in 1..n |-> i])), 4)

\* extension of a lane of width w to 2w
Ext(sx, x) == IF sx = "s" THEN SExt(x, 2 * Len(x)) ELSE ZExt(x, 2 * Len(x))
\* half = 0: low lanes, 1: high lanes
ExtendHalf(sx, half, v, w) == LET n == 8 \div w IN Flat(Tup([i \in 1..n |-> Ext(sx, Lane(v, w, i + half*n))]))
ExtMul(sx, half, a, b, w) ==
  LET n == 8 \div w
  IN  Flat(Tup([i \in 1..n |-> Mul(Ext(sx, Lane(a, w, i + half*n)), Ext(sx, Lane(b, w, i + half*n)))]))
ExtAddPairwise(sx, v, w) ==
  Flat(Tup([i \in 1..(8 \div w) |-> Add(Ext(sx, Lane(v, w, 2*i-1)), Ext(sx, Lane(v, w, 2*i)))]))
Narrow(sx, a, b, w) ==     \* w: width of the source lanes
  LET one(x) == IF sx = "s" THEN SatS(x, w \div 2) ELSE SatU(x, w \div 2)
      n == 16 \div w
  IN  Flat(Tup([i \in 1..(2*n) |-> one(IF i <= n THEN Lane(a, w, i) ELSE Lane(b, w, i - n))]))
Dot(a, b) == Flat(Tup([i \in 1..4 |-> Add(MulFullS(Lane(a, 2, 2*i-1), Lane(b, 2, 2*i-1)),
                                      MulFullS(Lane(a, 2, 2*i), Lane(b, 2, 2*i)))]))

\* conversions; unknown lanes convert to unknown lanes
LK(x, y, w) == IF Known(x) THEN y ELSE AnyB(w)
FK(x, y, w) == IF FOk(x) THEN y ELSE AnyB(w)
VCvt(t, f, v) ==
  LET l4(i) == Lane(v, 4, i)
      l8(i) == Lane(v, 8, i)
  IN
  CASE t = "i32x4" /\ f \in {"trunc_sat_f32x4_s", "trunc_sat_f32x4_u"} ->
        Flat(Tup([i \in 1..4 |-> FK(l4(i), ToIntSat(l4(i), 4, f = "trunc_sat_f32x4_s"), 4)]))
    [] t = "i32x4" /\ f \in {"trunc_sat_f64x2_s_zero", "trunc_sat_f64x2_u_zero"} ->
        Flat(Tup([i \in 1..4 |-> IF i > 2 THEN Zero(4) ELSE FK(l8(i), ToIntSat(l8(i), 4, f = "trunc_sat_f64x2_s_zero"), 4)]))
    [] t = "f32x4" /\ f = "convert_i32x4_s" -> Flat(Tup([i \in 1..4 |-> LK(l4(i), FromIntS(l4(i), 4), 4)]))
    [] t = "f32x4" /\ f = "convert_i32x4_u" -> Flat(Tup([i \in 1..4 |-> LK(l4(i), FromIntU(l4(i), 4), 4)]))
    [] t = "f64x2" /\ f = "convert_low_i32x4_s" -> Flat(Tup([i \in 1..2 |-> LK(l4(i), FromIntS(l4(i), 8), 8)]))
    [] t = "f64x2" /\ f = "convert_low_i32x4_u" -> Flat(Tup([i \in 1..2 |-> LK(l4(i), FromIntU(l4(i), 8), 8)]))
    [] t = "f32x4" /\ f = "demote_f64x2_zero" -> Flat(Tup([i \in 1..4 |-> IF i > 2 THEN Zero(4) ELSE FK(l8(i), Demote(l8(i)), 4)]))
    [] t = "f64x2" /\ f = "promote_low_f32x4" -> Flat(Tup([i \in 1..2 |-> FK(l4(i), Promote(l4(i)), 8)]))
    [] t = "i16x8" /\ f = "extadd_pairwise_i8x16_s" -> ExtAddPairwise("s", v, 1)
    [] t = "i16x8" /\ f = "extadd_pairwise_i8x16_u" -> ExtAddPairwise("u", v, 1)
    [] t = "i32x4" /\ f = "extadd_pairwise_i16x8_s" -> ExtAddPairwise("s", v, 2)
    [] t = "i32x4" /\ f = "extadd_pairwise_i16x8_u" -> ExtAddPairwise("u", v, 2)
    [] f \in {"extend_low_i8x16_s", "extend_low_i16x8_s", "extend_low_i32x4_s"} -> ExtendHalf("s", 0, v, LaneW(t) \div 2)
    [] f \in {"extend_low_i8x16_u", "extend_low_i16x8_u", "extend_low_i32x4_u"} -> ExtendHalf("u", 0, v, LaneW(t) \div 2)
    [] f \in {"extend_high_i8x16_s", "extend_high_i16x8_s", "extend_high_i32x4_s"} -> ExtendHalf("s", 1, v, LaneW(t) \div 2)
    [] f \in {"extend_high_i8x16_u", "extend_high_i16x8_u", "extend_high_i32x4_u"} -> ExtendHalf("u", 1, v, LaneW(t) \div 2)
VCvt2(t, f, a, b) ==
  CASE f \in {"narrow_i16x8_s", "narrow_i32x4_s"} -> Narrow("s", a, b, 2 * LaneW(t))
    [] f \in {"narrow_i16x8_u", "narrow_i32x4_u"} -> Narrow("u", a, b, 2 * LaneW(t))
    [] f \in {"extmul_low_i8x16_s", "extmul_low_i16x8_s", "extmul_low_i32x4_s"} -> ExtMul("s", 0, a, b, LaneW(t) \div 2)
    [] f \in {"extmul_low_i8x16_u", "extmul_low_i16x8_u", "extmul_low_i32x4_u"} -> ExtMul("u", 0, a, b, LaneW(t) \div 2)
    [] f \in {"extmul_high_i8x16_s", "extmul_high_i16x8_s", "extmul_high_i32x4_s"} -> ExtMul("s", 1, a, b, LaneW(t) \div 2)
    [] f \in {"extmul_high_i8x16_u", "extmul_high_i16x8_u", "extmul_high_i32x4_u"} -> ExtMul("u", 1, a, b, LaneW(t) \div 2)
    [] f = "dot_i16x8_s" -> Dot(a, b)

-----------------------------------------------------------------------------
(***************************************************************************)
(* Relaxed SIMD: the set of allowed results.  Each operation makes one     *)
(* choice for all lanes, as the specification's environment parameters do. *)
(***************************************************************************)
RTrunc(x, signed, n, alt) ==
  IF alt /\ (IsNaN(x) \/ ToIntTrap(x, n, signed) # "")
  THEN IF signed THEN IntMin(n) ELSE Ones(n)
  ELSE ToIntSat(x, n, signed)
RelMin(k, x, y) == CASE k = 1 -> FMin(x, y)
                     [] k = 2 -> IF ~IsNaN(x) /\ ~IsNaN(y) /\ FLess(x, y) THEN x ELSE y
                     [] k = 3 -> FPMin(x, y)
                     [] k = 4 -> IF IsNaN(x) THEN y ELSE IF IsNaN(y) THEN x ELSE FMin(x, y)
RelMax(k, x, y) == CASE k = 1 -> FMax(x, y)
                     [] k = 2 -> IF ~IsNaN(x) /\ ~IsNaN(y) /\ FLess(y, x) THEN x ELSE y
                     [] k = 3 -> FPMax(x, y)
                     [] k = 4 -> IF IsNaN(x) THEN y ELSE IF IsNaN(y) THEN x ELSE FMax(x, y)
Madd(fused, neg, x, y, z) ==
  LET a == IF neg THEN FNeg(x) ELSE x
  IN  IF ~(FOk(x) /\ FOk(y) /\ FOk(z)) THEN AnyB(Len(x))
      ELSE IF fused THEN FFma(a, y, z) ELSE FAdd(FMul(a, y), z)
\* b's lanes read as signed or (when their top bit is set) unsigned
DotPair(uns, a, b, i) == Mul(SExt(Lane(a, 1, i), 4), IF uns THEN ZExt(Lane(b, 1, i), 4) ELSE SExt(Lane(b, 1, i), 4))
RDot(uns, sat, a, b) ==
  Flat(Tup([i \in 1..8 |-> LET s == Add(DotPair(uns, a, b, 2*i-1), DotPair(uns, a, b, 2*i))
                       IN  IF sat THEN SatS(s, 2) ELSE Trunc(s, 2)]))
Relaxed(t, f, x) ==
  LET a == x[1]
      b == x[2]
      c == x[3]
      w == LaneW(t)
  IN
  CASE f = "relaxed_swizzle" ->
        { Tup([i \in 1..16 |-> IF b[i] < 0 THEN AnyBy ELSE IF b[i] < 16 THEN a[b[i] + 1]
                           ELSE IF b[i] >= 128 \/ ~alt THEN 0 ELSE a[(b[i] % 16) + 1]]) : alt \in BOOLEAN }
    [] f \in {"relaxed_trunc_f32x4_s", "relaxed_trunc_f32x4_u"} ->
        { Map1(LAMBDA l : FK(l, RTrunc(l, f = "relaxed_trunc_f32x4_s", 4, alt), 4), a, 4) : alt \in BOOLEAN }
    [] f \in {"relaxed_trunc_f64x2_s_zero", "relaxed_trunc_f64x2_u_zero"} ->
        { Flat(Tup([i \in 1..4 |-> IF i > 2 THEN Zero(4)
                 ELSE FK(Lane(a, 8, i), RTrunc(Lane(a, 8, i), f = "relaxed_trunc_f64x2_s_zero", 4, alt), 4)])) : alt \in BOOLEAN }
    [] f \in {"relaxed_madd", "relaxed_nmadd"} ->
        { Flat(Tup([i \in 1..(16 \div w) |-> Madd(fused, f = "relaxed_nmadd", Lane(a, w, i), Lane(b, w, i), Lane(c, w, i))]))
            : fused \in BOOLEAN }
    [] f = "relaxed_laneselect" ->
        { BitSelect(a, b, c),
          Flat(Tup([i \in 1..(16 \div w) |-> IF ~Known(Lane(c, w, i)) THEN AnyB(w)
                 ELSE IF Neg1(Lane(c, w, i)) THEN Lane(a, w, i) ELSE Lane(b, w, i)])) }
    [] f = "relaxed_min" -> { Map2(LAMBDA p, q : IF FOk(p) /\ FOk(q) THEN RelMin(k, p, q) ELSE AnyB(w), a, b, w) : k \in 1..4 }
    [] f = "relaxed_max" -> { Map2(LAMBDA p, q : IF FOk(p) /\ FOk(q) THEN RelMax(k, p, q) ELSE AnyB(w), a, b, w) : k \in 1..4 }
    [] f = "relaxed_q15mulr_s" ->
        { Map2(LAMBDA p, q : IF ~(Known(p) /\ Known(q)) THEN AnyB(2)
                 ELSE IF wrap /\ p = IntMin(2) /\ q = IntMin(2) THEN IntMin(2) ELSE IntLane2("q15mulr_sat_s", p, q), a, b, 2)
            : wrap \in BOOLEAN }
    [] f = "relaxed_dot_i8x16_i7x16_s" ->
        IF Known(a) /\ Known(b) THEN { RDot(u, s, a, b) : u \in BOOLEAN, s \in BOOLEAN } ELSE { AnyB(16) }
    [] f = "relaxed_dot_i8x16_i7x16_add_s" ->
        IF Known(a) /\ Known(b) /\ Known(c)
        THEN { LET d == RDot(u, s, a, b)
               IN Flat(Tup([i \in 1..4 |-> Add(Lane(c, 4, i), Add(SExt(Lane(d, 2, 2*i-1), 4), SExt(Lane(d, 2, 2*i), 4)))]))
               : u \in BOOLEAN, s \in BOOLEAN }
        ELSE { AnyB(16) }
=============================================================================
