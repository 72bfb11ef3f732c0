------------------------------- MODULE IntOps -------------------------------
(* WebAssembly integer instructions (scalar; also used per vector lane). *)
EXTENDS Bytes

\* Why a binary integer operation traps: "" when it does not.
IBinTrap(f, a, b) ==
  CASE f = "div_s" -> IF IsZero(b) THEN "div_zero"
                      ELSE IF a = IntMin(Len(a)) /\ b = Ones(Len(a)) THEN "int_overflow" ELSE ""
    [] f \in {"div_u", "rem_s", "rem_u"} -> IF IsZero(b) THEN "div_zero" ELSE ""
    [] OTHER -> ""

DivS(a, b) == LET q == DivRemU(Abs_(a), Abs_(b))[1] IN IF Neg1(a) # Neg1(b) THEN Neg(q) ELSE q
RemS(a, b) == LET r == DivRemU(Abs_(a), Abs_(b))[2] IN IF Neg1(a) THEN Neg(r) ELSE r

IBin(f, a, b) ==
  CASE f = "add" -> Add(a, b)
    [] f = "sub" -> Sub(a, b)
    [] f = "mul" -> Mul(a, b)
    [] f = "and" -> And_(a, b)
    [] f = "or"  -> Or_(a, b)
    [] f = "xor" -> Xor_(a, b)
    [] f = "shl" -> ShlK(a, Count(b, Len(a)))
    [] f = "shr_u" -> ShrUK(a, Count(b, Len(a)))
    [] f = "shr_s" -> ShrSK(a, Count(b, Len(a)))
    [] f = "rotl" -> RotlK(a, Count(b, Len(a)))
    [] f = "rotr" -> RotlK(a, (8*Len(a) - Count(b, Len(a))) % (8*Len(a)))
    [] f = "div_s" -> DivS(a, b)
    [] f = "div_u" -> DivRemU(a, b)[1]
    [] f = "rem_s" -> RemS(a, b)
    [] f = "rem_u" -> DivRemU(a, b)[2]

IRel(f, a, b) ==
  CASE f = "eq" -> a = b
    [] f = "ne" -> a # b
    [] f = "lt_s" -> LtS(a, b)
    [] f = "lt_u" -> LtU(a, b)
    [] f = "gt_s" -> LtS(b, a)
    [] f = "gt_u" -> LtU(b, a)
    [] f = "le_s" -> ~LtS(b, a)
    [] f = "le_u" -> ~LtU(b, a)
    [] f = "ge_s" -> ~LtS(a, b)
    [] f = "ge_u" -> ~LtU(a, b)

IUn(f, a) ==
  CASE f = "clz" -> FromNat(ClzN(a), Len(a))
    [] f = "ctz" -> FromNat(CtzN(a), Len(a))
    [] f = "popcnt" -> FromNat(PopN(a), Len(a))
    [] f = "extend8_s" -> SExt(Trunc(a, 1), Len(a))
    [] f = "extend16_s" -> SExt(Trunc(a, 2), Len(a))
    [] f = "extend32_s" -> SExt(Trunc(a, 4), Len(a))

\* wide arithmetic: operands and results as sequences of i64
Wide(f, x) ==
  LET a == x[1] \o x[2]
      r == CASE f = "add128" -> Add(a, x[3] \o x[4])
             [] f = "sub128" -> Sub(a, x[3] \o x[4])
             [] f = "mul_wide_s" -> MulFullS(x[1], x[2])
             [] f = "mul_wide_u" -> MulFull(x[1], x[2])
  IN  <<SubSeq(r, 1, 8), SubSeq(r, 9, 16)>>
=============================================================================
