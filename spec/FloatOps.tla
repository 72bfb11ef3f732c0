------------------------------ MODULE FloatOps ------------------------------
(***************************************************************************)
(* IEEE 754 binary32/binary64 arithmetic with exact natural-number         *)
(* significands and round-to-nearest-even, as WebAssembly defines it.      *)
(* A float is its bit pattern (a 4- or 8-tuple of bytes).  A finite value  *)
(* is decoded to [s |-> sign, m |-> significand, e |-> exponent], meaning  *)
(* (-1)^s * m * 2^e with m a natural number (a byte tuple of any length).  *)
(***************************************************************************)
EXTENDS IntOps

MantBits(w) == IF w = 4 THEN 23 ELSE 52
ExpMax(w)   == IF w = 4 THEN 255 ELSE 2047
Bias(w)     == IF w = 4 THEN 127 ELSE 1023
EMin(w)     == 1 - Bias(w) - MantBits(w)     \* exponent of the smallest subnormal

TopByte(x) == IF x[Len(x)] = NanTop THEN 127 ELSE x[Len(x)]
SndByte(x) == LET b == x[Len(x)-1] IN IF b = Quiet32 THEN 192 ELSE IF b = Quiet64 THEN 248 ELSE b
FSign(x) == IF TopByte(x) >= 128 THEN 1 ELSE 0
FExp(x) == IF Len(x) = 4 THEN (TopByte(x) % 128) * 2 + SndByte(x) \div 128
           ELSE (TopByte(x) % 128) * 16 + SndByte(x) \div 16
\* the fraction field as bytes
FFrac(x) == IF Len(x) = 4 THEN <<x[1], x[2], SndByte(x) % 128>>
            ELSE <<x[1], x[2], x[3], x[4], x[5], x[6], SndByte(x) % 16>>
FracZero(x) == LET f == FFrac(x) IN \A i \in 1..Len(f) : f[i] = 0

\* A pattern is decodable when it is known, or a marked NaN.
FOk(x) == x[Len(x)] = NanTop \/ Known(x)
IsNaN(x) == FExp(x) = ExpMax(Len(x)) /\ ~FracZero(x)
IsInf(x) == FExp(x) = ExpMax(Len(x)) /\ FracZero(x)
IsFZero(x) == FExp(x) = 0 /\ FracZero(x)
IsFinite(x) == FExp(x) # ExpMax(Len(x))
IsCanonNaN(x) == LET n == Len(x) IN
  /\ \A i \in 1..(n-2) : x[i] = 0
  /\ IF n = 4 THEN x[3] = 192 ELSE x[7] = 248
  /\ x[n] \in {127, 255, NanTop}

\* the NaNs an operation may return
CanonNaN(w) == IF w = 4 THEN <<0, 0, 192, NanTop>> ELSE <<0, 0, 0, 0, 0, 0, 248, NanTop>>
ArithNaN(w) == IF w = 4 THEN <<AnyBy, AnyBy, Quiet32, NanTop>> ELSE <<AnyBy, AnyBy, AnyBy, AnyBy, AnyBy, AnyBy, Quiet64, NanTop>>
\* xs: the operands; canonical when every NaN operand is canonical
NaNOf(w, xs) == IF \A i \in 1..Len(xs) : IsNaN(xs[i]) => IsCanonNaN(xs[i]) THEN CanonNaN(w) ELSE ArithNaN(w)

\* assemble sign, biased exponent, fraction bytes (4 or 7/8 bytes, top bits clear)
Assemble(w, s, ex, fr) ==
  IF w = 4 THEN <<fr[1], fr[2], (fr[3] % 128) + 128 * (ex % 2), ex \div 2 + 128 * s>>
  ELSE <<fr[1], fr[2], fr[3], fr[4], fr[5], fr[6], (fr[7] % 16) + 16 * (ex % 16), ex \div 16 + 128 * s>>
FInf(w, s) == Assemble(w, s, ExpMax(w), Zero(8))
FZero(w, s) == Assemble(w, s, 0, Zero(8))
FMaxFinite(w, s) == Assemble(w, s, ExpMax(w) - 1, Ones(8))

\* finite x as sign, natural significand, exponent
Decode(x) ==
  LET w == Len(x)
      ex == FExp(x)
      fr == FFrac(x)
  IN  IF ex = 0 THEN [s |-> FSign(x), m |-> fr \o <<0>>, e |-> EMin(w)]
      ELSE [s |-> FSign(x),
            m |-> (IF w = 4 THEN <<fr[1], fr[2], fr[3] + 128>>
                   ELSE <<fr[1], fr[2], fr[3], fr[4], fr[5], fr[6], fr[7] + 16>>) \o <<0>>,
            e |-> ex + EMin(w) - 1]

-----------------------------------------------------------------------------
(* natural numbers as byte tuples of arbitrary length *)
NShl(m, k) == LET n == Len(m) + (k + 7) \div 8 IN ShlK(ZExt(m, n), k)
\* the bits below position k are not all zero
RECURSIVE LowBits(_,_,_)
LowBits(m, k, i) == IF i > Len(m) \/ 8*(i-1) >= k THEN FALSE
                    ELSE IF 8*i <= k THEN m[i] # 0 \/ LowBits(m, k, i+1)
                    ELSE m[i] % Pow2[k - 8*(i-1)] # 0
NShr(m, k) == IF k >= 8 * Len(m) THEN <<0>>
              ELSE LET q == k \div 8 IN
                   ShrUK(SubSeq(m, q+1, Len(m)), k % 8)
Odd(m) == m[1] % 2 = 1
NAddN(a, b) == LET n == BMax(Len(a), Len(b)) + 1 IN AddR(ZExt(a, n), ZExt(b, n), 0)
NSubN(a, b) == LET n == BMax(Len(a), Len(b)) IN AddR(ZExt(a, n), Not_(ZExt(b, n)), 1)
NCmp(a, b) == LET n == BMax(Len(a), Len(b)) IN CmpU(ZExt(a, n), ZExt(b, n))

\* Round (-1)^s * (m + (a nonzero fraction iff sticky)) * 2^e to width w, ties to even.
Round(w, s, m, e, sticky) ==
  LET p  == MantBits(w) + 1
      bl == BitLen(m)
  IN IF bl = 0 /\ ~sticky THEN FZero(w, s)
     ELSE
     LET \* exponent of the result's last place
         le == BMax(e + bl - p, EMin(w))
         sh == le - e
         \* significand truncated at le, and the discarded part
         t  == IF sh > 0 THEN NShr(m, sh) ELSE NShl(m, -sh)
         half == sh > 0 /\ sh <= 8 * Len(m) /\ Bit(m, sh - 1) = 1
         rest == sticky \/ (sh > 1 /\ LowBits(m, sh - 1, 1))
         up == half /\ (rest \/ Odd(t))
         r  == ZExt(IF up THEN NAddN(t, <<1>>) ELSE t, 9)
         \* a carry out of the significand moves to the next binade
         rb == BitLen(r)
         ex == le - EMin(w) + 1
     IN IF rb > p
        THEN IF ex + 1 >= ExpMax(w) THEN FInf(w, s) ELSE Assemble(w, s, ex + 1, Zero(8))
        ELSE IF rb < p THEN Assemble(w, s, 0, r)       \* subnormal or zero: le = EMin
        ELSE IF ex >= ExpMax(w) THEN FInf(w, s)
        ELSE Assemble(w, s, ex, r)
\* (sticky is only passed with BitLen(m) > p + 1, so it never decides a tie alone)

-----------------------------------------------------------------------------
(* arithmetic on finite values *)
\* exact sum of two decoded values, in width w.  When the exponents are very far
\* apart the smaller operand only matters as a sticky bit.
AddFin(w, x, y) ==
  LET hi == IF x.e >= y.e THEN x ELSE y
      lo == IF x.e >= y.e THEN y ELSE x
      d  == hi.e - lo.e
      far == BitLen(hi.m) > 0 /\ d > 200
      \* far: replace lo by a tiny value of the same sign
      l2 == IF far THEN [s |-> lo.s, m |-> IF IsZero(lo.m) THEN <<0>> ELSE <<1>>, e |-> hi.e - 200] ELSE lo
      d2 == hi.e - l2.e
      hm == IF BitLen(hi.m) = 0 THEN <<0>> ELSE NShl(hi.m, d2)
  IN IF hi.s = lo.s THEN Round(w, hi.s, NAddN(hm, l2.m), l2.e, FALSE)
     ELSE LET c == NCmp(hm, l2.m)
          IN  IF c = 0 THEN FZero(w, 0)
              ELSE IF c > 0 THEN Round(w, hi.s, NSubN(hm, l2.m), l2.e, FALSE)
              ELSE Round(w, lo.s, NSubN(l2.m, hm), l2.e, FALSE)
MulDec(x, y) == [s |-> (x.s + y.s) % 2, m |-> MulFull(x.m, y.m), e |-> x.e + y.e]

FNeg(x) == [x EXCEPT ![Len(x)] = IF @ < 0 THEN @ ELSE (@ + 128) % 256]
FAbs(x) == [x EXCEPT ![Len(x)] = IF @ = NanTop THEN 127 ELSE IF @ < 0 THEN @ ELSE @ % 128]
FCopysign(x, y) ==
  LET n == Len(x)
      t == x[n]
      u == y[n]
  IN  IF u < 0 THEN IF t \in {127, 255, NanTop} THEN [x EXCEPT ![n] = NanTop] ELSE [x EXCEPT ![n] = AnyBy]
      ELSE IF t = AnyBy THEN x
      ELSE [x EXCEPT ![n] = ((IF t = NanTop THEN 127 ELSE t) % 128) + 128 * (u \div 128)]

FAdd(x, y) ==
  LET w == Len(x) IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(w, <<x, y>>)
  ELSE IF IsInf(x) THEN IF IsInf(y) /\ FSign(x) # FSign(y) THEN CanonNaN(w) ELSE x
  ELSE IF IsInf(y) THEN y
  ELSE IF IsFZero(x) /\ IsFZero(y) THEN FZero(w, IF FSign(x) = 1 /\ FSign(y) = 1 THEN 1 ELSE 0)
  ELSE IF IsFZero(x) THEN y
  ELSE IF IsFZero(y) THEN x
  ELSE AddFin(w, Decode(x), Decode(y))
FSub(x, y) == IF IsNaN(y) THEN NaNOf(Len(x), <<x, y>>) ELSE FAdd(x, FNeg(y))
FMul(x, y) ==
  LET w == Len(x)
      s == (FSign(x) + FSign(y)) % 2
  IN IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(w, <<x, y>>)
     ELSE IF IsInf(x) \/ IsInf(y)
          THEN IF IsFZero(x) \/ IsFZero(y) THEN CanonNaN(w) ELSE FInf(w, s)
     ELSE IF IsFZero(x) \/ IsFZero(y) THEN FZero(w, s)
     ELSE LET p == MulDec(Decode(x), Decode(y)) IN Round(w, s, p.m, p.e, FALSE)
FDiv(x, y) ==
  LET w == Len(x)
      s == (FSign(x) + FSign(y)) % 2
  IN IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(w, <<x, y>>)
     ELSE IF IsInf(x) THEN IF IsInf(y) THEN CanonNaN(w) ELSE FInf(w, s)
     ELSE IF IsInf(y) THEN FZero(w, s)
     ELSE IF IsFZero(y) THEN IF IsFZero(x) THEN CanonNaN(w) ELSE FInf(w, s)
     ELSE IF IsFZero(x) THEN FZero(w, s)
     ELSE LET a == Decode(x)
              b == Decode(y)
              \* scale so that the quotient has at least p + 2 bits
              k == BMax(MantBits(w) + 3 + BitLen(b.m) - BitLen(a.m), 0)
              n == NShl(a.m, k)
              L == BMax(Len(n), Len(b.m))
              d == DivRemU(ZExt(n, L), ZExt(b.m, L))
          IN  Round(w, s, d[1], a.e - b.e - k, ~IsZero(d[2]))

\* floor(sqrt(m)) by Newton's iteration from above
RECURSIVE SqrtR(_,_)
SqrtR(m, r) ==
  LET t == ShrUK(NAddN(DivRemU(m, r)[1], r), 1)
      t2 == ZExt(t, Len(m))
  IN  IF CmpU(t2, r) >= 0 THEN r ELSE SqrtR(m, t2)
NSqrt(m) ==      \* start: (isqrt(top bits) + 1) * 2^k
  LET bl == BitLen(m)
      k == IF bl <= 28 THEN 0 ELSE (bl - 27) \div 2
      top == ToNat(ZExt(NShr(m, 2*k), 8))
      root == CHOOSE i \in {FoldLeft(LAMBDA a, j : LET c == a + Pow2[14-j+1] IN IF c*c <= top THEN c ELSE a, 0, Idx[15])} : TRUE
  IN  SqrtR(m, ZExt(NShl(FromNat(root + 1, 2), k), Len(m)))
FSqrt(x) ==
  LET w == Len(x) IN
  IF IsNaN(x) THEN NaNOf(w, <<x>>)
  ELSE IF IsFZero(x) THEN x
  ELSE IF FSign(x) = 1 THEN CanonNaN(w)
  ELSE IF IsInf(x) THEN x
  ELSE LET a == Decode(x)
           p == MantBits(w) + 3
           \* make the exponent even and the significand at least 2p bits
           k0 == BMax(2 * p - BitLen(a.m), 0)
           k == IF (a.e - k0) % 2 = 0 THEN k0 ELSE k0 + 1
           m == NShl(a.m, k)
           r == NSqrt(m)
           q == MulFull(r, r)
       IN  Round(w, 0, r, (a.e - k) \div 2, NCmp(q, m) # 0)

\* x * y + z with a single rounding, and its negated form
FFma(x, y, z) ==
  LET w == Len(x)
      ps == (FSign(x) + FSign(y)) % 2
  IN IF IsNaN(x) \/ IsNaN(y) \/ IsNaN(z) THEN NaNOf(w, <<x, y, z>>)
     ELSE IF IsInf(x) \/ IsInf(y)
          THEN IF IsFZero(x) \/ IsFZero(y) THEN CanonNaN(w)
               ELSE IF IsInf(z) /\ FSign(z) # ps THEN CanonNaN(w) ELSE FInf(w, ps)
     ELSE IF IsInf(z) THEN z
     ELSE IF IsFZero(x) \/ IsFZero(y)
          THEN IF IsFZero(z) THEN FZero(w, IF ps = 1 /\ FSign(z) = 1 THEN 1 ELSE 0) ELSE z
     ELSE LET p == MulDec(Decode(x), Decode(y)) IN
          IF IsFZero(z) THEN Round(w, ps, p.m, p.e, FALSE) ELSE AddFin(w, p, Decode(z))

-----------------------------------------------------------------------------
(* comparison *)
FLess(x, y) ==     \* neither is NaN
  IF IsFZero(x) /\ IsFZero(y) THEN FALSE
  ELSE IF FSign(x) # FSign(y) THEN FSign(x) = 1
  ELSE IF FSign(x) = 0 THEN CmpU(x, y) < 0 ELSE CmpU(x, y) > 0
FEq(x, y) == x = y \/ (IsFZero(x) /\ IsFZero(y))
FRel(f, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN f = "ne"
  ELSE CASE f = "eq" -> FEq(x, y)
         [] f = "ne" -> ~FEq(x, y)
         [] f = "lt" -> FLess(x, y)
         [] f = "gt" -> FLess(y, x)
         [] f = "le" -> FLess(x, y) \/ FEq(x, y)
         [] f = "ge" -> FLess(y, x) \/ FEq(x, y)
FMin(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(Len(x), <<x, y>>)
              ELSE IF FEq(x, y) THEN IF FSign(x) = 1 THEN x ELSE y
              ELSE IF FLess(x, y) THEN x ELSE y
FMax(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaNOf(Len(x), <<x, y>>)
              ELSE IF FEq(x, y) THEN IF FSign(x) = 0 THEN x ELSE y
              ELSE IF FLess(x, y) THEN y ELSE x
FPMin(x, y) == IF ~IsNaN(x) /\ ~IsNaN(y) /\ FLess(y, x) THEN y ELSE x
FPMax(x, y) == IF ~IsNaN(x) /\ ~IsNaN(y) /\ FLess(x, y) THEN y ELSE x

-----------------------------------------------------------------------------
(* rounding to an integral float *)
\* the integer part of |x| under the given mode, as a natural number
IntPart(d, mode) ==      \* d decoded with d.e < 0
  LET k == -d.e
      t == NShr(d.m, k)
      half == k <= 8 * Len(d.m) /\ Bit(d.m, k-1) = 1
      rest == LowBits(d.m, k-1, 1)
      inexact == half \/ rest
      up == CASE mode = "trunc" -> FALSE
              [] mode = "floor" -> d.s = 1 /\ inexact
              [] mode = "ceil" -> d.s = 0 /\ inexact
              [] mode = "nearest" -> half /\ (rest \/ Odd(t))
  IN  IF up THEN NAddN(t, <<1>>) ELSE t
FRoundInt(x, mode) ==
  LET w == Len(x) IN
  IF IsNaN(x) THEN NaNOf(w, <<x>>)
  ELSE IF IsInf(x) \/ IsFZero(x) THEN x
  ELSE LET d == Decode(x) IN IF d.e >= 0 THEN x ELSE Round(w, d.s, IntPart(d, mode), 0, FALSE)

FUn(f, x) ==
  CASE f = "abs" -> FAbs(x)
    [] f = "neg" -> FNeg(x)
    [] f = "sqrt" -> FSqrt(x)
    [] f \in {"ceil", "floor", "trunc", "nearest"} -> FRoundInt(x, f)
FBin(f, x, y) ==
  CASE f = "add" -> FAdd(x, y)
    [] f = "sub" -> FSub(x, y)
    [] f = "mul" -> FMul(x, y)
    [] f = "div" -> FDiv(x, y)
    [] f = "min" -> FMin(x, y)
    [] f = "max" -> FMax(x, y)
    [] f = "copysign" -> FCopysign(x, y)
    [] f = "pmin" -> FPMin(x, y)
    [] f = "pmax" -> FPMax(x, y)

-----------------------------------------------------------------------------
(* conversions *)
Promote(x) == IF IsNaN(x) THEN NaNOf(8, <<x>>)
              ELSE IF IsInf(x) THEN FInf(8, FSign(x))
              ELSE LET d == Decode(x) IN Round(8, d.s, d.m, d.e, FALSE)
Demote(x) == IF IsNaN(x) THEN NaNOf(4, <<x>>)
             ELSE IF IsInf(x) THEN FInf(4, FSign(x))
             ELSE LET d == Decode(x) IN Round(4, d.s, d.m, d.e, FALSE)
FromIntU(a, w) == Round(w, 0, a, 0, FALSE)
FromIntS(a, w) == IF Neg1(a) THEN Round(w, 1, Neg(a), 0, FALSE) ELSE Round(w, 0, a, 0, FALSE)
\* integer part of finite x as natural number, and whether it fits n bytes
TruncMag(x) == LET d == Decode(x) IN IF d.e >= 0 THEN NShl(d.m, IF d.e > 200 THEN 200 ELSE d.e) ELSE NShr(d.m, -d.e)
FitsU(x, n) == LET m == TruncMag(x) IN BitLen(m) = 0 \/ (FSign(x) = 0 /\ BitLen(m) <= 8*n)
FitsS(x, n) == LET m == TruncMag(x) IN
               \/ BitLen(m) <= 8*n - 1
               \/ FSign(x) = 1 /\ BitLen(m) = 8*n /\ CtzN(m) = 8*n - 1
ToIntTrap(x, n, signed) ==
  IF IsNaN(x) THEN "bad_conversion"
  ELSE IF IsInf(x) THEN "int_overflow"
  ELSE IF (signed /\ FitsS(x, n)) \/ (~signed /\ FitsU(x, n)) THEN "" ELSE "int_overflow"
ToInt(x, n) == LET m == ZExt(TruncMag(x), n) IN IF FSign(x) = 1 THEN Neg(m) ELSE m
ToIntSat(x, n, signed) ==
  IF IsNaN(x) THEN Zero(n)
  ELSE IF IsInf(x) \/ (signed /\ ~FitsS(x, n)) \/ (~signed /\ ~FitsU(x, n))
       THEN IF signed THEN (IF FSign(x) = 1 THEN IntMin(n) ELSE IntMax(n))
            ELSE IF FSign(x) = 1 THEN Zero(n) ELSE Ones(n)
  ELSE ToInt(x, n)
=============================================================================
