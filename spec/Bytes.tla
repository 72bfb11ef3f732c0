------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Machine numbers as little-endian tuples of bytes, and the two's         *)
(* complement arithmetic WebAssembly defines on them.                      *)
(*                                                                         *)
(* An i8 lane is a 1-tuple, i16 a 2-tuple, i32/f32 a 4-tuple, i64/f64 an   *)
(* 8-tuple, v128 a 16-tuple.  The width is always Len(a), so one operator  *)
(* serves scalars and vector lanes of every width.                         *)
(*                                                                         *)
(* A byte may also be one of the negative marks in ByteMatches: the        *)
(* "unknown" bytes of a NaN whose payload WebAssembly leaves open.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

\* TLC evaluates function constructors lazily; concatenation makes a tuple of it now.
Tup(f) == f \o <<>>

AnyBy   == -1      \* any byte
Quiet32 == -2    \* byte 3 of an arithmetic f32 NaN: 16rC0..16rFF
NanTop == -3     \* top byte of a NaN of either sign: 16r7F or 16rFF
Quiet64 == -4    \* byte 7 of an arithmetic f64 NaN: 16rF8..16rFF

\* Does the observed byte o agree with the specified byte s?
ByteMatches(s, o) ==
  \/ s = o
  \/ s < 0 /\ \/ s = AnyBy
              \/ s = Quiet32 /\ o >= 192
              \/ s = NanTop /\ (o = 127 \/ o = 255)
              \/ s = Quiet64 /\ o >= 248

Match(spec, obs) == /\ Len(spec) = Len(obs)
                    /\ spec = obs \/ \A i \in 1..Len(spec) : ByteMatches(spec[i], obs[i])

Known(a) == \A i \in 1..Len(a) : a[i] >= 0
BMax(a, b) == IF a > b THEN a ELSE b
BMin(a, b) == IF a < b THEN a ELSE b
AnyB(n) == Tup([i \in 1..n |-> AnyBy])

-----------------------------------------------------------------------------
Idx == [n \in 0..600 |-> [i \in 1..n |-> i] \o <<>>]
Pow2 == [i \in 0..30 |-> 2^i]

Zero(n) == Tup([i \in 1..n |-> 0])
One(n)  == Tup([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
Ones(n) == Tup([i \in 1..n |-> 255])
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Neg1(a) == a[Len(a)] >= 128                      \* sign bit
Bool(b) == IF b THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 0>>
IntMin(n) == Tup([i \in 1..n |-> IF i = n THEN 128 ELSE 0])
IntMax(n) == Tup([i \in 1..n |-> IF i = n THEN 127 ELSE 255])

\* a native natural number < 2^31 as n bytes, and back (-1 when too large)
FromNat(x, n) == Tup([i \in 1..n |-> IF i > 4 THEN 0 ELSE (x \div Pow2[8*(i-1)]) % 256])
Clip == 536870912       \* 2^29: naturals at least this large are all "huge"
ToNat(a) ==
  IF \/ \E i \in 5..Len(a) : a[i] # 0
     \/ Len(a) >= 4 /\ a[4] >= 32
  THEN Clip
  ELSE IF Len(a) >= 4 THEN a[1] + 256*a[2] + 65536*a[3] + 16777216*a[4]
  ELSE IF Len(a) = 1 THEN a[1] ELSE IF Len(a) = 2 THEN a[1] + 256*a[2]
  ELSE a[1] + 256*a[2] + 65536*a[3]
\* two's complement of a small native integer
FromInt(x, n) == IF x >= 0 THEN FromNat(x, n)
                 ELSE LET m == FromNat(-(x+1), n) IN Tup([i \in 1..n |-> 255 - m[i]])

-----------------------------------------------------------------------------
(* bitwise *)
Not_(a) == Tup([i \in 1..Len(a) |-> 255 - a[i]])
And_(a, b) == Tup([i \in 1..Len(a) |-> IF a[i] < 0 \/ b[i] < 0 THEN IF a[i] = 0 \/ b[i] = 0 THEN 0 ELSE AnyBy ELSE a[i] & b[i]])
Or_(a, b)  == Tup([i \in 1..Len(a) |-> IF a[i] < 0 \/ b[i] < 0 THEN AnyBy ELSE a[i] | b[i]])
Xor_(a, b) == Tup([i \in 1..Len(a) |-> IF a[i] < 0 \/ b[i] < 0 THEN AnyBy ELSE a[i] ^^ b[i]])
NotU(a) == Tup([i \in 1..Len(a) |-> IF a[i] < 0 THEN AnyBy ELSE 255 - a[i]])

-----------------------------------------------------------------------------
(* addition and subtraction *)
\* ripple carry over equal widths, given the carry in
AddR(a, b, c) ==
  FoldLeft(LAMBDA acc, i : LET s == a[i] + b[i] + acc[1]
                           IN  <<s \div 256, Append(acc[2], s % 256)>>,
           <<c, <<>>>>, Idx[Len(a)])[2]
AddC(a, b, c) ==
  CASE Len(a) = 4 ->
        LET l == a[1] + 256*a[2] + b[1] + 256*b[2] + c
            h == a[3] + 256*a[4] + b[3] + 256*b[4] + (l \div 65536)
        IN  <<l % 256, (l \div 256) % 256, h % 256, (h \div 256) % 256>>
    [] Len(a) = 8 ->
        LET l == a[1] + 256*a[2] + 65536*a[3] + b[1] + 256*b[2] + 65536*b[3] + c
            m == a[4] + 256*a[5] + 65536*a[6] + b[4] + 256*b[5] + 65536*b[6] + (l \div 16777216)
            h == a[7] + 256*a[8] + b[7] + 256*b[8] + (m \div 16777216)
        IN  <<l % 256, (l \div 256) % 256, (l \div 65536) % 256,
              m % 256, (m \div 256) % 256, (m \div 65536) % 256,
              h % 256, (h \div 256) % 256>>
    [] Len(a) = 1 -> <<(a[1] + b[1] + c) % 256>>
    [] OTHER -> AddR(a, b, c)
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, Not_(b), 1)
Neg(a) == AddC(Zero(Len(a)), Not_(a), 1)
Abs_(a) == IF Neg1(a) THEN Neg(a) ELSE a

-----------------------------------------------------------------------------
(* order *)
RECURSIVE CmpR(_,_,_)
CmpR(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpR(a, b, i-1)
CmpU(a, b) == CmpR(a, b, Len(a))
FlipTop(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
CmpS(a, b) == CmpU(FlipTop(a), FlipTop(b))
LtU(a, b) == CmpU(a, b) < 0
LtS(a, b) == CmpS(a, b) < 0

-----------------------------------------------------------------------------
(* width changes *)
ZExt(a, n) == Tup([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0])
SExt(a, n) == LET s == IF a[Len(a)] < 0 THEN AnyBy ELSE IF Neg1(a) THEN 255 ELSE 0
              IN  Tup([i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE s])
Trunc(a, n) == SubSeq(a, 1, n)

-----------------------------------------------------------------------------
(* shifts by k bits, 0 <= k < 8*Len(a) *)
At(a, i, fill) == IF i < 1 THEN 0 ELSE IF i > Len(a) THEN fill ELSE a[i]
ShlK(a, k) == LET q == k \div 8
                  r == k % 8
              IN  IF r = 0 THEN Tup([i \in 1..Len(a) |-> At(a, i-q, 0)])
                  ELSE Tup([i \in 1..Len(a) |-> ((At(a, i-q, 0) * Pow2[r]) % 256) + (At(a, i-q-1, 0) \div Pow2[8-r])])
ShrF(a, k, fill) == LET q == k \div 8
                        r == k % 8
                    IN  IF r = 0 THEN Tup([i \in 1..Len(a) |-> At(a, i+q, fill)])
                        ELSE Tup([i \in 1..Len(a) |-> (At(a, i+q, fill) \div Pow2[r]) + ((At(a, i+q+1, fill) * Pow2[8-r]) % 256)])
ShrUK(a, k) == ShrF(a, k, 0)
ShrSK(a, k) == ShrF(a, k, IF Neg1(a) THEN 255 ELSE 0)
\* shift counts are taken modulo the width (a power of two of at most 64 bits)
Count(b, n) == b[1] % (8 * n)
RotlK(a, k) == IF k = 0 THEN a ELSE LET n == 8 * Len(a)
               IN  LET x == ShlK(a, k)
                       y == ShrUK(a, n - k)
                   IN  Tup([i \in 1..Len(a) |-> x[i] + y[i]])

-----------------------------------------------------------------------------
(* counting *)
BitLenByte == [b \in 0..255 |-> IF b = 0 THEN 0 ELSE CHOOSE n \in 1..8 : Pow2[n-1] <= b /\ b < Pow2[n]]
CtzByte == [b \in 0..255 |-> IF b = 0 THEN 8 ELSE CHOOSE n \in 0..7 : b % Pow2[n] = 0 /\ (b \div Pow2[n]) % 2 = 1]
PopByte == [b \in 0..255 |-> (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2)
                           + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)]
RECURSIVE BitLenR(_,_)
BitLenR(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN 8*(i-1) + BitLenByte[a[i]] ELSE BitLenR(a, i-1)
BitLen(a) == BitLenR(a, Len(a))
ClzN(a) == 8 * Len(a) - BitLen(a)
RECURSIVE CtzR(_,_)
CtzR(a, i) == IF i > Len(a) THEN 8 * Len(a) ELSE IF a[i] # 0 THEN 8*(i-1) + CtzByte[a[i]] ELSE CtzR(a, i+1)
CtzN(a) == CtzR(a, 1)
PopN(a) == FoldLeft(LAMBDA s, b : s + PopByte[b], 0, a)

-----------------------------------------------------------------------------
(* multiplication: full product of width Len(a) + Len(b) *)
\* column sums stay below 16*255*255 + carry, well inside native integers
MulCol(a, b, k, c) ==     \* sum of a[i]*b[j] with i + j = k + 1, plus carry
  FoldLeft(LAMBDA t, i : IF i > k \/ k - i + 1 > Len(b) THEN t ELSE t + a[i] * b[k-i+1], c, Idx[Len(a)])
MulR(a, b, n) ==
  FoldLeft(LAMBDA acc, k : LET s == MulCol(a, b, k, acc[1])
                           IN  <<s \div 256, Append(acc[2], s % 256)>>,
           <<0, <<>>>>, Idx[n])[2]
MulFull(a, b) == MulR(a, b, Len(a) + Len(b))
Mul(a, b) == IF Len(a) = 1 THEN <<(a[1] * b[1]) % 256>> ELSE MulR(a, b, Len(a))
MulFullS(a, b) == LET n == Len(a) IN Mul(SExt(a, 2*n), SExt(b, 2*n))

-----------------------------------------------------------------------------
(* division: <<quotient, remainder>> of naturals of equal width, b # 0 *)
Bit(a, k) == (a[1 + k \div 8] \div Pow2[k % 8]) % 2
\* r - d*b for a digit d with d*b <= r (equal widths)
SubMul(r, b, d) ==
  FoldLeft(LAMBDA acc, i : LET s == r[i] - d * b[i] - acc[1] + 65536
                           IN  <<256 - (s \div 256), Append(acc[2], s % 256)>>,
           <<0, <<>>>>, Idx[Len(r)])[2]
\* one digit: b normalized (its top digit at position Len(b)-1 is >= 128), r < 256 b
RECURSIVE Digit(_,_,_)
Digit(r, b, q) ==       \* <<digit, remainder>>
  IF CmpU(r, b) < 0 THEN <<q, r>>
  ELSE LET n == Len(b)
           est == (r[n-2] + 256*r[n-1] + 65536*r[n]) \div (b[n-2] + 256*b[n-1] + 1)
           d == IF est = 0 THEN 1 ELSE IF est > 255 THEN 255 ELSE est
       IN  Digit(SubMul(r, b, d), b, q + d)
DivBig(a, b) ==
  LET nb == (BitLen(b) + 7) \div 8
      sh == 8*nb - BitLen(b)
      na == Len(a) + 1
      w  == nb + 2
      \* divisor scaled to top bit set, one low zero byte and one high zero byte
      bb == Tup([i \in 1..w |-> IF i = 1 \/ i = w THEN 0 ELSE ShlK(ZExt(SubSeq(b, 1, nb), nb), sh)[i-1]])
      aa == ShlK(ZExt(a, na), sh)
      r == FoldLeft(LAMBDA acc, i :
             LET k == na + 1 - i
                 \* bring down one digit (kept one byte up, as in bb)
                 r0 == Tup([j \in 1..w |-> IF j = 1 THEN 0 ELSE IF j = 2 THEN aa[k] ELSE acc[2][j-1]])
                 d == Digit(r0, bb, 0)
             IN  <<<<d[1]>> \o acc[1], d[2]>>, <<<<>>, Zero(w)>>, Idx[na])
      rem == ShrUK(ZExt(SubSeq(r[2], 2, w), BMax(Len(b), w)), sh)
  IN  <<SubSeq(r[1], 1, Len(a)), SubSeq(rem, 1, Len(b))>>
DivRemU(a, b) ==
  LET n == Len(a) IN
  IF n <= 8 /\ ToNat(a) < Clip /\ ToNat(b) < Clip
  THEN <<FromNat(ToNat(a) \div ToNat(b), n), FromNat(ToNat(a) % ToNat(b), n)>>
  ELSE DivBig(a, b)

=============================================================================
