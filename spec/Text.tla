------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Numbers as text, on sequences of ASCII codes: which texts denote a      *)
(* number, which value each denotes (exactly, floats rounded to nearest),  *)
(* and how result values are shown by the command line.                    *)
(***************************************************************************)
EXTENDS FloatOps

IsDigit(c) == c >= 48 /\ c <= 57
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lowered(t) == Tup([i \in 1..Len(t) |-> Lower(t[i])])
RECURSIVE DigitsFrom(_,_)       \* the position after the digits starting at i
DigitsFrom(t, i) == IF i <= Len(t) /\ IsDigit(t[i]) THEN DigitsFrom(t, i + 1) ELSE i

\* digits as a natural number in n bytes (wrapping is the caller's concern)
DecBytes(ds, n) ==
  FoldLeft(LAMBDA a, d :
             FoldLeft(LAMBDA acc, i : LET s == a[i] * 10 + acc[1] IN <<s \div 256, Append(acc[2], s % 256)>>,
                      <<d - 48, <<>>>>, Idx[n])[2],
           Zero(n), ds)
Width(k) == 1 + k \div 2        \* bytes enough for k decimal digits

RECURSIVE Stripped(_,_)
Stripped(a, n) == IF n > 1 /\ a[n] = 0 THEN Stripped(a, n - 1) ELSE SubSeq(a, 1, n)
Small(a) == Stripped(a, Len(a))
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN <<1>> ELSE IF k % 2 = 1 THEN MulFull(Pow10(k - 1), <<10>>)
            ELSE LET h == Pow10(k \div 2) IN Small(MulFull(h, h))

\* (-1)^s * d * 10^x rounded to a float of w bytes
RoundDec(w, s, d, x) ==
  IF IsZero(d) THEN FZero(w, s)
  ELSE IF x >= 0 THEN Round(w, s, Small(MulFull(d, Pow10(x))) \o <<0>>, 0, FALSE)
  ELSE LET p == Small(Pow10(-x))
           sh == BMax(0, MantBits(w) + 8 + BitLen(p) - BitLen(d))
           n == NShl(Small(d), sh)
           l == BMax(Len(n), Len(p)) + 1
           qr == DivBig(ZExt(n, l), ZExt(p, l))
       IN  Round(w, s, qr[1] \o <<0>>, -sh, ~IsZero(qr[2]))

NaNText == <<110, 97, 110>>
InfTexts == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}

\* an integer of w bytes: optional sign, digits, in the signed range; <<>> when t is none
IntText(t, w) ==
  LET s == Len(t) > 0 /\ t[1] \in {43, 45}
      ds == SubSeq(t, IF s THEN 2 ELSE 1, Len(t))
      n == BMax(Width(Len(ds)), w + 1)
      v == DecBytes(ds, n)
      neg == s /\ t[1] = 45
      r == IF neg THEN Neg(v) ELSE v
  IN  IF ds = <<>> \/ DigitsFrom(ds, 1) # Len(ds) + 1 THEN <<>>
      ELSE IF SExt(Trunc(r, w), n) # r THEN <<>>
      ELSE Trunc(r, w)

\* a float of w bytes, as a set of bit patterns: a sign, then inf, infinity, nan, or digits [. digits] [e [sign] digits]
FloatTexts(t, w) ==
  LET s == Len(t) > 0 /\ t[1] \in {43, 45}
      sg == IF s /\ t[1] = 45 THEN 1 ELSE 0
      u == Lowered(SubSeq(t, IF s THEN 2 ELSE 1, Len(t)))
      n == Len(u)
      i1 == DigitsFrom(u, 1)
      dot == i1 <= n /\ u[i1] = 46
      i2 == IF dot THEN DigitsFrom(u, i1 + 1) ELSE i1
      ds == SubSeq(u, 1, i1 - 1) \o (IF dot THEN SubSeq(u, i1 + 1, i2 - 1) ELSE <<>>)
      frac == IF dot THEN i2 - i1 - 1 ELSE 0
      ex == i2 <= n /\ u[i2] = 101
      es == ex /\ i2 < n /\ u[i2 + 1] \in {43, 45}
      i3 == IF es THEN i2 + 2 ELSE i2 + 1
      x == IF ex THEN FoldLeft(LAMBDA a, d : IF a > 9999 THEN a ELSE a * 10 + d - 48, 0, SubSeq(u, i3, n)) ELSE 0
      ok == /\ ds # <<>>
            /\ IF ex THEN i3 <= n /\ DigitsFrom(u, i3) = n + 1 ELSE i2 = n + 1
      xx == (IF es /\ u[i2 + 1] = 45 THEN -x ELSE x) - frac
  IN  IF u = NaNText THEN {AnyB(w)}
      ELSE IF u \in InfTexts THEN {FInf(w, sg)}
      ELSE IF ~ok THEN {}
      ELSE LET d == Small(DecBytes(ds, Width(Len(ds)))) IN
           \* beyond every float of either width
           IF IsZero(d) THEN {FZero(w, sg)}
           ELSE IF xx > 400 THEN {FInf(w, sg)}
           ELSE IF xx + Len(ds) < -400 THEN {FZero(w, sg)}
           ELSE {RoundDec(w, sg, d, xx)}

\* does text t denote the value o of type ty: "no" (no value of the type), or whether o is it
ArgOk(t, ty) ==
  CASE ty = "i32" -> IntText(t, 4) # <<>> [] ty = "i64" -> IntText(t, 8) # <<>> [] ty = "v128" -> IntText(t, 16) # <<>>
    [] ty \in {"f32", "f64"} -> FloatTexts(t, IF ty = "f32" THEN 4 ELSE 8) # {}
    [] OTHER -> FALSE
ArgIs(t, o) ==
  CASE o.t = "i32" -> o.v = IntText(t, 4) [] o.t = "i64" -> o.v = IntText(t, 8) [] o.t = "v128" -> o.v = IntText(t, 16)
    [] o.t \in {"f32", "f64"} -> LET vs == FloatTexts(t, Len(o.v)) IN
         IF \E v \in vs : v[1] = AnyBy THEN IsNaN(o.v) ELSE o.v \in vs
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Shown values *)

HasAt(out, i, t) == i + Len(t) - 1 <= Len(out) /\ SubSeq(out, i, i + Len(t) - 1) = t
RECURSIVE CloseAt(_,_,_)        \* the position of the bracket closing depth d
CloseAt(out, i, d) == IF i > Len(out) THEN 0
                      ELSE IF out[i] = 40 THEN CloseAt(out, i + 1, d + 1)
                      ELSE IF out[i] # 41 THEN CloseAt(out, i + 1, d)
                      ELSE IF d = 0 THEN i ELSE CloseAt(out, i + 1, d - 1)
TyText(t) == CASE t = "i32" -> <<105, 51, 50>> [] t = "i64" -> <<105, 54, 52>> [] t = "f32" -> <<102, 51, 50>> [] t = "f64" -> <<102, 54, 52>>
               [] t = "v128" -> <<118, 49, 50, 56>> [] t = "funcref" -> <<102, 117, 110, 99>> [] t = "externref" -> <<114, 101, 102>>
\* decimal digits of a small natural
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
Joined(ts) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<44, 32>> \o x, <<>>, ts)
NullText == <<110, 117, 108, 108>>
Occurs(t, x) == \E i \in 1..Len(t) : HasAt(t, i, x)
\* the text between the brackets, for value v
Inside(v, t) ==
  CASE v.t \in {"i32", "i64"} -> IntText(t, Len(v.v)) = v.v /\ t[1] # 43
    [] v.t \in {"f32", "f64"} -> IF IsNaN(v.v) THEN Lowered(t) \in {NaNText, <<45>> \o NaNText}
                                 ELSE FloatTexts(t, Len(v.v)) = {v.v}
    [] v.t = "v128" -> t = <<91>> \o Joined(Tup([i \in 1..16 |-> NatText(v.v[i])])) \o <<93>>
    [] OTHER -> Occurs(t, NullText) = (v.v[1] = -1)
RECURSIVE ShownFrom(_,_,_,_)
ShownFrom(vs, k, out, i) ==      \* the position after values k.. from position i, 0 if they are not there
  LET v == vs[k]
      h == TyText(v.t) \o <<40>>
      c == CloseAt(out, i + Len(h), 0)
  IN  IF ~HasAt(out, i, h) \/ c = 0 \/ ~Inside(v, SubSeq(out, i + Len(h), c - 1)) THEN 0
      ELSE IF k = Len(vs) THEN c + 1
      ELSE IF ~HasAt(out, c + 1, <<44, 32>>) THEN 0
      ELSE ShownFrom(vs, k + 1, out, c + 3)
Shown(vs, out) ==
  IF vs = <<>> THEN out = <<>>
  ELSE IF Len(vs) = 1 THEN ShownFrom(vs, 1, out, 1) = Len(out) /\ out[Len(out)] = 10
  ELSE HasAt(out, 1, <<91>>) /\ LET e == ShownFrom(vs, 1, out, 2) IN e > 0 /\ SubSeq(out, e, Len(out)) = <<93, 10>>
=============================================================================
