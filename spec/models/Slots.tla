------------------------------- MODULE Slots -------------------------------
(* A table of functions: 0 is null, 1 and 2 are functions of two instances, 3 is a function of another type. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Min, Max, Refs, Hosts
VARIABLE st
Seg == <<1, 0, 2>>
Init == st = [m |-> [i \in 1..Min |-> 0], d |-> FALSE]
P == 0..(Max + 1)
O(k, a) == [k |-> k, a |-> a]
By == IF Hosts THEN {"g", "h"} ELSE {"g"}
Ops == UNION {
  {O(b \o "set", <<i, v>>) : b \in By, i \in P, v \in Refs},
  {O("gcall", <<i>>) : i \in P}, {O("gtail", <<i>>) : i \in P}, {O("gnull", <<i>>) : i \in P}, {O("hget", <<i>>) : i \in P},
  {O("gfill", <<d, v, n>>) : d \in P, v \in Refs, n \in P},
  {O(b \o "copy", <<d, s, n>>) : b \in By, d \in P, s \in P, n \in P},
  {O("ginit", <<d, s, n>>) : d \in P, s \in 0..4, n \in 0..4},
  {O("gdrop", <<>>)},
  {O(b \o "grow", <<v, n>>) : b \in By, v \in Refs, n \in P} }
Size(s) == Len(s.m)
Fits(i, n, k) == i + n <= k
Put(s, d, f(_), n) == [s EXCEPT !.m = [i \in 1..Size(s) |-> IF i > d /\ i <= d + n THEN f(i - d) ELSE s.m[i]]]
Res(s, v) == [s |-> s, v |-> v]
Trap(s, x) == Res(s, <<"err", x>>)
Oob(s) == Trap(s, "table_oob")
Do(s, o) ==
  LET k == SubSeq(o.k, 2, Len(o.k)) a == o.a z == Size(s) IN
  CASE k = "set" -> IF a[1] < z THEN Res(Put(s, a[1], LAMBDA i : a[2], 1), <<"ret">>) ELSE Oob(s)
    [] k \in {"null", "get"} -> IF a[1] < z THEN Res(s, <<"ret", IF s.m[a[1] + 1] = 0 THEN 1 ELSE 0>>) ELSE Oob(s)
    [] k \in {"call", "tail"} ->
         IF a[1] >= z THEN Trap(s, "undef_elem")
         ELSE LET v == s.m[a[1] + 1] IN
              IF v = 0 THEN Trap(s, "uninit_elem") ELSE IF v = 3 THEN Trap(s, "sig_mismatch") ELSE Res(s, <<"ret", v>>)
    [] k = "fill" -> IF Fits(a[1], a[3], z) THEN Res(Put(s, a[1], LAMBDA i : a[2], a[3]), <<"ret">>) ELSE Oob(s)
    [] k = "copy" -> IF Fits(a[1], a[3], z) /\ Fits(a[2], a[3], z)
                     THEN Res(Put(s, a[1], LAMBDA i : s.m[a[2] + i], a[3]), <<"ret">>) ELSE Oob(s)
    [] k = "init" -> LET g == IF s.d THEN <<>> ELSE Seg IN
                     IF Fits(a[1], a[3], z) /\ Fits(a[2], a[3], Len(g))
                     THEN Res(Put(s, a[1], LAMBDA i : g[a[2] + i], a[3]), <<"ret">>) ELSE Oob(s)
    [] k = "drop" -> Res([s EXCEPT !.d = TRUE], <<"ret">>)
    [] k = "grow" -> IF z + a[2] > Max THEN Res(s, <<"ret", -1>>)
                     ELSE Res([s EXCEPT !.m = s.m \o [i \in 1..a[2] |-> a[1]]], <<"ret", z>>)
Grows(o) == SubSeq(o.k, 2, Len(o.k)) = "grow"
Laws(s, o, r) ==
  /\ Size(r.s) >= Size(s) /\ Size(r.s) <= Max
  /\ (r.v[1] = "err" => r.s = s)
  /\ (Size(r.s) # Size(s) => Grows(o) /\ r.v = <<"ret", Size(s)>>)
  /\ \A i \in 1..Size(r.s) : i > Size(s) => r.s.m[i] = o.a[1]
  /\ (Grows(o) => SubSeq(r.s.m, 1, Size(s)) = s.m)
  /\ \A i \in 1..Size(s) : r.s.m[i] # s.m[i] =>
        Len(o.a) >= 2 /\ i > o.a[1] /\ i <= o.a[1] + (IF Len(o.a) = 2 THEN 1 ELSE o.a[3])
Next == \E o \in Ops : LET r == Do(st, o) IN
  /\ Assert(Laws(st, o, r), <<"law broken", st, o, r>>)
  /\ PrintT("@@E@" \o ToJson([f |-> st, o |-> o, v |-> r.v, t |-> r.s]))
  /\ st' = r.s
Spec == Init /\ [][Next]_st
=============================================================================
