------------------------------- MODULE Cells -------------------------------
(* A linear memory of a few one-byte pages: every operation guests and embedders have on it, in every state.
   TLC checks the laws below on every transition and prints the transitions; gen/model.py walks all of them through
   the implementation. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Min, Max, Cap, Vals, Oom, Hosts
VARIABLE st
Seg == <<1, 0, 1>>
Zeros(n) == [i \in 1..n |-> 0]
Init == st = [m |-> Zeros(Min), d |-> FALSE]
P == 0..(Max + 1)
O(k, a) == [k |-> k, a |-> a]
By == IF Hosts THEN {"g", "h"} ELSE {"g"}
Ops == UNION {
  {O(b \o "st", <<i, v>>) : b \in By, i \in P, v \in Vals},
  {O(b \o "ld", <<i>>) : b \in By, i \in P},
  {O(b \o "fill", <<d, v, n>>) : b \in By, d \in P, v \in Vals, n \in P},
  {O(b \o "copy", <<d, s, n>>) : b \in By, d \in P, s \in P, n \in P},
  {O("ginit", <<d, s, n>>) : d \in P, s \in 0..4, n \in 0..4},
  {O("gdrop", <<>>)},
  {O(b \o "grow", <<n>>) : b \in By, n \in P} }
Size(s) == Len(s.m)
Fits(i, n, k) == i + n <= k
Put(s, d, f(_), n) == [s EXCEPT !.m = [i \in 1..Size(s) |-> IF i > d /\ i <= d + n THEN f(i - d) ELSE s.m[i]]]
Res(s, v) == [s |-> s, v |-> v]
Trap(s, x) == Res(s, <<"err", x>>)
Oob(s) == Trap(s, "mem_oob")
Do(s, o) ==
  LET k == SubSeq(o.k, 2, Len(o.k)) a == o.a z == Size(s) IN
  CASE k = "st" -> IF Fits(a[1], 1, z) THEN Res(Put(s, a[1], LAMBDA i : a[2], 1), <<"ret">>) ELSE Oob(s)
    [] k = "ld" -> IF Fits(a[1], 1, z) THEN Res(s, <<"ret", s.m[a[1] + 1]>>) ELSE Oob(s)
    [] k = "fill" -> IF Fits(a[1], a[3], z) THEN Res(Put(s, a[1], LAMBDA i : a[2], a[3]), <<"ret">>) ELSE Oob(s)
    [] k = "copy" -> IF Fits(a[1], a[3], z) /\ Fits(a[2], a[3], z)
                     THEN Res(Put(s, a[1], LAMBDA i : s.m[a[2] + i], a[3]), <<"ret">>) ELSE Oob(s)
    [] k = "init" -> LET g == IF s.d THEN <<>> ELSE Seg IN
                     IF Fits(a[1], a[3], z) /\ Fits(a[2], a[3], Len(g))
                     THEN Res(Put(s, a[1], LAMBDA i : g[a[2] + i], a[3]), <<"ret">>) ELSE Oob(s)
    [] k = "drop" -> Res([s EXCEPT !.d = TRUE], <<"ret">>)
    [] k = "grow" -> IF z + a[1] > Max THEN Res(s, <<"ret", -1>>)
                     ELSE IF z + a[1] > Cap THEN (IF Oom THEN Trap(s, "oom") ELSE Res(s, <<"ret", -1>>))
                     ELSE Res([s EXCEPT !.m = s.m \o Zeros(a[1])], <<"ret", z>>)
(* laws, stated apart from Do *)
Grown(o, r) == SubSeq(o.k, 2, Len(o.k)) = "grow"
Laws(s, o, r) ==
  /\ Size(r.s) >= Size(s) /\ Size(r.s) <= Max /\ Size(r.s) <= Cap
  /\ (r.v[1] = "err" => r.s = s)
  /\ (Size(r.s) # Size(s) => Grown(o, r) /\ r.v = <<"ret", Size(s)>>)
  /\ \A i \in 1..Size(r.s) : i > Size(s) => r.s.m[i] = 0
  /\ (Grown(o, r) => SubSeq(r.s.m, 1, Size(s)) = s.m)
  /\ \A i \in 1..Size(s) : r.s.m[i] # s.m[i] =>       \* only the addressed cells change
        Len(o.a) >= 2 /\ i > o.a[1] /\ i <= o.a[1] + (IF Len(o.a) = 2 THEN 1 ELSE o.a[3])
  /\ (s.d => r.s.d)
Next == \E o \in Ops : LET r == Do(st, o) IN
  /\ Assert(Laws(st, o, r), <<"law broken", st, o, r>>)
  /\ PrintT("@@E@" \o ToJson([f |-> st, o |-> o, v |-> r.v, t |-> r.s]))
  /\ st' = r.s
Spec == Init /\ [][Next]_st
=============================================================================
