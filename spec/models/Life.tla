------------------------------- MODULE Life --------------------------------
(* One provider exporting a memory, a table, a mutable global and functions; consumers importing all of them, each
   instantiated any number of times. Instantiation is a sequence of steps (element segments, data segments, the start
   function) that stops at the first failure and keeps what the steps before it did; a link error does nothing.
   Functions of consumers whose instantiation failed stay callable through the table. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MemMax, TabMax, Kinds
VARIABLE st         \* m: cells, t: slots (kind of the function's module, 0 null), g: the global, c: kind of the last consumer alive
E(off) == [k |-> "e", off |-> off]
D(off) == [k |-> "d", off |-> off]
S(x) == [k |-> "s", x |-> x]
Steps(k) == CASE k = 1 -> <<E(0), D(0)>>
              [] k = 2 -> <<E(2), D(0)>>                 \* fails until the table has grown
              [] k = 3 -> <<E(1), D(2), D(1)>>           \* fails until the memory has grown, after writing the table
              [] k = 4 -> <<E(0), D(1), S("trap0")>>     \* start traps while the global is 0
              [] k = 5 -> <<D(1), S("bump")>>            \* start increments the global
              [] k = 6 -> <<E(1), S("call0")>>           \* start calls through slot 0
              [] k = 7 -> <<E(0), D(0), S("growm")>>     \* start grows the memory
              [] k = 8 -> <<E(0)>>                       \* does not link
Byte(k) == IF k \in {1, 3, 5, 7} THEN 1 ELSE 2
Init == st = [m |-> <<0, 0>>, t |-> <<0, 0>>, g |-> 0, c |-> 0]
Res(s, v) == [s |-> s, v |-> v]
Step(s, k, x) ==
  CASE x.k = "e" -> IF x.off < Len(s.t) THEN Res([s EXCEPT !.t[x.off + 1] = k], <<"ok">>) ELSE Res(s, <<"err", "table_oob">>)
    [] x.k = "d" -> IF x.off < Len(s.m) THEN Res([s EXCEPT !.m[x.off + 1] = Byte(k)], <<"ok">>) ELSE Res(s, <<"err", "mem_oob">>)
    [] x.k = "s" ->
       CASE x.x = "trap0" -> IF s.g = 0 THEN Res([s EXCEPT !.m[1] = 3], <<"err", "unreachable">>) ELSE Res(s, <<"ok">>)
         [] x.x = "bump" -> Res([s EXCEPT !.g = (s.g + 1) % 3], <<"ok">>)
         [] x.x = "call0" -> IF s.t[1] = 0 THEN Res(s, <<"err", "uninit_elem">>) ELSE Res([s EXCEPT !.g = s.t[1] % 3], <<"ok">>)
         [] x.x = "growm" -> IF Len(s.m) < MemMax THEN Res([s EXCEPT !.m = Append(s.m, 0)], <<"ok">>) ELSE Res(s, <<"ok">>)
RECURSIVE Run(_, _, _)
Run(s, k, xs) == IF xs = <<>> THEN Res([s EXCEPT !.c = k], <<"ok">>)
                 ELSE LET r == Step(s, k, Head(xs)) IN IF r.v[1] = "err" THEN r ELSE Run(r.s, k, Tail(xs))
O(k, a) == [k |-> k, a |-> a]
(* w: who acts: 0 the provider, 1 the last consumer, 2 the consumer by calling into the provider in the middle of its own work *)
Ops(s) == LET W == IF s.c = 0 THEN {0} ELSE {0, 1, 2} IN UNION {
  {O("inst", <<k>>) : k \in Kinds},
  {O("set", <<w, v>>) : w \in W, v \in 0..2},
  {O("call", <<w, i>>) : w \in W, i \in 0..TabMax},
  {O("growm", <<w>>) : w \in W}, {O("growt", <<w>>) : w \in W},
  {O("poke", <<w, i>>) : w \in W, i \in 0..MemMax},
  {O("wipe", <<w>>) : w \in W} }
Do(s, o) ==
  CASE o.k = "inst" -> IF o.a[1] = 8 THEN Res(s, <<"err", "incompat">>) ELSE Run(s, o.a[1], Steps(o.a[1]))
    [] o.k = "set" -> Res([s EXCEPT !.g = o.a[2]], <<"ret", s.g>>)
    [] o.k = "call" -> IF o.a[2] >= Len(s.t) THEN Res(s, <<"err", "undef_elem">>)
                       ELSE IF s.t[o.a[2] + 1] = 0 THEN Res(s, <<"err", "uninit_elem">>) ELSE Res(s, <<"ret", s.t[o.a[2] + 1]>>)
    [] o.k = "growm" -> IF Len(s.m) < MemMax THEN Res([s EXCEPT !.m = Append(s.m, 0)], <<"ret", Len(s.m)>>) ELSE Res(s, <<"ret", -1>>)
    [] o.k = "growt" -> IF Len(s.t) < TabMax THEN Res([s EXCEPT !.t = Append(s.t, 0)], <<"ret", Len(s.t)>>) ELSE Res(s, <<"ret", -1>>)
    [] o.k = "poke" -> IF o.a[2] < Len(s.m) THEN Res([s EXCEPT !.m[o.a[2] + 1] = 0], <<"ret", s.m[o.a[2] + 1]>>) ELSE Res(s, <<"err", "mem_oob">>)
    [] o.k = "wipe" -> Res([s EXCEPT !.t = [i \in 1..Len(s.t) |-> 0]], <<"ret", Len(s.t)>>)
Laws(s, o, r) ==
  /\ Len(r.s.m) >= Len(s.m) /\ Len(r.s.t) >= Len(s.t)
  /\ (o.k = "inst" /\ r.v[1] = "err" => r.s.c = s.c)
  /\ (o.k # "inst" /\ r.v[1] = "err" => r.s = s)
  /\ (o.k = "inst" /\ o.a[1] = 8 => r.s = s)
  /\ (o.k = "inst" /\ r.v[1] = "ok" => \A j \in 1..Len(Steps(o.a[1])) :
         LET x == Steps(o.a[1])[j] IN (x.k = "e" => r.s.t[x.off + 1] = o.a[1]) /\ (x.k = "d" => r.s.m[x.off + 1] = Byte(o.a[1])))
Next == \E o \in Ops(st) : LET r == Do(st, o) IN
  /\ Assert(Laws(st, o, r), <<"law broken", st, o, r>>)
  /\ PrintT("@@E@" \o ToJson([f |-> st, o |-> o, v |-> r.v, t |-> r.s]))
  /\ st' = r.s
Spec == Init /\ [][Next]_st
=============================================================================
