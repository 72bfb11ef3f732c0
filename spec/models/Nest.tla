------------------------------- MODULE Nest --------------------------------
(* Who waits for whom: guest functions that keep asking a host function what to do next, and host functions that
   call guests, start resumable executions or instantiate modules before they answer. A frame is a guest function
   waiting for the host's answer: e says how it was entered (C: call, R: resumable call, L: from guest code), l is
   its local. Unwinding stops at the nearest C or R, whose host may answer anything, or pass the error on. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Mod
VARIABLE st             \* k: frames, g: a global, e: the host just saw a nested operation fail
Init == st = [k |-> <<>>, g |-> 0, e |-> FALSE]
Res(k, g, e, v) == [s |-> [k |-> k, g |-> g, e |-> e], v |-> v]
O(n) == [k |-> n, a |-> <<>>]
Ops(s) == LET n == Len(s.k) IN
  (IF n < Depth THEN {"call"} ELSE {}) \union {"rcall"} \union {"inst", "ifail", "plain", "bad", "set"}
  \union (IF n = 0 THEN {} ELSE {"ret", "trap", "herr", "htrap", "add", "tail", "flip"})
  \union (IF n > 0 /\ n < Depth THEN {"loc"} ELSE {})
  \union (IF n > 0 /\ s.e THEN {"prop"} ELSE {})
Front(k) == SubSeq(k, 1, Len(k) - 1)
Top(k) == k[Len(k)]
RECURSIVE Unwind(_)
Unwind(k) == IF Top(k).e = "L" THEN Unwind(Front(k)) ELSE Front(k)
Go(k, e, l) == Append(k, [e |-> e, l |-> l])
Do(s, o) ==
  LET k == s.k g == s.g IN
  CASE o = "call" -> Res(Go(k, "C", 0), g, FALSE, <<>>)
    [] o = "rcall" -> IF k = <<>> THEN Res(Go(k, "R", 1), g, FALSE, <<>>) ELSE Res(k, g, TRUE, <<"err", "rej">>)   \* not from inside
    [] o = "loc" -> Res(Go(k, "L", 1 - Top(k).l), g, FALSE, <<>>)
    [] o = "ret" -> Res(Front(k), g, FALSE, IF Top(k).e = "L" THEN <<>> ELSE <<"ret", 10 * Top(k).l + g>>)
    [] o = "add" -> Res(k, (g + 1) % Mod, FALSE, <<>>)
    [] o = "tail" -> Res([k EXCEPT ![Len(k)].l = 1 - @], g, FALSE, <<>>)       \* the same frame with a flipped parameter
    [] o = "flip" -> Res([k EXCEPT ![Len(k)].l = 1 - @], g, FALSE, <<>>)
    [] o = "trap" -> Res(Unwind(k), g, TRUE, <<"err", "unreachable">>)
    [] o = "herr" -> Res(Unwind(k), g, TRUE, <<"err", "host">>)
    [] o = "htrap" -> Res(Unwind(k), g, TRUE, <<"err", "div_zero">>)
    [] o = "prop" -> Res(Unwind(k), g, TRUE, <<"err">>)
    [] o = "plain" -> Res(k, g, s.e, <<"ok">>)                                  \* a module without a start function
    [] o = "inst" -> IF k # <<>> THEN Res(k, g, TRUE, <<"err", "rej">>)         \* start functions do not run from inside
                     ELSE Res(k, (g + 1) % Mod, s.e, <<"ok">>)                  \* its start function adds one
    [] o = "ifail" -> IF k # <<>> THEN Res(k, g, TRUE, <<"err", "rej">>)
                      ELSE Res(k, (g + 1) % Mod, TRUE, <<"err", "unreachable">>)  \* adds one, then traps
    [] o = "bad" -> Res(k, g, TRUE, <<"err">>)
    [] o = "set" -> Res(k, 0, s.e, <<>>)
Laws(s, o, r) ==
  /\ Len(r.s.k) <= Depth
  /\ (r.s.k # <<>> => r.s.k[1].e # "L")
  \* a failure leaves every frame below the nearest host boundary exactly as it was
  /\ (r.v # <<>> /\ r.v[1] = "err" => r.s.k = SubSeq(s.k, 1, Len(r.s.k)))
  /\ (Len(r.s.k) < Len(s.k) => r.s.k = SubSeq(s.k, 1, Len(r.s.k)))
  /\ (Len(r.s.k) > Len(s.k) => s.k = SubSeq(r.s.k, 1, Len(s.k)))
Next == \E o \in Ops(st) : LET r == Do(st, o) IN
  /\ Assert(Laws(st, o, r), <<"law broken", st, o, r>>)
  /\ PrintT("@@E@" \o ToJson([f |-> st, o |-> O(o), v |-> r.v, t |-> r.s]))
  /\ st' = r.s
Spec == Init /\ [][Next]_st
=============================================================================
