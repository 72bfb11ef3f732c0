-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line.  A run event holds the command's inputs and outputs   *)
(* and, in e.lib, the library events of the same run in a store of its     *)
(* own, which this specification has already decided.                      *)
(***************************************************************************)
EXTENDS Wasm, Text

\* the function type of an export, or FALSE
FuncExport(mod, n) ==
  LET js == { j \in 1..Len(mod.exports) : mod.exports[j].n = n /\ mod.exports[j].k = "f" }
      nimp == Len(SelectSeq(mod.imps, LAMBDA im : im.k = "f"))
  IN  IF js = {} THEN <<>>
      ELSE LET x == mod.exports[CHOOSE j \in js : TRUE].x IN
           IF x < nimp THEN <<>> ELSE <<mod.types[mod.funcs[x - nimp + 1] + 1]>>

CliFails(e) == e.exit > 0 /\ e.out = <<>>
CliPrints(e, vs) == e.exit = 0 /\ Shown(vs, e.out)
CliRunOk(mod, e) ==
  LET L == e.lib
      started == mod.start >= 0
      k == IF started THEN 4 ELSE 2         \* where the call is, if there is one
      main == e.inv = <<>>
      ft == FuncExport(mod, IF main THEN "_start" ELSE e.inv[1])
      args == IF main THEN <<>> ELSE e.args
  IN  IF e.bad THEN CliFails(e)             \* engine options that are none
      ELSE IF L[1].op = "insterr" THEN CliFails(e)
      ELSE /\ L[1].op = "instok"
           /\ started => L[2].op = "start" /\ L[3].op \in {"ret", "err"}
           /\ IF started /\ L[3].op = "err" THEN CliFails(e)
              ELSE IF main /\ started THEN CliPrints(e, <<>>)
              ELSE IF ft = <<>> THEN CliFails(e)
              ELSE IF (Len(args) # Len(ft[1].p) \/ \E j \in 1..Len(args) : ~ArgOk(args[j], ft[1].p[j])) THEN CliFails(e)
              ELSE /\ Len(L) = k + 1 /\ L[k].op = "call"
                   /\ ~main => Len(L[k].args) = Len(args) /\ \A j \in 1..Len(args) : ArgIs(args[j], L[k].args[j])
                   /\ IF L[k + 1].op = "ret" THEN CliPrints(e, IF main THEN <<>> ELSE L[k + 1].vals) ELSE CliFails(e)

\* compiling: e.src how the input is given, e.dst where the output goes, e.exists whether something is there
CliCompileOk(e) ==
  LET bad == \/ e.src \in {"twasm", "junk", "missing", "twasm-", "junk-", "compiled"}
             \/ e.dst = "default" /\ e.src \in {"wat-", "wasm-", "junk-"}
             \/ e.dst \in {"nodir", "dir"}
      kept == e.exists /\ ~e.force
  IN  /\ IF bad \/ kept THEN e.exit > 0 /\ e.same ELSE e.exit = 0 /\ e.good
      /\ ~e.stray
------------------------------------------------------------------------------
(* Scripts (`wast`).  e.d holds the directives: what kind each is, the file  *)
(* it is in (a store each), what it names, what it expects, and what the     *)
(* library did for it (decided before, in e's own store).                    *)

\* the reason of a trap, as scripts name it
TrapText(k) ==
  CASE k = "unreachable" -> <<117, 110, 114, 101, 97, 99, 104, 97, 98, 108, 101>>    \* unreachable
    [] k = "mem_oob" -> <<111, 117, 116, 32, 111, 102, 32, 98, 111, 117, 110, 100, 115, 32, 109, 101, 109, 111, 114, 121, 32, 97, 99, 99, 101, 115, 115>>    \* out of bounds memory access
    [] k = "table_oob" -> <<111, 117, 116, 32, 111, 102, 32, 98, 111, 117, 110, 100, 115, 32, 116, 97, 98, 108, 101, 32, 97, 99, 99, 101, 115, 115>>    \* out of bounds table access
    [] k = "div_zero" -> <<105, 110, 116, 101, 103, 101, 114, 32, 100, 105, 118, 105, 100, 101, 32, 98, 121, 32, 122, 101, 114, 111>>    \* integer divide by zero
    [] k = "bad_conversion" -> <<105, 110, 118, 97, 108, 105, 100, 32, 99, 111, 110, 118, 101, 114, 115, 105, 111, 110, 32, 116, 111, 32, 105, 110, 116, 101, 103, 101, 114>>    \* invalid conversion to integer
    [] k = "int_overflow" -> <<105, 110, 116, 101, 103, 101, 114, 32, 111, 118, 101, 114, 102, 108, 111, 119>>    \* integer overflow
    [] k = "call_stack" -> <<99, 97, 108, 108, 32, 115, 116, 97, 99, 107, 32, 101, 120, 104, 97, 117, 115, 116, 101, 100>>    \* call stack exhausted
    [] k = "value_stack" -> <<118, 97, 108, 117, 101, 32, 115, 116, 97, 99, 107, 32, 101, 120, 104, 97, 117, 115, 116, 101, 100>>    \* value stack exhausted
    [] k = "oom" -> <<111, 117, 116, 32, 111, 102, 32, 109, 101, 109, 111, 114, 121>>    \* out of memory
    [] k = "undef_elem" -> <<117, 110, 100, 101, 102, 105, 110, 101, 100, 32, 101, 108, 101, 109, 101, 110, 116>>    \* undefined element
    [] k = "uninit_elem" -> <<117, 110, 105, 110, 105, 116, 105, 97, 108, 105, 122, 101, 100, 32, 101, 108, 101, 109, 101, 110, 116>>    \* uninitialized element
    [] k = "sig_mismatch" -> <<105, 110, 100, 105, 114, 101, 99, 116, 32, 99, 97, 108, 108, 32, 116, 121, 112, 101, 32, 109, 105, 115, 109, 97, 116, 99, 104>>    \* indirect call type mismatch
    [] OTHER -> <<>>
Begins(t, s) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Reason(k, msg) == LET t == TrapText(k) IN t # <<>> /\ (Begins(t, msg) \/ Begins(msg, t))

\* does a value match an expectation: "yes", "no", or (NaNs of a different pattern) "any"
FNaN(v) == (v.t = "f32" /\ IsNaN(v.v)) \/ (v.t = "f64" /\ IsNaN(v.v))
\* equal, lane for lane, but for lanes of w bytes that are NaNs in both
NaNLanes(a, b, w) == \A j \in 0..(16 \div w - 1) :
                    LET x == SubSeq(a, w * j + 1, w * j + w)
                        y == SubSeq(b, w * j + 1, w * j + w)
                    IN  x = y \/ (IsNaN(x) /\ IsNaN(y))
Arith(v) == (IF v.t = "f32" THEN (v.v[3] \div 64) ELSE (v.v[7] \div 8)) % 2 = 1     \* the topmost bit of the fraction
Suits(v, p) ==
  CASE p.p = "canon" -> IF ~FNaN(v) \/ v.t # p.x.t THEN "no" ELSE IF IsCanonNaN(v.v) THEN "yes" ELSE "any"
    [] p.p = "arith" -> IF ~FNaN(v) \/ v.t # p.x.t THEN "no" ELSE IF Arith(v) THEN "yes" ELSE "any"
    [] OTHER -> IF p.x = v THEN "yes"
                ELSE IF p.x.t # v.t THEN "no"
                ELSE IF FNaN(v) /\ FNaN(p.x) THEN "any"
                ELSE IF v.t = "v128" /\ (NaNLanes(v.v, p.x.v, 4) \/ NaNLanes(v.v, p.x.v, 8)) THEN "any" ELSE "no"
Either(v, alts) == LET s == { Suits(v, alts[j]) : j \in 1..Len(alts) } IN
                IF "yes" \in s THEN "yes" ELSE IF "any" \in s THEN "any" ELSE "no"
All(vs, exp) == IF Len(vs) # Len(exp) THEN "no"
                ELSE LET s == { Either(vs[j], exp[j]) : j \in 1..Len(vs) } IN
                     IF "no" \in s THEN "no" ELSE IF "any" \in s THEN "any" ELSE "yes"

\* the modules of a script: the last one, those with an identifier, those registered (latest first)
NoModules == [last |-> 0, ids |-> <<>>, regs |-> <<>>]
Look(l, n) == LET js == { j \in 1..Len(l) : l[j][1] = n } IN
              IF js = {} THEN 0 ELSE l[CHOOSE j \in js : \A k \in js : j <= k][2]
Named(s, d) == IF d.id = <<>> THEN s.last ELSE Look(s.ids, d.id[1])
Linked(s, d) == \A n \in { s.regs[j][1] : j \in 1..Len(s.regs) } \cup { d.links[j].m : j \in 1..Len(d.links) } :
                   LET js == { j \in 1..Len(d.links) : d.links[j].m = n } IN
                   Cardinality(js) = 1 /\ \A j \in js : d.links[j].i = Look(s.regs, n)
\* is the library's operation the one this directive stands for
Stands(s, d) == CASE d.k = "module" -> Linked(s, d)
                  [] d.k \in {"invoke", "return", "trap", "exhaustion"} /\ d.act -> d.in = Named(s, d)
                  [] OTHER -> TRUE
Said(b, bad) == CASE b = "unsup" -> "any" [] b = "ok" -> (IF bad THEN "no" ELSE "yes") [] OTHER -> (IF bad THEN "yes" ELSE "no")
YesNo(b) == IF b THEN "yes" ELSE "no"
Holds(s, d, Verd(_)) ==
  CASE d.k = "module" -> YesNo(d.out.k = "inst")
    [] d.k = "register" -> YesNo(Named(s, d) # 0)
    [] d.k = "def" -> Said(Verd(d.b), FALSE)
    [] d.k \in {"malformed", "invalid"} -> Said(Verd(d.b), TRUE)
    [] d.k = "notext" -> "yes"
    [] d.k = "invoke" -> YesNo(d.out.k = "vals")
    [] d.k = "return" -> IF d.out.k # "vals" THEN "no" ELSE All(d.out.vals, d.exp)
    [] d.k \in {"trap", "exhaustion"} -> YesNo(d.out.k = "trap" /\ Reason(d.out.kind, d.msg))
    [] d.k = "unlinkable" -> YesNo(d.out.k = "link")
After(s, d) ==
  IF d.k = "module" /\ d.out.k = "inst" THEN [s EXCEPT !.last = d.in, !.ids = IF d.id = <<>> THEN @ ELSE <<<<d.id[1], d.in>>>> \o @]
  ELSE IF d.k = "register" /\ Named(s, d) # 0 THEN [s EXCEPT !.regs = <<<<d.n, Named(s, d)>>>> \o @]
  ELSE s

\* the verdict on each directive in turn; "?" when the library's operation is not the directive's
Judged(ds, Verd(_)) ==
  FoldLeft(LAMBDA a, d : LET s == IF d.s = a[3] THEN a[1] ELSE NoModules IN
                         <<Strict(After(s, d)), Append(a[2], IF Stands(s, d) THEN Holds(s, d, Verd) ELSE "?"), d.s>>,
           <<NoModules, <<>>, 0>>, ds)[2]
WastOk(e, Verd(_)) ==
  LET r == Judged(e.d, Verd)
      F == { e.fails[j] : j \in 1..Len(e.fails) }
      In(f) == { j \in 1..Len(r) : e.d[j].s = f }
  IN  /\ e.odd = 0 /\ Cardinality(F) = Len(e.fails)
      /\ \A j \in 1..Len(r) : r[j] # "?" /\ (r[j] = "yes" => j \notin F) /\ (r[j] = "no" => j \in F)
      /\ Len(e.groups) = e.nf
      /\ \A f \in 1..e.nf : e.groups[f] = <<Cardinality(In(f) \ F), Cardinality(In(f) \cap F)>>
      /\ e.total = Len(r) /\ e.failed = Cardinality(F) /\ e.passed = Len(r) - Cardinality(F)
      /\ IF F = {} THEN e.exit = 0 ELSE e.exit > 0
=============================================================================
