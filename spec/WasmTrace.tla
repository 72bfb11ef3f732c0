----------------------------- MODULE WasmTrace -----------------------------
(***************************************************************************)
(* Trace validation: every case of a file recorded from the implementation *)
(* must be a behaviour of Embed/Wasm.  Each case is one initial state; the *)
(* internal (guest) steps are the specification's own, the embedder events *)
(* must match the recorded ones.  A case whose last event is consumed      *)
(* prints DONE; a case that never prints DONE is rejected.                 *)
(***************************************************************************)
EXTENDS Embed, Json, IOUtils

File == ndJsonDeserialize(IOEnv.CASES)   \* evaluated once: TLC caches it
Load == File

VARIABLES l, m
vars == <<l, m>>

Case == Cases[m.c]
Ev == Case.ev[l]
AtEnd == l > Len(Case.ev)
NextOp == IF AtEnd THEN "" ELSE Ev.op
OverflowNext == ~AtEnd /\ "kind" \in DOMAIN Ev /\ Ev.kind \in {"call_stack", "value_stack"}
Cap == 60000
Say(what, x) == PrintT("@@" \o what \o "@" \o Case.id \o "@" \o ToString(x))

\* the configured call depth limit may or may not count the entry frame
Limits(c) == IF Cases[c].lim = 0 THEN {1024} ELSE {Cases[c].lim - 1, Cases[c].lim, Cases[c].lim + 1}

Init == /\ l = 1
        /\ \E c \in 1..Len(Cases) : \E lim \in Limits(c) : m = InitMachine(c, lim, Cases[c].ns)

\* guest instructions: as many as possible, or one at a time while abandonment is being explored
Guest ==
  /\ ~AtEnd
  /\ m.cur.k = "w"
  /\ l' = l
  /\ \/ /\ m.run /\ NextOp # "susp"
        /\ IF m.n > Cap THEN Say("RUNAWAY", <<l>>) /\ FALSE
           ELSE IF m.cur.sk = "must" \/ (m.cur.sk = "may" /\ OverflowNext)
                THEN m' \in Steps(m) \cup (IF OverflowNext THEN Overflow(m, Ev.kind) ELSE {})
           ELSE IF InstrAt(m).g = "r" THEN m' \in Steps(m)
           ELSE m' = RunDet(m, 100, OverflowNext)
     \/ /\ ~m.run /\ NextOp = "rdrop" /\ m.fuel.sus > 0 /\ Ev.nd
        /\ m.n < m.fuel.n0 + 3000
        /\ m.fuel.nest \/ m.n - m.fuel.n0 <= m.fuel.most
        /\ m' \in Steps(m)

Show == CASE m.cur.k = "w" -> <<"guest", m.cur.fi, m.cur.pc, m.n>>
          [] m.cur.k = "h" -> <<"host", m.cur.ph, m.cur.f, m.cur.args>>
          [] m.cur.k \in {"c", "i", "r"} -> <<"outcome", m.cur.k, m.cur.out, m.cur.dn>>
          [] NextOp = "obs" ->       \* the first object that differs, and what the model holds
               LET bad == SelectSeq(Ev.l, LAMBDA q : ~ObsOne(m, q).ok) IN
               IF bad = <<>> THEN <<m.cur.k>>
               ELSE LET q == bad[1]
                        a == m.O[q.o][2]
                    IN  <<"holds", q.k, q.o, IF q.k = "g" THEN m.S.g[a].v ELSE IF q.k = "t" THEN m.S.t[a].el
                          ELSE <<m.S.m[a].pg, m.S.m[a].ch>> >>
          [] OTHER -> <<m.cur.k>>

Event ==
  /\ ~AtEnd
  /\ m.cur.k # "inc"
  /\ m.cur.k = "w" => NextOp \in {"susp", "rdrop", "rnewok", "res"} /\ (NextOp # "susp" => ~m.run)
  /\ LET next == EvStep(m, Ev) IN
     IF next = {} THEN Say("MISMATCH", <<l, Ev.op, m.lim, Show>>) /\ FALSE
     ELSE /\ m' \in next
          /\ l' = l + 1
          /\ l = Len(Case.ev) => Say("DONE", <<>>)

\* The outcome is not determined here (NaN bits, sizes beyond the model): nothing is
\* claimed about the values that follow, but the implementation must still not fail.
Fatal == {"panic", "crash", "hang", "refused"}
Unknown == /\ ~AtEnd
           /\ m.cur.k = "inc"
           /\ LET fs == { j \in l..Len(Case.ev) : Case.ev[j].op \in Fatal } IN
              fs # {} => Say("MISMATCH", <<CHOOSE j \in fs : TRUE, "fatal", m.lim, Show>>) /\ FALSE
           /\ LET js == IF Case.indep THEN { j \in l+1..Len(Case.ev) : Case.ev[j].op = "call" } ELSE {} IN
              IF js # {}        \* calls that do not depend on each other: go on with the next one
              THEN /\ Say("SKIP", <<l>>)
                   /\ l' = CHOOSE j \in js : \A k \in js : j <= k
                   /\ m' = [m EXCEPT !.cur = m.st[1], !.st = <<>>, !.dep = 0, !.n = 0, !.w = 0]
              ELSE /\ IF Case.indep THEN Say("DONE", <<>>) ELSE Say("INC", <<l>>)
                   /\ l' = Len(Case.ev) + 1
                   /\ m' = m

Next == Guest \/ Event \/ Unknown
Spec == Init /\ [][Next]_vars
=============================================================================
