------------------------------ MODULE TermApi ------------------------------
(* What the solar-term calls must return (C08).                              *)
EXTENDS Terms

TermRec(o, k) == [name |-> TermName(TermNo(k)), at |-> At(o, k), jie |-> IsJie(k), qi |-> ~IsJie(k)]
\* the twelve queries at a moment; k is the term in force
NearFacts(k, n, r) ==
    LET d == TermOnOrBefore(n)
    IN [pa |-> TermRec(r.pa.at, PrevOf("all", k)), na |-> TermRec(r.na.at, NextOf("all", k)),
        pj |-> TermRec(r.pj.at, PrevOf("jie", k)), nj |-> TermRec(r.nj.at, NextOf("jie", k)),
        pq |-> TermRec(r.pq.at, PrevOf("qi", k)), nq |-> TermRec(r.nq.at, NextOf("qi", k)),
        pad |-> TermRec(r.pad.at, PrevOf("all", d)), nad |-> TermRec(r.nad.at, NextOf("all", d)),
        pjd |-> TermRec(r.pjd.at, PrevOf("jie", d)), njd |-> TermRec(r.njd.at, NextOf("jie", d)),
        pqd |-> TermRec(r.pqd.at, PrevOf("qi", d)), nqd |-> TermRec(r.nqd.at, NextOf("qi", d))]
OnFacts(n) ==
    LET k == TermOn(n)
        nm == IF k = 0 THEN "" ELSE TermName(TermNo(k))
        j == k # 0 /\ IsJie(k)
        q == k # 0 /\ ~IsJie(k)
    IN [jieqi |-> nm, jie |-> IF j THEN nm ELSE "", qi |-> IF q THEN nm ELSE "",
        cur |-> nm, curjie |-> IF j THEN nm ELSE "", curqi |-> IF q THEN nm ELSE "",
        flags |-> <<j, q>>]
\* the term table a date of year y carries
TableFacts(y, r) == [names |-> Names.inuse,
                     at |-> [i \in 1..31 |-> At(r.at[i], TermIx(y, i - 1))],
                     joins |-> TRUE]
\* a renamed term object
RenameFacts(t) == [name |-> TermName(t), jie |-> t % 2 = 0, qi |-> t % 2 = 1]

\* A walk from term to term.  k is the term in force at the cursor.
W0 == [k |-> 1, n |-> FIRST, s |-> 0]
Moved(st, ev, k) == LET o == At(ev.res.at, k) IN [k |-> k, n |-> o[1], s |-> o[2]]
WApply(st, ev) ==
    CASE ev.op = "reset" -> [k |-> TermAt(ev.n, ev.s), n |-> ev.n, s |-> ev.s]
      [] ev.op = "next" -> Moved(st, ev, NextOf(ev.kind, st.k))
      [] ev.op = "prev" -> Moved(st, ev, PrevOf(ev.kind, st.k))
      [] ev.op = "before" -> LET t == MAdd(st.n, st.s, -1) IN [k |-> st.k - 1, n |-> t[1], s |-> t[2]]
      [] ev.op = "after" -> LET t == MAdd(st.n, st.s, 1) IN [k |-> st.k, n |-> t[1], s |-> t[2]]
WExpect(st, ev) ==
    LET t == WApply(st, ev)
    IN [at |-> <<t.n, t.s>>, name |-> IF ev.op \in {"next", "prev"} THEN TermName(TermNo(t.k)) ELSE "",
        prev |-> TermName(TermNo(t.k)), next |-> TermName(TermNo(t.k + 1))]

Facts(ev) == CASE ev.op = "near" -> NearFacts(TermAt(ev.n, ev.s), ev.n, ev.res)
               [] ev.op = "termat" -> NearFacts(ev.k + (IF ev.delta < 0 THEN -1 ELSE 0), ev.n, ev.res)
               [] ev.op = "on" -> OnFacts(ev.n)
               [] ev.op = "table" -> TableFacts(ev.y, ev.res)
               [] ev.op = "rename" -> RenameFacts(ev.t)
=============================================================================
