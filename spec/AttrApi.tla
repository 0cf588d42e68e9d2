------------------------------ MODULE AttrApi ------------------------------
(* What the almanac queries of a date must return (C16).                     *)
EXTENDS DateMachine, Attrs
AttrFacts(n, s) ==
    LET P == PillarsAt(n, s, TermAt(n, s), TermOnOrBefore(n))
        day == P[6]
        hour == P[9]
        mon == P[4]
        lun == LunarOf(n)
        z(i) == Branch(P[i])
    IN [day |-> Attr(day), alias |-> Attr(day), time |-> Attr(hour),
        nayin |-> <<NaYin(P[1]), NaYin(P[4]), NaYin(P[6]), NaYin(P[9])>>,
        xun |-> [i \in 1..9 |-> Xun(P[i])], void |-> [i \in 1..9 |-> XunKong(P[i])],
        pengzu |-> <<Names.pzgan[Stem(day) + 1], Names.pzzhi[Branch(day) + 1]>>,
        officer |-> Officer(Branch(mon), Branch(day)),
        spirit |-> SpiritFacts(Branch(day), Branch(mon)),
        hourspirit |-> SpiritFacts(Branch(hour), Branch(P[7])),
        lodge |-> LodgeFacts(n),
        dukeyear |-> <<Both(DukeYear(z(2))), Both(DukeYear(z(1))), Both(DukeYear(z(2))), Both(DukeYear(z(3)))>>,
        dukemonth |-> <<Both(DukeMonth(Stem(mon), Branch(mon))), Both(DukeMonth(Stem(mon), Branch(mon))), Both(DukeMonth(Stem(mon), Branch(mon))), Both(DukeMonth(Stem(P[5]), Branch(P[5])))>>,
        dukeday |-> <<Both(DukeDay(day, z(2))), Both(DukeDay(day, z(1))), Both(DukeDay(day, z(2))), Both(DukeDay(day, z(3)))>>,
        foetus |-> <<FoetusDay(day), FoetusMonth(lun[2])>>,
        fortune |-> FortuneText(day)]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == LET t == DApply(st, ev) IN AttrFacts(t.n, t.s)
Facts(ev) == AttrFacts(ev.n, ev.s)
=============================================================================
