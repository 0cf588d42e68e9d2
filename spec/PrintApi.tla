------------------------------ MODULE PrintApi ------------------------------
(* What printing must return (C24), given the object's own fields (f) and     *)
(* the answers of its individual queries (p).                                *)
EXTENDS DateMachine, Print
SolarTexts(f) == [text |-> Ymd(f), ymd |-> Ymd(f), clock |-> Clock(f)]
LunarTexts(f) == [text |-> LunarText(f), parts |-> <<LongYear(f[1]), MonthText(f[2]), DayText(f[3])>>]
DateTexts(p) == [solar |-> SolarTexts(p.solar.f), lunar |-> LunarTexts(p.lunar.f), foto |-> LunarTexts(p.foto.f), tao |-> LunarTexts(p.tao.f),
                 solarfull |-> SolarFull(p.solar), lunarfull |-> LunarFull(p.lunar), fotofull |-> FotoFull(p.foto), taofull |-> TaoFull(p.tao)]
W0 == D0
WApply(st, ev) == DApply(st, ev)
\* along a walk the fields come from the walk itself
WExpect(st, ev) == LET t == DApply(st, ev)
                       l == LunarOf(t.n)
                       e == DateTexts(ev.p)
                   IN [e EXCEPT !.solar = SolarTexts(Full(t.n, t.s)), !.lunar = LunarTexts(l),
                                !.foto = LunarTexts(<<l[1] + 544, l[2], l[3]>>), !.tao = LunarTexts(<<l[1] + 2697, l[2], l[3]>>)]
Facts(ev) == CASE ev.op = "print" -> DateTexts(ev.p)
               [] ev.op = "lunarmonth" -> [text |-> LunarMonthText(ev.f[1], ev.f[2], ev.f[3])]
               [] ev.op = "year" -> [texts |-> YearTexts(ev.f[1])]
               [] ev.op = "month" -> [texts |-> MonthTexts(ev.f[1], ev.f[2])]
               [] ev.op = "season" -> [texts |-> SeasonTexts(ev.f[1], ev.f[2])]
               [] ev.op = "half" -> [texts |-> HalfTexts(ev.f[1], ev.f[2])]
               [] ev.op = "week" -> [texts |-> WeekTexts(ev.f[1], ev.f[2], ev.f[3])]
=============================================================================
