------------------------------ MODULE Holidays ------------------------------
(* The holiday store: a map from days (yyyymmdd numbers) to records           *)
(* <<name number, works, festival day>>, the names in use, and the working    *)
(* calendar the store induces on the civil timeline.                          *)
EXTENDS Civil, Json
HolidayData == JsonDeserialize("data/holidays.json")
Code(dt) == dt[1] * 10000 + dt[2] * 100 + dt[3]
DateOfCode(c) == <<c \div 10000, (c \div 100) % 100, c % 100>>
BuiltInDays == {HolidayData.records[i][1] : i \in 1..Len(HolidayData.records)}
BuiltIn == [d \in BuiltInDays |->
              LET i == CHOOSE j \in 1..Len(HolidayData.records) : HolidayData.records[j][1] = d
                  r == HolidayData.records[i]
              IN <<r[2], r[3], r[4]>>]
Store0 == [recs |-> BuiltIn, names |-> HolidayData.names]

\* one correction r = [day, idx, work, target, remove]
Put(recs, r) == IF r.remove THEN [d \in DOMAIN recs \ {r.day} |-> recs[d]]
                ELSE [d \in DOMAIN recs \cup {r.day} |-> IF d = r.day THEN <<r.idx, r.work, r.target>> ELSE recs[d]]
RECURSIVE PutAll(_, _, _)
PutAll(recs, batch, i) == IF i > Len(batch) THEN recs ELSE PutAll(Put(recs, batch[i]), batch, i + 1)
\* a call of fix: an empty list of names keeps the names in use
Fix(st, names, batch) == [recs |-> PutAll(st.recs, batch, 1), names |-> IF names = <<>> THEN st.names ELSE names]

\* queries
DaysOfMonth(st, y, m) == SelectSeq([d \in 1..31 |-> y * 10000 + m * 100 + d], LAMBDA c : c \in DOMAIN st.recs)
DaysOfYear(st, y) == SelectSeq([i \in 1..372 |-> y * 10000 + ((i - 1) \div 31 + 1) * 100 + ((i - 1) % 31) + 1], LAMBDA c : c \in DOMAIN st.recs)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
DaysOfTarget(st, t) == Ascending({d \in DOMAIN st.recs : st.recs[d][3] = t})
\* what is shown of a record
View(st, d) == LET r == st.recs[d] IN <<Ymd(DateOfCode(d)), st.names[r[1] + 1], r[2], Ymd(DateOfCode(r[3]))>>
Views(st, days) == [i \in 1..Len(days) |-> View(st, days[i])]
ViewText(v) == v[1] \o " " \o v[2] \o (IF v[3] THEN "调休" ELSE "") \o " " \o v[4]

\* ------------------------------------------------------- the working calendar
Works(recs, n) == LET c == Code(DateOf(n)) IN IF c \in DOMAIN recs THEN recs[c][2] ELSE Weekday(n) \in 1..5
RECURSIVE NthWork(_, _, _, _)
NthWork(recs, n, dir, k) == IF k = 0 THEN n
                            ELSE LET t == n + dir IN NthWork(recs, t, dir, IF Works(recs, t) THEN k - 1 ELSE k)
WorkStep(recs, n, k) == IF k >= 0 THEN NthWork(recs, n, 1, k) ELSE NthWork(recs, n, 0 - 1, 0 - k)
=============================================================================
