------------------------------- MODULE Advice -------------------------------
(* The almanac's advice (C21): what each day and hour is good and bad for,    *)
(* and the spirits about.  AJ holds the almanac's tables: AJ.day[month        *)
(* pillar + 1][day pillar + 1], AJ.time[day pillar + 1][hour branch + 1],     *)
(* AJ.spirit[lunar month][day pillar + 1]; each entry <<good, bad>>.          *)
EXTENDS Pillars
AJ == JsonDeserialize("data/advice.json")
Acts(q) == IF Len(q) = 0 THEN <<"无">> ELSE [i \in 1..Len(q) |-> AJ.acts[q[i]]]
Spirits(q) == IF Len(q) = 0 THEN <<"无">> ELSE [i \in 1..Len(q) |-> AJ.spirits[q[i]]]
DayEntry(mp, dp) == AJ.day[mp + 1][dp + 1]
HourEntry(dp, hp) == AJ.time[dp + 1][(hp % 12) + 1]
SpiritEntry(m, dp) == AJ.spirit[IF m < 0 THEN -m ELSE m][dp + 1]
\* the hour pillar of branch z on a day with pillar dp
HourOf(dp, z) == ((dp % 10) * 12 + z) % 60
DayGood(mp, dp) == Acts(DayEntry(mp, dp)[1])
DayBad(mp, dp) == Acts(DayEntry(mp, dp)[2])
HourGood(dp, hp) == Acts(HourEntry(dp, hp)[1])
HourBad(dp, hp) == Acts(HourEntry(dp, hp)[2])
Lucky(m, dp) == Spirits(SpiritEntry(m, dp)[1])
Unlucky(m, dp) == Spirits(SpiritEntry(m, dp)[2])
=============================================================================
