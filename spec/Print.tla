------------------------------- MODULE Print -------------------------------
(* Printed forms (C24): how fields become text, and text fields again.       *)
EXTENDS Almanac, Names
\* f: year, month, day, hour, minute, second
Clock(f) == Ymd(f) \o " " \o Pad2(f[4]) \o ":" \o Pad2(f[5]) \o ":" \o Pad2(f[6])
Digit(i) == Names.number[i + 1]
\* the digits of a year, one by one
YearText(y) == (IF y >= 1000 THEN Digit(y \div 1000) ELSE "") \o (IF y >= 100 THEN Digit((y \div 100) % 10) ELSE "")
               \o (IF y >= 10 THEN Digit((y \div 10) % 10) ELSE "") \o Digit(y % 10)
LongYear(y) == IF y >= 10000 THEN Digit(y \div 10000) \o Digit((y \div 1000) % 10) \o Digit((y \div 100) % 10) \o Digit((y \div 10) % 10) \o Digit(y % 10) ELSE YearText(y)
MonthText(m) == IF m < 0 THEN "闰" \o Names.month[1 - m] ELSE Names.month[m + 1]
DayText(d) == Names.day[d + 1]
LunarText(f) == LongYear(f[1]) \o "年" \o MonthText(f[2]) \o "月" \o DayText(f[3])
\* containers: short and long forms
MonthTexts(y, m) == <<ToString(y) \o "-" \o ToString(m), ToString(y) \o "年" \o ToString(m) \o "月">>
SeasonTexts(y, i) == <<ToString(y) \o "." \o ToString(i), ToString(y) \o "年" \o ToString(i) \o "季度">>
HalfTexts(y, i) == <<ToString(y) \o "." \o ToString(i), ToString(y) \o "年" \o (IF i = 1 THEN "上" ELSE "下") \o "半年">>
YearTexts(y) == <<ToString(y), ToString(y) \o "年">>
WeekTexts(y, m, i) == <<ToString(y) \o "." \o ToString(m) \o "." \o ToString(i), ToString(y) \o "年" \o ToString(m) \o "月第" \o ToString(i) \o "周">>
LunarMonthText(y, m, days) == ToString(y) \o "年" \o MonthText(m) \o "月(" \o ToString(days) \o "天)"

\* ------------------------------------------------------ descriptive texts
RECURSIVE Notes(_, _, _)
Notes(q, i, acc) == IF i > Len(q) THEN acc ELSE Notes(q, i + 1, acc \o " (" \o q[i] \o ")")
\* p: what the individual queries of the same object answered
SolarFull(p) == p.ymdhms \o (IF p.leap THEN " 闰年" ELSE "") \o " 星期" \o p.week \o Notes(p.festivals, 1, "") \o Notes(p.other, 1, "") \o " " \o p.sign \o "座"
Paired(name, q) == " " \o name \o "[" \o q[1] \o "](" \o q[2] \o ")"
LunarFull(p) ==
    p.text \o " " \o p.year[1] \o "(" \o p.year[2] \o ")年" \o " " \o p.month[1] \o "(" \o p.month[2] \o ")月"
    \o " " \o p.day[1] \o "(" \o p.day[2] \o ")日" \o " " \o p.hour[1] \o "(" \o p.hour[2] \o ")时"
    \o " 纳音[" \o p.nayin[1] \o " " \o p.nayin[2] \o " " \o p.nayin[3] \o " " \o p.nayin[4] \o "]" \o " 星期" \o p.week
    \o Notes(p.festivals, 1, "") \o Notes(p.other, 1, "") \o (IF p.term = "" THEN "" ELSE " [" \o p.term \o "]")
    \o " " \o p.lodge[1] \o "方" \o p.lodge[2] \o " 星宿[" \o p.lodge[3] \o p.lodge[4] \o p.lodge[5] \o "](" \o p.lodge[6] \o ")"
    \o " 彭祖百忌[" \o p.pengzu[1] \o " " \o p.pengzu[2] \o "]"
    \o Paired("喜神方位", p.xi) \o Paired("阳贵神方位", p.yanggui) \o Paired("阴贵神方位", p.yingui) \o Paired("福神方位", p.fu) \o Paired("财神方位", p.cai)
    \o " 冲[" \o p.clash \o "]" \o " 煞[" \o p.sha \o "]"
FotoFull(p) == p.text \o Notes(p.festivals, 1, "")
TaoFull(p) == "道歷" \o p.year \o "年，天运" \o p.pillars[1] \o "年，" \o p.pillars[2] \o "月，" \o p.pillars[3] \o "日。" \o p.month \o "月" \o p.day \o "日，" \o p.hour \o "時。"

\* -------------------------------------------------------- read back again
Ch(t, i) == SubSeq(t, i, i)
DigitOf(c) == CHOOSE i \in 0..9 : ToString(i) = c
RECURSIVE ReadNumber(_, _, _)
ReadNumber(t, i, acc) == IF i > Len(t) THEN acc ELSE ReadNumber(t, i + 1, 10 * acc + DigitOf(Ch(t, i)))
ReadClock(t) == [i \in 1..6 |-> LET from == <<1, 6, 9, 12, 15, 18>>[i] IN ReadNumber(SubSeq(t, from, from + (IF i = 1 THEN 3 ELSE 1)), 1, 0)]
YearDigit(c) == CHOOSE i \in 0..9 : Digit(i) = c
RECURSIVE ReadYear(_, _, _)
ReadYear(t, i, acc) == IF Ch(t, i) = "年" THEN <<acc, i>> ELSE ReadYear(t, i + 1, 10 * acc + YearDigit(Ch(t, i)))
ReadLunar(t) ==
    LET y == ReadYear(t, 1, 0)
        leap == Ch(t, y[2] + 1) = "闰"
        j == IF leap THEN y[2] + 2 ELSE y[2] + 1
        m == CHOOSE i \in 1..12 : Names.month[i + 1] = Ch(t, j)
        d == CHOOSE i \in 1..30 : Names.day[i + 1] = SubSeq(t, j + 2, Len(t))
    IN <<y[1], IF leap THEN -m ELSE m, d>>
=============================================================================
