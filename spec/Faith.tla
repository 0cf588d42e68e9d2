------------------------------- MODULE Faith -------------------------------
(* The Buddhist and the Taoist calendar (C20): the lunar date under another   *)
(* era, with the observances each tradition hangs on it.  FJ holds the tables *)
(* of the tradition (spec/data/faith.json).                                   *)
EXTENDS Pillars
FJ == JsonDeserialize("data/faith.json")
FOTO == 544
TAO == 2697
Mag(m) == IF m < 0 THEN -m ELSE m
MD(m, d) == ToString(m) \o "-" \o ToString(d)
Row(table, key) == IF key \in DOMAIN table THEN table[key] ELSE <<>>
Listed(x, q) == \E i \in 1..Len(q) : q[i] = x

\* ------------------------------------------------------------- Buddhist
\* rules of conduct hold in a leap month too; the remembrance days do not
FotoFest(m, d) == Row(FJ.ffest, MD(Mag(m), d))
FotoOther(m, d) == Row(FJ.fother, MD(m, d))
YangGong(m, d) == \E i \in 1..Len(FotoFest(m, d)) : FotoFest(m, d)[i][1] = "杨公忌"
MonthFast(m) == m \in {1, 5, 9}
FullNew(d) == d \in {1, 15}
\* the last two days of the month whatever its length
Six(d, len) == d \in {8, 14, 15, 23, 29, 30} \/ (d = 28 /\ len # 30)
Ten(d) == d \in {1, 8, 14, 15, 18, 23, 24, 28, 29, 30}
GuanYin(m, d) == Listed(MD(m, d), FJ.guanyin)
LodgeIx(m, d) == (FJ.xiu27at[Mag(m)] + d - 1) % 27
MoonLodge(m, d) == FJ.xiu27[LodgeIx(m, d) + 1]

\* --------------------------------------------------------------- Taoist
TaoFest(m, d) == Row(FJ.tfest, MD(m, d))
ThreeMeet(m, d) == Listed(MD(m, d), FJ.sanhui)
ThreePrime(m, d) == Listed(MD(m, d), FJ.sanyuan)
FiveLa(m, d) == Listed(MD(m, d), FJ.wula)
TermNameOn(n) == LET k == TermOn(n) IN IF k = 0 THEN "" ELSE TermName(TermNo(k))
EightNode(n) == TermNameOn(n) \in DOMAIN FJ.bajie
EightMeet(n) == PillarName(DayPillar(n)) \in DOMAIN FJ.bahui
OpenWu(n) == DayPillar(n) % 10 = 4
DarkWu(m, n) == ZhiName(DayPillar(n) % 12) = FJ.anwu[Mag(m)]
\* amnesty days: by the season of the month branch z
AmnestyPillar(z) == CASE z \in {2, 3, 4} -> Pillar(4, 2) [] z \in {5, 6, 7} -> Pillar(0, 6) [] z \in {8, 9, 10} -> Pillar(4, 8) [] OTHER -> Pillar(0, 0)
Amnesty(z, n) == DayPillar(n) = AmnestyPillar(z)
TaoAll(n) ==
    LET l == LunarOf(n)
        t == TermNameOn(n)
        p == PillarName(DayPillar(n))
    IN TaoFest(l[2], l[3])
       \o (CASE t = "冬至" -> << <<"元始天尊圣诞", "">> >> [] t = "夏至" -> << <<"灵宝天尊圣诞", "">> >> [] OTHER -> <<>>)
       \o (IF t \in DOMAIN FJ.bajie THEN << <<FJ.bajie[t], "">> >> ELSE <<>>)
       \o (IF p \in DOMAIN FJ.bahui THEN << <<FJ.bahui[p], "">> >> ELSE <<>>)
=============================================================================
