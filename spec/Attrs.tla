------------------------------- MODULE Attrs -------------------------------
(* Almanac attributes of a pillar (C16, C22): directions of the deities,      *)
(* clash and evil, duty spirits, the day officer, the lodges and the grand    *)
(* duke, as functions of stems (0..9), branches (0..11) and pillars (0..59).  *)
EXTENDS Chart

\* ------------------------------------------------ directions by the stem
Desc(pos) == Names.desc[pos]
Xi(g) == Names.xi[g + 1]
YangGui(g) == Names.yanggui[g + 1]
YinGui(g) == Names.yingui[g + 1]
Fu(g, sect) == IF sect = 1 THEN Names.fu1[g + 1] ELSE Names.fu2[g + 1]
Cai(g) == Names.cai[g + 1]

\* ------------------------------------------------------- clash and evil
\* the opposite branch; the stem that controls (or is controlled) six on
ClashBranch(z) == (z + 6) % 12
ClashStem(g) == (g + 4) % 10
ClashStemTie(g) == LET c == ClashStem(g) IN IF c % 2 = 0 THEN c + 1 ELSE c - 1
ClashText(p) == "(" \o GanName(ClashStem(Stem(p))) \o ZhiName(ClashBranch(Branch(p))) \o ")" \o Animal(ClashBranch(Branch(p)))
\* the branches go in threes (rat, dragon, monkey: south, ...)
Sha(z) == <<"南", "东", "北", "西">>[(z % 4) + 1]

\* ------------------------------------- the attributes a pillar has by itself
Attr(p) ==
    LET g == Stem(p)
        z == Branch(p)
    IN [xi |-> <<Xi(g), Desc(Xi(g))>>, yanggui |-> <<YangGui(g), Desc(YangGui(g))>>, yingui |-> <<YinGui(g), Desc(YinGui(g))>>,
        fu |-> <<Fu(g, 2), Desc(Fu(g, 2)), Fu(g, 1), Desc(Fu(g, 1)), Fu(g, 2), Desc(Fu(g, 2))>>, cai |-> <<Cai(g), Desc(Cai(g))>>,
        chong |-> <<ZhiName(ClashBranch(z)), GanName(ClashStem(g)), GanName(ClashStemTie(g)), Animal(ClashBranch(z)), ClashText(p)>>,
        sha |-> Sha(z), nayin |-> NaYin(p)]

\* --------------------------------------- day officer and the duty spirits
Officer(mz, dz) == Names.zhixing[((dz - mz) % 12) + 1]
\* the green dragon stands at zi in the yin and shen months (or days), two on
\* in the next
DragonAt(z) == 2 * ((z - 2) % 6)
SpiritNo(z, base) == (z - DragonAt(base)) % 12
Spirit(z, base) == Names.tianshen[SpiritNo(z, base) + 1]
Yellow(i) == i \in {0, 1, 4, 5, 7, 10}
SpiritFacts(z, base) == LET i == SpiritNo(z, base)
                        IN <<Spirit(z, base), IF Yellow(i) THEN "黄道" ELSE "黑道", IF Yellow(i) THEN "吉" ELSE "凶">>

\* ------------------------------------------------- the twenty-eight lodges
LodgeNo(n) == (n + 11) % 28                       \* 0 is Horn
Lodge(n) == Names.xiu[LodgeNo(n) + 1]
Luminary(i) == <<"木", "金", "土", "日", "月", "火", "水">>[(i % 7) + 1]
Palace(i) == <<"东", "北", "西", "南">>[i \div 7 + 1]
Guardian(i) == <<"青龙", "玄武", "白虎", "朱雀">>[i \div 7 + 1]
LodgeFacts(n) == LET i == LodgeNo(n)
                     x == Lodge(n)
                 IN <<x, Names.xiuluck[x], Names.xiusong[x], Luminary(i), Names.animal[x], Palace(i), Guardian(i)>>

\* -------------------------------------------------------- the grand duke
DukeYear(z) == Names.taisuiyear[z + 1]
DukeMonth(g, z) == LET k == (z - 2) % 4
                   IN CASE k = 0 -> "艮" [] k = 2 -> "坤" [] k = 3 -> "巽" [] OTHER -> Names.posgan[g + 1]
\* the six days from each zi day belong to the duke's own travels
DukeDay(p, yz) == IF p % 12 < 6 THEN <<"震", "离", "中", "兑", "坎">>[p \div 12 + 1] ELSE DukeYear(yz)
Both(pos) == <<pos, Desc(pos)>>

\* --------------------------------------------- foetus god, day fortune
FoetusDay(p) == Names.taiday[p + 1]
FoetusMonth(m) == IF m < 0 THEN "" ELSE Names.taimonth[m]
\* a stem's fortune lies in the branch where it holds office
Fortune(g) == CHOOSE z \in 0..11 : Stage(g, z) = "临官"
Holders(z) == {g \in 0..9 : Fortune(g) = z}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
HolderText(S) == IF Cardinality(S) = 1 THEN GanName(Least(S)) ELSE GanName(Least(S)) \o "," \o GanName(Least(S \ {Least(S)}))
FortuneText(p) ==
    LET h == Holders(Branch(p))
    IN ZhiName(Fortune(Stem(p))) \o "命互禄" \o (IF h = {} THEN "" ELSE " " \o HolderText(h) \o "命进禄")
=============================================================================
