------------------------------- MODULE Chart -------------------------------
(* The eight-character chart as a function of its four pillars (C10, C12).   *)
(* Stems 0..9, branches 0..11, pillars 0..59.                                *)
EXTENDS Names

Stem(p) == p % 10
Branch(p) == p % 12
IsPillar(g, z) == g % 2 = z % 2

\* ------------------------------------------------------- five elements
\* 0 wood, 1 fire, 2 earth, 3 metal, 4 water; stems go two by two
StemElement(g) == g \div 2
Elements == <<"木", "火", "土", "金", "水">>
BranchElement(z) == CASE z \in {2, 3} -> 0 [] z \in {5, 6} -> 1 [] z \in {8, 9} -> 3
                      [] z \in {0, 11} -> 4 [] OTHER -> 2
WuXing(p) == Elements[StemElement(Stem(p)) + 1] \o Elements[BranchElement(Branch(p)) + 1]

\* ------------------------------------------------------------ ten gods
\* the relation of stem g to the day stem d: which element generates or
\* controls which, and whether their polarity is the same
TenGods == << <<"比肩", "劫财">>, <<"食神", "伤官">>, <<"偏财", "正财">>, <<"七杀", "正官">>, <<"偏印", "正印">> >>
TenGod(d, g) == TenGods[((StemElement(g) - StemElement(d)) % 5) + 1][IF d % 2 = g % 2 THEN 1 ELSE 2]

\* hidden stems of a branch
Hidden(z) == Names.zhihidegan[z + 1]
StemNo(name) == CHOOSE g \in 0..9 : GanName(g) = name
HiddenGods(d, z) == [i \in 1..Len(Hidden(z)) |-> TenGod(d, StemNo(Hidden(z)[i]))]

\* --------------------------------------------------------- life stages
\* the branch where a stem is born; yang stems run forward, yin backward
Birth(g) == <<11, 6, 2, 9, 2, 9, 5, 0, 8, 3>>[g + 1]
Stage(g, z) == Names.changsheng[(IF g % 2 = 0 THEN (z - Birth(g)) % 12 ELSE (Birth(g) - z) % 12) + 1]

\* --------------------------------------------------- nayin, decade, void
NaYin(p) == Names.nayin[p \div 2 + 1]
XunHead(p) == (p \div 10) * 10
Xun(p) == PillarName(XunHead(p))
VoidBranches(p) == <<(XunHead(p) + 10) % 12, (XunHead(p) + 11) % 12>>
XunKong(p) == ZhiName(VoidBranches(p)[1]) \o ZhiName(VoidBranches(p)[2])

\* ------------------------------------------- conception and the palaces
TaiYuan(m) == Pillar((Stem(m) + 1) % 10, (Branch(m) + 3) % 12)
TaiXi(d) == Pillar((Stem(d) + 5) % 10, (13 - Branch(d)) % 12)
\* months are counted from the third branch: yin = 1 .. chou = 12
MonthOf(z) == ((z - 2) % 12) + 1
BranchOf(i) == (i + 1) % 12
TigerStem(y, i) == (Stem(y) * 2 + i + 1) % 10             \* the stem of month i of year y
MingGong(y, m, t) == LET i == ((13 - MonthOf(Branch(m)) - MonthOf(Branch(t))) % 12) + 1
                     IN Pillar(TigerStem(y, i), BranchOf(i))
\* (the body palace in the twelfth place takes the stem from before the first)
ShenGong(y, m, t) == LET i == ((MonthOf(Branch(m)) + Branch(t)) % 12) + 1
                     IN Pillar(TigerStem(y, i % 12), BranchOf(i))
=============================================================================
