------------------------------- MODULE Names -------------------------------
(* The vocabulary of the almanac: stems, branches, terms and the tables the   *)
(* tradition fixes (spec/data/names.json).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Names == JsonDeserialize("data/names.json")
GanName(i) == Names.gan[i + 1]
ZhiName(i) == Names.zhi[i + 1]
Animal(i) == Names.shengxiao[i + 1]
TermName(i) == Names.term[i + 1]                  \* 0 Great Snow, 1 Winter Solstice, ...
\* number 0..59 of the pillar with stem g and branch z
Pillar(g, z) == (6 * g - 5 * z) % 60
PillarName(p) == GanName(p % 10) \o ZhiName(p % 12)
=============================================================================
