------------------------------ MODULE MC_Purity ------------------------------
(* How answers can go wrong.  Dates keep a lazily made chart whose convention *)
(* can be switched; a class-level slot caches one computed year; lists are    *)
(* handed out to a caller who may alter them.  Design "pure" must give every  *)
(* answer as a function of the object's value; each other design breaks it.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Design, Objects, Values
VARIABLES val,        \* object -> value
          sect,       \* the convention the object's chart was switched to
          chart,      \* object -> id of its chart, 0 none yet
          chartsect,  \* chart id -> convention
          slot,       \* cached year: <<value>> or <<>>
          table,      \* value -> list of the festival table
          handed,     \* the list the caller last got: <<value, shared with table?>>
          answer      \* last answer <<what was asked, object, answer>>
vars == <<val, sect, chart, chartsect, slot, table, handed, answer>>
Charts == 1..Cardinality(Objects)
YearOf(v) == v \div 2
Init == /\ val \in [Objects -> Values]
        /\ sect = [o \in Objects |-> 2]
        /\ chart = [o \in Objects |-> 0]
        /\ chartsect = [c \in Charts |-> 2]
        /\ slot = <<>>
        /\ table = [v \in Values |-> <<v>>]
        /\ handed = <<0, FALSE>>
        /\ answer = <<"none", 0, 0>>
\* the chart of o, made on first use; "shared" keys charts by value
Pick(o) == IF chart[o] # 0 THEN chart[o]
           ELSE IF Design = "sharedchart" /\ \E p \in Objects : val[p] = val[o] /\ chart[p] # 0 THEN chart[CHOOSE p \in Objects : val[p] = val[o] /\ chart[p] # 0]
           ELSE CHOOSE c \in Charts : \A p \in Objects : chart[p] # c
AskChart(o) == /\ LET c == Pick(o)
                  IN /\ chart' = [chart EXCEPT ![o] = c]
                     /\ answer' = <<"chart", o, chartsect[c]>>
               /\ UNCHANGED <<val, sect, chartsect, slot, table, handed>>
Switch(o, k) == /\ LET c == Pick(o)
                   IN /\ chart' = [chart EXCEPT ![o] = c]
                      /\ chartsect' = [chartsect EXCEPT ![c] = k]
                /\ sect' = [sect EXCEPT ![o] = k]
                /\ answer' = <<"none", 0, 0>>
                /\ UNCHANGED <<val, slot, table, handed>>
\* the year through the one-slot cache; "stalekey" compares years too loosely
AskYear(o) == LET y == YearOf(val[o])
                  hit == slot # <<>> /\ (IF Design = "stalekey" THEN slot[1] % 2 = y % 2 ELSE slot[1] = y)
              IN /\ slot' = IF hit THEN slot ELSE <<y>>
                 /\ answer' = <<"year", o, IF hit THEN slot[1] ELSE y>>
                 /\ UNCHANGED <<val, sect, chart, chartsect, table, handed>>
\* a festival list; "aliased" hands out the table's own list
AskList(o) == /\ answer' = <<"list", o, table[val[o]]>>
              /\ handed' = <<val[o], Design = "aliased">>
              /\ UNCHANGED <<val, sect, chart, chartsect, slot, table>>
Alter == /\ handed[1] # 0
         /\ table' = IF handed[2] THEN [table EXCEPT ![handed[1]] = <<0>>] ELSE table
         /\ answer' = <<"none", 0, 0>>
         /\ handed' = <<0, FALSE>>
         /\ UNCHANGED <<val, sect, chart, chartsect, slot>>
\* asking moves nothing; "drift" lets a step change the object itself
Step(o) == /\ val' = IF Design = "drift" THEN [val EXCEPT ![o] = IF @ + 1 \in Values THEN @ + 1 ELSE @] ELSE val
           /\ answer' = <<"none", 0, 0>>
           /\ UNCHANGED <<sect, chart, chartsect, slot, table, handed>>
Next == \E o \in Objects : AskChart(o) \/ AskYear(o) \/ AskList(o) \/ Step(o) \/ \E k \in {1, 2} : Switch(o, k) \/ Alter
Spec == Init /\ [][Next]_vars
Pure == CASE answer[1] = "chart" -> answer[3] = sect[answer[2]]
          [] answer[1] = "year" -> answer[3] = YearOf(val[answer[2]])
          [] answer[1] = "list" -> answer[3] = <<val[answer[2]]>>
          [] OTHER -> TRUE
Stay == [][val' = val]_vars
=============================================================================
