-------------------------- MODULE YearCacheProof --------------------------
(* The cache design is right for any number of threads, years, requests and   *)
(* parts: an inductive invariant proved with TLAPS (TLC explores YearCache    *)
(* itself for three threads, with liveness).                                  *)
EXTENDS YearCache, TLAPS
ASSUME Given == /\ Threads \subseteq Nat \ {0} /\ Years \subseteq Nat \ {0}
                /\ Requests \in Nat /\ Parts \in Nat \ {0}
                /\ ReleaseOnFailure = TRUE /\ PublishWhole = TRUE /\ Locked = TRUE
States == {"idle", "wait", "look", "build", "store", "take", "leave"}
Held == {"look", "build", "store", "take", "leave"}
Obj == [year : Nat, parts : Nat]
TypeOK == /\ pc \in [Threads -> States]
          /\ want \in [Threads -> Years \cup {0}]
          /\ left \in [Threads -> Nat]
          /\ lock \in Threads \cup {0}
          /\ cache \in Obj
          /\ mine \in [Threads -> Obj]
Own == \A t \in Threads : pc[t] \in Held => lock = t
Held0 == lock # 0 => pc[lock] \in Held
Asking == \A t \in Threads : pc[t] # "idle" => want[t] \in Years
Whole == cache = None \/ (cache.parts = Parts /\ cache.year \in Years)
Building == \A t \in Threads : pc[t] = "build" => mine[t].year = want[t] /\ mine[t].parts < Parts
Built == \A t \in Threads : pc[t] \in {"store", "leave"} => mine[t].year = want[t] /\ mine[t].parts = Parts
Taking == \A t \in Threads : pc[t] = "take" => cache.year = want[t]
Inv == TypeOK /\ Own /\ Held0 /\ Asking /\ Whole /\ Building /\ Built /\ Taking /\ OwnYear

LEMMA Start == Init => Inv
  BY Given DEF Init, Inv, TypeOK, Own, Held0, Asking, Whole, Building, Built, Taking, OwnYear, None, States, Held, Obj

LEMMA Keep == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Given DEF Inv, TypeOK, Own, Held0, Asking, Whole, Building, Built, Taking, OwnYear, None, States, Held, Obj
<1>1 ASSUME NEW t \in Threads, Call(t) PROVE Inv'
  BY <1>1 DEF Call
<1>2 ASSUME NEW t \in Threads, Acquire(t) PROVE Inv'
  BY <1>2 DEF Acquire
<1>3 ASSUME NEW t \in Threads, Look(t) PROVE Inv'
  BY <1>3 DEF Look
<1>4 ASSUME NEW t \in Threads, Build(t) PROVE Inv'
  BY <1>4 DEF Build
<1>5 ASSUME NEW t \in Threads, Fail(t) PROVE Inv'
  BY <1>5 DEF Fail
<1>6 ASSUME NEW t \in Threads, Store(t) PROVE Inv'
  BY <1>6 DEF Store
<1>7 ASSUME NEW t \in Threads, Take(t) PROVE Inv'
  BY <1>7 DEF Take
<1>8 ASSUME NEW t \in Threads, Leave(t) PROVE Inv'
  BY <1>8 DEF Leave
<1>9 ASSUME UNCHANGED vars PROVE Inv'
  BY <1>9 DEF vars
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9 DEF Next, Step

\* one request at a time
Alone == \A t, u \in Threads : pc[t] \in Held /\ pc[u] \in Held => t = u
THEOREM Safe == Spec => [](OwnYear /\ CacheWhole /\ Alone)
<1>1 Inv => OwnYear /\ CacheWhole /\ Alone
  BY DEF Inv, Whole, CacheWhole, Alone, Own
<1> QED
  BY <1>1, Start, Keep, PTL DEF Spec
=============================================================================
