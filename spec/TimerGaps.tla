------------------------------ MODULE TimerGaps ------------------------------
(***************************************************************************)
(* C03 says "at the configured interval".  One late packet says nothing    *)
(* (the machine may be busy), and TraceDialog is generous about it.  This  *)
(* module looks at all recordings of a run together: for each kind of wait *)
(*   again    a message until its retransmission, nothing in between       *)
(*   disturbed  the same with other traffic in between                     *)
(*   next     the last transmission until the next server is tried         *)
(*   giveup   the last transmission until the error is reported            *)
(* (and for first and later ones) a fair share of the waits has to be      *)
(* about as long as configured.  A wait of the wrong length for all        *)
(* messages of its kind is a defect; a slow machine is not.                *)
(* Prints "GAPS kind count near" for each kind of wait, "LATE kind" for    *)
(* those that are too long and "HAS n kind" for where these are.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Recs == JsonDeserialize(IOEnv.TRACE_FILE)

\* An entry of a recording as this module needs it: [k, key, t], k = "env" for what the environment did.
Ev(r) == Recs[r].ev
Timed == {"INVITE", "BYE", "resp"}

Waits(r) ==
  LET E == Ev(r)
      Before(i) == {j \in 1..(i - 1) : E[j].k = E[i].k /\ E[j].key = E[i].key}
      Last0(S) == CHOOSE x \in S : \A y \in S : y <= x
      Timing(i) ==
        IF E[i].k \in Timed /\ Before(i) # {}
        THEN LET j == Last0(Before(i))
                 nth == IF Cardinality(Before(i)) = 1 THEN "first" ELSE "later"
             IN << E[i].k \o (IF j = i - 1 THEN " again " ELSE " disturbed ") \o nth, E[i].t - E[j].t >>
        ELSE IF i > 1 /\ E[i].k = "INVITE" /\ E[i-1].k = "INVITE" /\ Before(i) = {}
        THEN << "INVITE next", E[i].t - E[i-1].t >>
        ELSE IF i > 1 /\ E[i].k = "err" /\ E[i-1].k \in Timed
                /\ ~\E j \in 1..(i-1) : E[j].k = "kill"
        THEN << E[i-1].k \o " giveup", E[i].t - E[i-1].t >>
        ELSE << >>
  IN SelectSeq([i \in 1..Len(E) |-> Timing(i)], LAMBDA w : w # << >>)

All == FlattenSeq([r \in 1..Len(Recs) |-> Waits(r)])
Interval == IF Len(Recs) = 0 THEN 1 ELSE Recs[1].interval
Classes == {All[i][1] : i \in 1..Len(All)}
Of(c) == SelectSeq(All, LAMBDA w : w[1] = c)
Near(c) == SelectSeq(Of(c), LAMBDA w : w[2] * 10 <= Interval * 15)

Good(c) == Len(Of(c)) < 4 \/ Len(Near(c)) * 5 >= Len(Of(c))

VARIABLE v
Spec == v = 0 /\ [][FALSE]_v

ASSUME PrintT("WAITS " \o ToString(Len(All)))
ASSUME \A c \in Classes : PrintT("GAPS " \o c \o " " \o ToString(Len(Of(c))) \o " " \o ToString(Len(Near(c))))
ASSUME \A c \in Classes : Good(c) \/ PrintT("LATE " \o c)
ASSUME \A r \in 1..Len(Recs) : \A c \in {Waits(r)[i][1] : i \in 1..Len(Waits(r))} :
         Good(c) \/ PrintT("HAS " \o ToString(r) \o " " \o c)
=============================================================================
