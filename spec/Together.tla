------------------------------ MODULE Together ------------------------------
(* Work done side by side.  Workers take inputs, go over them step by step   *)
(* in a scratch place, and hand over what they made; messages go out of and  *)
(* come into one transport meanwhile.  Where every piece of work has a       *)
(* scratch place and an identifier of its own, each result is what it is     *)
(* alone (Alone); SHARED = TRUE has them share, and must not satisfy it      *)
(* (tools/together.py checks both).  The pieces of work and what each gives  *)
(* alone are the other modules' (SipJudge, SdpJudge, MsgJudge, RtpJudge,     *)
(* NetJudge, TraceDialog): they judge the recordings.                        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS SHARED, WORKERS, INPUTS, COMING

Letters == <<1, 2>>
Alone(i) == [k \in 1..Len(Letters) |-> 10 * i + Letters[k]]

VARIABLES at,       \* worker -> the input it works on (0: none) and the next step
          scratch,  \* place -> what is written there
          next,     \* the next identifier
          done,     \* what came out: input, identifier, result
          todo,     \* inputs nobody has taken
          wire,     \* datagrams that came in
          buf,      \* the receiver's buffer, and whether the application has yet to take what it says
          got       \* what the application was given
vars == <<at, scratch, next, done, todo, wire, buf, got>>

Place(w) == IF SHARED THEN 0 ELSE w
Init == /\ at = [w \in WORKERS |-> <<0, 0, 0>>]
        /\ scratch = [p \in {0} \cup WORKERS |-> <<>>]
        /\ next = 1 /\ done = {} /\ todo = INPUTS
        /\ wire = [k \in 1..COMING |-> k]
        /\ buf = <<>> /\ got = <<>>

Take(w) == /\ at[w][1] = 0
           /\ \E i \in todo : /\ at' = [at EXCEPT ![w] = <<i, 1, next>>]
                              /\ todo' = todo \ {i}
           /\ scratch' = [scratch EXCEPT ![Place(w)] = <<>>]
           /\ next' = IF SHARED THEN next ELSE next + 1  \* SHARED: read now, written when done
           /\ UNCHANGED <<done, wire, buf, got>>
Work(w) == /\ at[w][1] # 0 /\ at[w][2] <= Len(Letters)
           /\ scratch' = [scratch EXCEPT ![Place(w)] = Append(@, 10 * at[w][1] + Letters[at[w][2]])]
           /\ at' = [at EXCEPT ![w][2] = @ + 1]
           /\ UNCHANGED <<next, done, todo, wire, buf, got>>
Give(w) == /\ at[w][1] # 0 /\ at[w][2] > Len(Letters)
           /\ done' = done \cup {[in |-> at[w][1], id |-> at[w][3], out |-> scratch[Place(w)]]}
           /\ at' = [at EXCEPT ![w] = <<0, 0, 0>>]
           /\ next' = IF SHARED THEN at[w][3] + 1 ELSE next
           /\ UNCHANGED <<scratch, todo, wire, buf, got>>
\* The receiver reads the next datagram; before the application has taken the one before only into another place.
Read == /\ wire # <<>>
        /\ IF SHARED THEN buf' = <<Head(wire)>> ELSE buf' = Append(buf, Head(wire))
        /\ wire' = Tail(wire)
        /\ UNCHANGED <<at, scratch, next, done, todo, got>>
Hand == /\ buf # <<>>
        /\ got' = Append(got, Head(buf)) /\ buf' = Tail(buf)
        /\ UNCHANGED <<at, scratch, next, done, todo, wire>>
Next == Read \/ Hand \/ \E w \in WORKERS : Take(w) \/ Work(w) \/ Give(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsAlone == \A d \in done : d.out = Alone(d.in)
Different == \A a, b \in done : a.id = b.id => a = b
Whole == /\ got = [k \in 1..Len(got) |-> k]
         /\ wire = <<>> /\ buf = <<>> => Len(got) = COMING
AllDone == <>(Cardinality(done) = Cardinality(INPUTS) /\ Len(got) = COMING)
=============================================================================
