----------------------------- MODULE RtpSettled -----------------------------
(* What the application may rely on when the receiver of an RTP session has *)
(* come to rest, as a function of what has happened: "good" and "bad"       *)
(* packets arriving, frames taken and given back, the socket failing        *)
(* ("expire"), its error taken ("err"), and the two ways to close.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S0 == [q |-> <<>>, offer |-> 0, held |-> 0, st |-> "open", n |-> 0]
RECURSIVE Rest(_)
Rest(s) == IF s.offer # 0 \/ s.held # 0 THEN s
           ELSE IF s.st = "expired" THEN [s EXCEPT !.st = "failing", !.q = <<>>]
           ELSE IF s.st # "open" \/ s.q = <<>> THEN s
           ELSE Rest([s EXCEPT !.offer = s.q[1], !.q = Tail(@)])
Does(s, op) ==
  CASE op = "good" -> Rest([s EXCEPT !.q = Append(@, s.n + 1), !.n = @ + 1])
    [] op = "bad" -> Rest([s EXCEPT !.q = Append(@, 0), !.n = @ + 1])
    [] op = "take" -> [s EXCEPT !.held = s.offer, !.offer = 0]
    [] op = "give" -> Rest([s EXCEPT !.held = 0])
    [] op = "expire" -> Rest([s EXCEPT !.st = "expired"])
    [] op = "err" -> [s EXCEPT !.st = "failed"]
    [] op \in {"close", "cae"} -> [s EXCEPT !.st = "closed", !.q = <<>>, !.offer = 0]
    [] OTHER -> s                              \* looking changes nothing
Reading == {"open", "expired"}
May(s, op) ==
  CASE op \in {"good", "bad"} -> s.st = "open"
    [] op = "expire" -> s.st = "open" /\ s.offer = 0      \* otherwise the receiver may see the packet or the failure first
    [] op = "take" -> s.offer # 0 /\ s.held = 0
    [] op = "peek" -> s.st # "closed" /\ (s.offer = 0 \/ s.held # 0)
    [] op = "noerr" -> s.st \in Reading \cup {"failed"}
    [] op = "give" -> s.held # 0 /\ s.st \in Reading
    [] op = "err" -> s.st = "failing"
    [] op = "close" -> s.st # "closed"
    [] op = "cae" -> s.st = "failed"
Ops == <<"good", "take", "give", "close", "expire", "bad", "err", "cae", "peek", "noerr">>
\* What a look at the frames shows when nothing is on offer.
Nothing(s) == IF s.st \in Reading THEN "none" ELSE "closed"

RECURSIVE Settled0(_, _)
Settled0(s, h) == IF h = <<>> THEN s ELSE Settled0(Does(s, h[1]), Tail(h))
Settled(h) == Settled0(S0, h)

\* Every way to go on from s that ends with closing, with at most d more operations before that and at most k packets.
RECURSIVE Ways(_, _, _)
Ways(s, d, k) ==
  LET Close(op) == IF May(s, op) THEN <<<<op>>>> ELSE <<>>
      RECURSIVE Each(_)
      Each(i) == IF i > Len(Ops) THEN <<>>
                 ELSE LET op == Ops[i] IN
                      (IF op \in {"close", "cae"} \/ ~May(s, op) \/ (op \in {"good", "bad"} /\ s.n >= k) THEN <<>>
                       ELSE LET w == Ways(Does(s, op), d - 1, k) IN [j \in 1..Len(w) |-> <<op>> \o w[j]])
                      \o Each(i + 1)
  IN Close("close") \o Close("cae") \o (IF d = 0 THEN <<>> ELSE Each(1))
=============================================================================
