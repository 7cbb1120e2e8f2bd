--------------------------- MODULE HostileCompose ---------------------------
(* Calls during which broken messages arrive: for harness/dialogdrv.  Every *)
(* stage of a call, every kind of message, with a header missing or odd, or *)
(* bytes damaged; then a well-formed OPTIONS and BYE.  The first broken      *)
(* message of case i is the i-th of all single edits; more follow.          *)
EXTENDS SipGen, Json, IOUtils, TLC

A0 == IntOf(B(IOEnv.SEED))
Count == IntOf(B(IOEnv.COUNT))
First == IntOf(B(IOEnv.FIRST))
Seed(i) == Sd(Sd(Sd(<<A0 % 46337, 41>>, i % 1000), i \div 1000), 5)

NoURI0 == [u |-> "", a |-> "", lr |-> FALSE]
Peer == [u |-> "bob", a |-> "s1", lr |-> FALSE]
S(e, exp) == [e |-> e, exp |-> exp]
Msg == [from |-> "s1", contact |-> NoURI0, tag |-> "rt1", rr |-> <<>>, sdp |-> "", mf |-> 70]
Resp(st, c, sdp, exp) == [Msg EXCEPT !.contact = c, !.sdp = sdp] @@ [e |-> "resp", st |-> st, att |-> <<"s1", 1>>, exp |-> exp]
Req(m, n, exp) == Msg @@ [e |-> "req", m |-> m, cseq |-> n, exp |-> exp]

Start == S("start", <<"s1">>)
Ring == Resp(180, NoURI0, "", <<"app">>)
Answer == Resp(200, Peer, "p1", <<"app", "app", "s1">>)
Hang == S("hangup", <<"s1">>)
Stages == << <<Start>>, <<Start, Ring>>, <<Start, Ring, Answer>>, <<Start, Ring, Hang>>, <<Start, Answer, Hang>>, <<Start, Answer, Req("INVITE", 6, <<"s1">>)>> >>
Plain == << <<>>, <<"Ringing">>, <<"Ringing", "Answered">>, <<"Ringing">>, <<"Answered">>, <<"Answered">> >>
Peers == << <<>>, <<>>, <<"p1">>, <<>>, <<"p1">>, <<"p1">> >>

Kinds == <<[st |-> 100], [st |-> 180], [st |-> 183], [st |-> 200], [st |-> 202], [st |-> 302], [st |-> 404], [st |-> 487], [st |-> 503], [st |-> 600],
           [m |-> "INVITE"], [m |-> "ACK"], [m |-> "BYE"], [m |-> "OPTIONS"], [m |-> "CANCEL"], [m |-> "REFER"]>>
Heads == <<"Via", "From", "To", "Call-ID", "CSeq", "Contact", "Max-Forwards", "Record-Route", "Content-Type", "Content-Length">>
Put(h, v) == [drop |-> <<h>>, put |-> <<h \o ": " \o v>>]
Drop(hs) == [drop |-> hs, put |-> <<>>]
Odd == [k \in 1..Len(Heads) |-> Drop(<<Heads[k]>>)]
  \o <<Drop(<<"From", "To">>), Drop(<<"Via", "Call-ID">>), Drop(<<"CSeq", "From", "To", "Contact", "Max-Forwards">>), Drop(Heads),
       Drop(<<"From", "To", "Call-ID", "CSeq", "Contact", "Max-Forwards", "Record-Route", "Content-Type", "Content-Length">>),
       Put("Contact", "*"), Put("Contact", "<sip:>"), Put("Contact", "<sip:;lr>"), Put("Contact", "<tel:12>"), Put("Contact", "sip:nowhere.invalid"),
       Put("Record-Route", "<sip:>"), Put("Record-Route", "<sip:;lr>,<sip:a@;lr>"), Put("Route", "<sip:>"), Put("Route", "<sip:127.0.0.1;lr>, <sip:x>"),
       Put("Via", "SIP/2.0/UDP h"), Put("Via", "SIP/2.0/UDP ;branch=z9hG4bK"), Put("Via", "x"), Put("CSeq", "-7 INVITE"), Put("CSeq", "7"), Put("CSeq", "7 "),
       Put("From", "sip:a"), Put("To", "<>"), Put("To", "sip:;tag=a"), Put("Max-Forwards", "-1"), Put("Max-Forwards", "4294967296"),
       Put("Content-Length", "7"), Put("Content-Length", "999999"), Put("Content-Length", "x"), Put("Content-Type", "application/sdp;x"), Put("Content-Type", ""),
       Put("Subject", ""), Put("Require", "everything"), Put("Retry-After", "soon")>>
Sdps == <<"", "p2", "noaudio", "novid", "badsdp", "sdp0">>

Singles == 6 * Len(Kinds) * Len(Odd)
Hostile(k, o, dmg, s) ==
  LET q == Kinds[k]
      c == IF Chance(Sd(s, 3), 70) THEN Peer ELSE NoURI0
      b == Pick(Sdps, Sd(s, 2))
  IN [Msg EXCEPT !.contact = c, !.sdp = b] @@ o @@
     [e |-> "hostile", exp |-> <<>>, att |-> <<"s1", 1>>, cseq |-> 7 + R(Sd(s, 4), 3), pause |-> 5,
      st |-> IF "st" \in DOMAIN q THEN q.st ELSE 0, m |-> IF "m" \in DOMAIN q THEN q.m ELSE "",
      \* damage: what to do, where (in thousandths), with what
      dmg |-> [j \in 1..dmg |-> <<R(Sd(Sd(s, 5), j), 4), R(Sd(Sd(s, 6), j), 1000), R(Sd(Sd(s, 7), j), 256)>>]]
Some(s) == IF Chance(s, 40) THEN Hostile(1 + R(Sd(s, 1), Len(Kinds)), Drop(<<>>), 1 + R(Sd(s, 8), 3), Sd(s, 2))
          ELSE LET x == Pick(Odd, Sd(s, 3)) y == Pick(Odd, Sd(s, 4))
               IN Hostile(1 + R(Sd(s, 1), Len(Kinds)), [drop |-> x.drop \o y.drop, put |-> x.put \o y.put], 0, Sd(s, 2))
Case(i) ==
  LET s == Seed(i)
      n == (i * 1009) % Singles
      g == 1 + (n % 6)   k == 1 + ((n \div 6) % Len(Kinds))   o == 1 + (n \div (6 * Len(Kinds)))
      hs == <<IF i < Singles THEN Hostile(k, Odd[o], 0, Sd(s, 1)) ELSE Some(Sd(s, 1))>> \o [j \in 1..R(Sd(s, 2), 4) |-> Some(Sd(Sd(s, 3), j))]
  IN PrintT("CASE " \o ToJson([id |-> i, cfg |-> [uri |-> Peer, route |-> <<>>, cseq |-> 7, mf |-> 0, totag |-> "", max |-> 1, srv |-> [none |-> <<>>],
                 host |-> [none |-> "s1"], undial |-> <<>>, refuse |-> <<>>, servers |-> <<"s1", "s2">>],
               steps |-> Stages[g] \o hs \o <<[Req("OPTIONS", 500, <<>>) EXCEPT !.mf = 70] @@ [pause |-> 20]>>,
               end |-> "bye", style |-> i % 12, burst |-> FALSE, stage |-> g, states |-> Plain[g], peers |-> Peers[g]]))

VARIABLE n
Init == n = 0
Next == n < Count /\ n' = n + 1 /\ Case(First + n)
Spec == Init /\ [][Next]_n
=============================================================================
