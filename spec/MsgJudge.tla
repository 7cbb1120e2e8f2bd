------------------------------ MODULE MsgJudge ------------------------------
(* Judges recordings of harness/msgdrv against MsgSpec, one state each.     *)
EXTENDS MsgSpec, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.REC)
Want == IOEnv.PROP
Fail(r, prop, why, what) ==
  IF Want = "all" \/ Want = prop
  THEN PrintT("FAIL " \o ToJson([id |-> r.id, prop |-> prop, why |-> why, what |-> what])) ELSE TRUE
Say(r, prop, why, what) == IF what = {} THEN TRUE ELSE Fail(r, prop, why, what)
Fields(m) == DOMAIN m
Differ(a, b) == {f \in Fields(a) : a[f] # b[f]}

Died(r) == r.res.state \in {"panic", "hang"}

Populate(r) ==
  LET m == r.msg   o == r.res IN
  IF Died(r) THEN Fail(r, "C15", "completing a message: " \o o.state, {})
  ELSE /\ Say(r, "C15", "completing a message changed the transport or shared parts",
              {f \in {"via", "contact"} : o[f] # r[f]} \cup (IF o.oldvia = m.via /\ o.oldfrom = m.from THEN {} ELSE {"shared"}))
       /\ IF m.req THEN Say(r, "C15", "wrongly completed", Uncompleted(r.via, r.contact, m, o.msg))
          ELSE Say(r, "C15", "a response was touched", Differ(m, o.msg))

\* Routes: host and port, where no port may be given as the default.
DestOk(d, o) == o.host = d.host /\ (DigitsOf(o.port) = d.port \/ (d.port = Zero /\ o.port = 5060))
Route(r) ==
  LET m == r.msg   o == r.res
      e == IF m.req THEN RouteReq(r.contact, m) ELSE RouteRsp(r.via, m)
      prop == IF m.req THEN "C14" ELSE "C13"
  IN IF Died(r) THEN Fail(r, prop, "routing: " \o o.state, {})
     ELSE IF e.d.ok # (o.state = "ok") THEN Fail(r, prop, IF e.d.ok THEN "routing fails" ELSE "routing must fail", {})
     ELSE IF ~e.d.ok THEN TRUE
     ELSE /\ IF ~DestOk(e.d, o) THEN Fail(r, prop, "sent to the wrong place", {}) ELSE TRUE
          /\ Say(r, prop, "routing changes the message", Differ(e.m, o.msg))
          /\ Say(r, prop, "routing changed the transport", {f \in {"via", "contact"} : o[f] # r[f]})
          \* Requests of one dialog share its route set.
          /\ IF o.oldroute # m.route THEN Fail(r, "C15", "routing a request changed the list of routes it was given", {}) ELSE TRUE

Derive(r) ==
  LET m == r.msg   o == r.res  d == o.msg IN
  IF o.state # "ok" THEN Fail(r, "C16", "deriving: " \o o.state, {})
  ELSE /\ Say(r, "C16", r.fn, CASE r.fn = "response" -> WrongResponse(m, r.status, d)
                                [] r.fn = "ack" -> WrongAck(m, r.other, d)
                                [] r.fn = "cancel" -> WrongCancel(m, d)
                                [] r.fn = "bye" -> WrongBye(m, r.other, r.lseq, d)
                                [] r.fn = "bye0" -> WrongBye(m, r.other, IntOf(r.other.cseq), d)
                                [] r.fn = "request" -> WrongRequest(r.via, r.contact, m.method, m.to, r.addrs, d))
       /\ Say(r, "C16", "deriving a message changed its source", Differ(m, o.again) \cup (IF "again2" \in DOMAIN o THEN Differ(r.other, o.again2) ELSE {}))
       /\ IF r.fn = "bye" /\ o.lseq # r.lseq + 1 THEN Fail(r, "C16", "the BYE did not advance the sequence number", {}) ELSE TRUE

Match(r) ==
  LET e == IF r.fn = "ack" THEN AckMatches(r.msg, r.other) ELSE Matches(r.msg, r.other) IN
  IF r.res.state # "ok" THEN Fail(r, "C16", "matching: " \o r.res.state, {})
  ELSE IF r.res.match # e THEN Fail(r, "C16", IF e THEN "does not match what it must" ELSE "matches what it must not", {r.fn}) ELSE TRUE

CopyJ(r) ==
  LET c == r.res.copy
      S(q) == {q[i] : i \in 1..Len(q)} IN
  IF r.res.state # "ok" THEN Fail(r, "C31", "copying: " \o r.res.state, {})
  ELSE /\ IF ~c.same THEN Fail(r, "C31", "the copy differs from the original", {}) ELSE TRUE
       /\ Say(r, "C31", "copy and original share objects", S(c.shared))
       /\ Say(r, "C31", "a change shows on the other side", S(c.leaks))

\* Resolution: a sequence of groups of addresses; the order within a group is free.
V6Text(h) == \E i \in 1..Len(B(h)) : B(h)[i] = 58
Joined(h, p) == (IF V6Text(h) THEN "[" \o h \o "]" ELSE h) \o ":" \o ToString(p)
LowerStr == [n \in {"NAME.example"} |-> "name.example"]
Resolution(r) ==
  LET h == r.host
      low == IF h = "NAME.example" THEN "name.example" ELSE h
      numeric == V6Text(h) \/ IsV4(B(h))
      as == {r.dns.a[i] : i \in {j \in 1..Len(r.dns.a) : r.dns.a[j].name = low}}
      p == IF r.port = 0 THEN 5060 ELSE r.port
      srv == {r.dns.srv[i] : i \in 1..Len(r.dns.srv)}
      prios == {x.prio : x \in srv}
      RECURSIVE Groups(_)
      Groups(P) == IF P = {} THEN <<>> ELSE LET q == CHOOSE x \in P : \A y \in P : x <= y
                                            IN <<{Joined(x.target, x.port) : x \in {y \in srv : y.prio = q}}>> \o Groups(P \ {q})
  IN IF numeric THEN <<{Joined(h, p)}>>
     ELSE IF r.port = 0 /\ r.want /\ srv # {} THEN Groups(prios)
     ELSE IF as # {} THEN <<{Joined((CHOOSE a \in as : TRUE).ip, p)}>>
     ELSE <<>>
\* Go writes SRV targets with a dot at the end.
Undot(t) == LET c == B(t)
                ds == {i \in 2..Len(c) : c[i] = 58 /\ c[i - 1] = 46}
            IN IF ds = {} THEN c ELSE LET d == CHOOSE i \in ds : TRUE IN Sub(c, 1, d - 2) \o From(c, d)
RECURSIVE Fits(_, _)
Fits(gs, rs) == IF gs = <<>> THEN rs = <<>>
                ELSE LET n == Cardinality(gs[1]) IN
                     /\ Len(rs) >= n
                     /\ {Undot(rs[i]) : i \in 1..n} = {B(t) : t \in gs[1]}
                     /\ Fits(Tail(gs), SubSeq(rs, n + 1, Len(rs)))
Resolve(r) ==
  LET e == Resolution(r)   o == r.res IN
  IF Died(r) THEN Fail(r, "C32", "resolving: " \o o.state, {})
  ELSE IF (e = <<>>) # (o.state = "error") THEN Fail(r, "C32", IF e = <<>> THEN "an unresolvable name resolves" ELSE "does not resolve", {})
  ELSE IF e # <<>> /\ ~Fits(e, o.routes) THEN Fail(r, "C32", "resolves to something else", {o.routes[i] : i \in 1..Len(o.routes)}) ELSE TRUE

Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
\* The third goroutine's requests share their Via and From; nothing generated may show there.
IdsJ(r) ==
  LET o == r.res  k == o.ids
      Good(G(_), q) == \A i \in 1..Len(q) : G(B(q[i])) IN
  IF o.state # "ok" THEN Fail(r, "C15", "completing messages: " \o o.state, {})
  ELSE /\ IF ~Distinct(k.branch) THEN Fail(r, "C15", "requests share a branch", {}) ELSE TRUE
       /\ IF ~Distinct(k.tag) THEN Fail(r, "C15", "requests share a tag", {}) ELSE TRUE
       /\ IF ~Distinct(k.callid) THEN Fail(r, "C15", "requests share a Call-ID", {}) ELSE TRUE
       /\ IF Len(k.branch) # 4 * r.n \/ ~Good(GoodBranch, k.branch) THEN Fail(r, "C15", "ill-formed branch", {}) ELSE TRUE
       /\ IF Len(k.tag) # 4 * r.n \/ ~Good(GoodTag, k.tag) THEN Fail(r, "C15", "ill-formed tag", {}) ELSE TRUE
       /\ IF Len(k.callid) # 4 * r.n \/ ~Good(GoodCallID, k.callid) THEN Fail(r, "C15", "ill-formed Call-ID", {}) ELSE TRUE
       /\ Say(r, "C15", "completing messages changed the transport or what they share",
              {f \in {"via", "contact"} : o[f] # r[f]} \cup (IF o.oldvia = r.via /\ o.oldfrom = r.contact THEN {} ELSE {"shared"}))

-----------------------------------------------------------------------------
(* C35: helpers.                                                            *)
Backwards(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
LastOf(q) == IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>
Found(ps, n) == LET H == {k \in 1..Len(ps) : Lower(ps[k][1]) = Lower(n)} IN IF H = {} THEN <<<<>>, <<>>>> ELSE ps[CHOOSE k \in H : TRUE]
SameBranch(v, w) == LET a == Found(v.par, B("branch"))   b == Found(w.par, B("branch")) IN a[1] # <<>> /\ b[1] # <<>> /\ a[2] = b[2]
Table(q, p, F(_, _)) == [i \in 1..Len(q) |-> [j \in 1..Len(p) |-> F(q[i], p[j])]]
IsTable(t, q, p, F(_, _)) == Len(t) = Len(q) /\ \A i \in 1..Len(q) : (p = <<>> \/ (Len(t[i]) = Len(p) /\ \A j \in 1..Len(p) : t[i][j] = F(q[i], p[j])))
\* One more parameter, and all else as before.
Added(old, new, name, Good(_)) ==
  LET H == {k \in 1..Len(new) : Lower(new[k][1]) = name} IN
  \E k \in H : Good(new[k][2]) /\ Sub(new, 1, k - 1) \o From(new, k + 1) = old
ListsJ(r) ==
  LET o == r.res.lists   q == r.addrs   p == r.contact   f == r.msg.from[1]
      U(a, b) == SameUriHP(a.uri, b.uri)
      W(ok, what) == IF ok THEN {} ELSE {what} IN
  IF r.res.state # "ok" THEN Fail(r, "C35", "helpers: " \o r.res.state, {})
  ELSE /\ Say(r, "C35", "lists", W(o.len = Len(q), "length") \cup W(o.last = LastOf(q), "last") \cup W(o.rev = Backwards(q), "reversed") \cup W(o.addrs = q, "changed")
                \cup W(o.or = (IF q = <<>> THEN p ELSE q), "or") \cup W(o.vlast = LastOf(r.via), "last Via") \cup W(o.detach = Sub(r.via, 1, 1), "detached")
                \cup W(o.vias = r.via, "Vias changed") \cup W(o.kept, "which part"))
       /\ Say(r, "C35", "comparisons", W(IsTable(o.cmpa, q, p, U), "addresses") \cup W(IsTable(o.cmpu, q, p, U), "URIs") \cup W(IsTable(o.cmpv, r.via, r.vias2, SameViaHP), "Vias")
                \cup W(IsTable(o.cmpb, r.via, r.vias2, SameBranch), "branches") \cup W(\A k \in 1..Len(o.nil) : ~o.nil[k], "with nothing"))
       /\ Say(r, "C35", "ports", W([k \in 1..Len(q) |-> UriPort(q[k].uri)] = [k \in 1..Len(o.ports) |-> DigitsOf(o.ports[k])], "URI")
                \cup W([k \in 1..Len(r.via) |-> Or5060(r.via[k].port)] = [k \in 1..Len(o.vports) |-> DigitsOf(o.vports[k])], "Via"))
       /\ Say(r, "C35", "lookups", {r.names[k] : k \in {j \in 1..Len(r.names) : o.get[j] # <<Found(f.par, r.names[j]), Found(f.uri.par, r.names[j]), Found(f.uri.hdr, r.names[j]), Found(r.msg.x, r.names[j])>>}})
       /\ Say(r, "C35", "additions", W(q = <<>> \/ (Len(o.tag) = Len(q) /\ [o.tag EXCEPT ![1].par = <<>>] = [q EXCEPT ![1].par = <<>>] /\ Added(q[1].par, o.tag[1].par, B("tag"), GoodTag)), "tag")
                \cup W(r.via = <<>> \/ (Len(o.branch) = Len(r.via) /\ [o.branch EXCEPT ![1].par = <<>>] = [r.via EXCEPT ![1].par = <<>>] /\ Added(r.via[1].par, o.branch[1].par, B("branch"), GoodBranch)), "branch"))
       /\ Say(r, "C35", "reason phrase", W(PhraseOf(r.status) \in {<<>>, o.phrase} /\ o.phrase # <<>>, r.status))

Judge(r) == CASE r.op = "populate" -> Populate(r)
              [] r.op = "route" -> Route(r)
              [] r.op = "derive" -> Derive(r)
              [] r.op = "match" -> Match(r)
              [] r.op = "copy" -> CopyJ(r)
              [] r.op = "resolve" -> Resolve(r)
              [] r.op = "lists" -> ListsJ(r)
              [] r.op = "ids" -> IdsJ(r)

VARIABLE n
Init == n = 0
Next == n < Len(Recs) /\ n' = n + 1 /\ Judge(Recs[n'])
Spec == Init /\ [][Next]_n
=============================================================================
