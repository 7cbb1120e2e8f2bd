------------------------------- MODULE SipRef -------------------------------
(***************************************************************************)
(* What bytes mean as a SIP message, address list, Via list or URI.        *)
(*                                                                         *)
(* This is the grammar of RFC 3261 written as a function, and serves as    *)
(* oracle for the parser and the serialiser.  A result has a verdict k:    *)
(*   ACC  the bytes are well formed and mean v                             *)
(*   MAY  they need not be accepted, but if they are they mean v           *)
(*   ANY  nothing is said about them                                       *)
(*   REJ  they must be refused                                             *)
(* Verdicts of parts combine by the maximum.                               *)
(***************************************************************************)
EXTENDS SipChars

ACC == 0   MAY == 1   ANY == 2   REJ == 3
Worse(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Percent-escaped text.                                                   *)
HexVal(b) == IF b \in DigitS THEN b - 48 ELSE IF b \in LowerS THEN b - 87 ELSE b - 55
\* Decodes s, whose plain characters must be in class c.
RECURSIVE Unescape(_, _, _)
Unescape(s, c, acc) ==
  IF s = <<>> THEN [k |-> ACC, v |-> acc]
  ELSE IF s[1] = 37
       THEN IF Len(s) >= 3 /\ XDigit[s[2]] /\ XDigit[s[3]]
            THEN Unescape(From(s, 4), c, Append(acc, HexVal(s[2]) * 16 + HexVal(s[3])))
            ELSE [k |-> REJ, v |-> acc]
       ELSE IF c[s[1]] THEN Unescape(Tail(s), c, Append(acc, s[1])) ELSE [k |-> REJ, v |-> acc]

\* A number up to max (a digit sequence).
Num(d, max) == IF d = <<>> \/ ~All(d, Digit) THEN [k |-> REJ, v |-> Zero]
               ELSE IF NumLeq(Strip0(d), max) THEN [k |-> ACC, v |-> Strip0(d)] ELSE [k |-> REJ, v |-> Zero]

\* A host name or IPv4 address: odd ones need not be accepted.
HostKind(h) ==
  IF h = <<>> THEN REJ
  ELSE IF h[1] \in Set("-.") \/ h[Len(h)] \in Set("-.") \/ (\E i \in 1..Len(h) - 1 : h[i] = 46 /\ h[i + 1] \in Set(".-"))
       THEN MAY ELSE ACC
V6Kind(h) == IF h = <<>> \/ ~All(h, V6) THEN REJ
             ELSE IF Cardinality({i \in 1..Len(h) : h[i] = 58}) >= 2 THEN ACC ELSE MAY

-----------------------------------------------------------------------------
(* URIs: [scheme, user, pass, host, port, par, hdr]; par and hdr are lists *)
(* of <<name, value>>, the value being empty if there is none.             *)
NoURI == [scheme |-> <<>>, user |-> <<>>, pass |-> <<>>, host |-> <<>>, port |-> Zero, par |-> <<>>, hdr |-> <<>>]

RECURSIVE Split(_, _)
Split(s, b) == LET j == Find(s, 1, b) IN IF j > Len(s) THEN <<s>> ELSE <<Sub(s, 1, j - 1)>> \o Split(From(s, j + 1), b)

Pairing(s, c, hdr) ==
  LET e == Find(s, 1, 61)
      n == Unescape(Sub(s, 1, e - 1), c, <<>>)
      v == Unescape(From(s, e + 1), c, <<>>)
      has == e <= Len(s)
  IN [k |-> IF n.k = REJ \/ e = 1 THEN REJ
            ELSE IF ~has THEN (IF hdr THEN MAY ELSE ACC)
            ELSE IF e = Len(s) THEN (IF hdr THEN MAY ELSE REJ) ELSE v.k,
      v |-> <<n.v, IF has THEN v.v ELSE <<>>>>]

RECURSIVE Pairings(_, _, _)
Pairings(ss, c, hdr) ==
  IF ss = <<>> THEN [k |-> ACC, v |-> <<>>]
  ELSE LET a == Pairing(ss[1], c, hdr)
           r == Pairings(Tail(ss), c, hdr)
       IN [k |-> Worse(a.k, r.k), v |-> <<a.v>> \o r.v]

\* host [":" port] at i; Ipv6 addresses are in brackets.  Returns the end.
HostPort(s, i, cls) ==
  LET six == At(s, i) = 91
      j == IF six THEN Find(s, i, 93) ELSE Run(s, i, cls)
      h == IF six THEN Sub(s, i + 1, j - 1) ELSE Sub(s, i, j - 1)
      hk == IF six THEN (IF j > Len(s) THEN REJ ELSE V6Kind(h)) ELSE HostKind(h)
      e == IF six THEN j + 1 ELSE j
      p == Run(s, e + 1, Digit)
      n == Num(Sub(s, e + 1, p - 1), Max16)
  IN IF At(s, e) = 58
     THEN [k |-> Worse(hk, n.k), host |-> h, port |-> n.v, i |-> p]
     ELSE [k |-> hk, host |-> h, port |-> Zero, i |-> e]

RefURI(u) ==
  LET c == Find(u, 1, 58)
      sch == Lower(Sub(u, 1, c - 1))
      sip == sch = B("sip") \/ sch = B("sips")
      at == Find(u, c + 1, 64)
      hasAt == at <= Len(u)
      info == Sub(u, c + 1, at - 1)
      cc == Find(info, 1, 58)
      us == Unescape(Sub(info, 1, cc - 1), User, <<>>)
      pw == Unescape(From(info, cc + 1), Pass, <<>>)
      pwk == IF cc > Len(info) THEN ACC ELSE IF cc = Len(info) THEN ANY ELSE pw.k
      infok == IF ~hasAt THEN ACC ELSE IF cc = 1 THEN REJ ELSE Worse(us.k, pwk)
      hp0 == HostPort(u, IF hasAt THEN at + 1 ELSE c + 1, TelC)
      hp == IF sip /\ Has(hp0.host, 43) THEN [hp0 EXCEPT !.k = Worse(hp0.k, MAY)] ELSE hp0
      rest == From(u, hp.i)
      q == Find(rest, 1, 63)
      ps == Sub(rest, 1, q - 1)
      hs == From(rest, q + 1)
      par == IF ps = <<>> THEN [k |-> ACC, v |-> <<>>]
             ELSE IF ps[1] # 59 THEN [k |-> REJ, v |-> <<>>] ELSE Pairings(Split(Tail(ps), 59), ParamC, FALSE)
      hdr == IF q > Len(rest) THEN [k |-> ACC, v |-> <<>>] ELSE Pairings(Split(hs, 38), HeaderC, TRUE)
      k == Worse(Worse(infok, hp.k), Worse(par.k, hdr.k))
  IN IF c > Len(u) \/ c = 1 \/ ~Alpha[u[1]] \/ ~All(sch, SchemeC) THEN [k |-> REJ, v |-> NoURI]
     ELSE [k |-> IF k = REJ /\ ~sip THEN ANY ELSE k,
           v |-> [scheme |-> sch, user |-> IF hasAt THEN us.v ELSE <<>>,
                  pass |-> IF hasAt /\ cc <= Len(info) THEN pw.v ELSE <<>>,
                  host |-> Lower(hp.host), port |-> hp.port, par |-> par.v, hdr |-> hdr.v]]

-----------------------------------------------------------------------------
(* Quoted strings, from the opening quote at i.                            *)
RECURSIVE QLoop(_, _, _)
QLoop(s, i, acc) ==
  IF i > Len(s) THEN [k |-> REJ, i |-> i, v |-> acc]
  ELSE LET b == s[i] IN
    IF b = DQ THEN [k |-> ACC, i |-> i + 1, v |-> acc]
    ELSE IF b = 92 THEN IF i < Len(s) /\ Pair[s[i + 1]] THEN QLoop(s, i + 2, Append(acc, s[i + 1]))
                        ELSE [k |-> REJ, i |-> i, v |-> acc]
    ELSE IF FoldAt(s, i) THEN QLoop(s, i + 3, acc \o Sub(s, i, i + 2))
    ELSE IF Qdtext[b] \/ Wsp[b] THEN QLoop(s, i + 1, Append(acc, b))
    ELSE LET n == MbLen(s, i) IN
         IF n > 0 THEN QLoop(s, i + n, acc \o Sub(s, i, i + n - 1)) ELSE [k |-> REJ, i |-> i, v |-> acc]
Quoted(s, i) == QLoop(s, i + 1, <<>>)

\* White space at i: more than one fold in one place is left open.
Gap(s, i) == LET r == SkipN(s, i, 0) IN [k |-> IF r.n > 1 THEN ANY ELSE ACC, i |-> r.i]

-----------------------------------------------------------------------------
(* ;name=value lists of addresses and Vias, from i, which may be at white  *)
(* space.  Result: position after the list and the white space behind it.  *)
GenHost(v) == /\ Len(v) > 2 /\ v[1] = 91 /\ v[Len(v)] = 93 /\ V6Kind(Sub(v, 2, Len(v) - 1)) = ACC
RECURSIVE Params(_, _, _, _)
Params(s, i0, k0, acc) ==
  LET g == Gap(s, i0)
      k == Worse(k0, g.k)
  IN IF At(s, g.i) # 59 THEN [k |-> k, i |-> g.i, v |-> acc]
     ELSE
     LET g2 == Gap(s, g.i + 1)
         e == Run(s, g2.i, Token)
         n == Sub(s, g2.i, e - 1)
         g3 == Gap(s, e)
         g4 == Gap(s, g3.i + 1)
         q == Quoted(s, g4.i)
         tv == Run(s, g4.i, Cls(TokenS \cup Set("[]:")))
         v == Sub(s, g4.i, tv - 1)
         k2 == Worse(k, g2.k)
     IN IF n = <<>> THEN [k |-> REJ, i |-> g2.i, v |-> acc]
        ELSE IF At(s, g3.i) # 61 THEN Params(s, e, k2, Append(acc, <<n, <<>>>>))
        ELSE IF At(s, g4.i) = DQ
             THEN IF q.k = REJ THEN [k |-> REJ, i |-> q.i, v |-> acc]
                  ELSE Params(s, q.i, Worse(k2, Worse(g3.k, g4.k)), Append(acc, <<n, q.v>>))
        ELSE IF v = <<>> THEN [k |-> REJ, i |-> g4.i, v |-> acc]
        ELSE Params(s, tv, Worse(Worse(k2, IF All(v, Token) \/ GenHost(v) THEN ACC ELSE MAY), Worse(g3.k, g4.k)),
                    Append(acc, <<n, v>>))

-----------------------------------------------------------------------------
(* Address lists.  An address is [disp, dq, uri, par]; dq tells that the   *)
(* display name was quoted, so that its white space counts.                *)
NoAddr == [disp |-> <<>>, dq |-> FALSE, uri |-> NoURI, par |-> <<>>]
TokWs == Cls(TokenS \cup {SP, HTAB, CR, LF})

\* The part of an address from "<" on.
Angled(s, i, disp, dq) ==
  LET e == Find(s, i, 62)
      u == RefURI(Sub(s, i + 1, e - 1))
      p == Params(s, e + 1, ACC, <<>>)
  IN IF At(s, i) # 60 \/ e > Len(s) THEN [k |-> REJ, i |-> i, v |-> NoAddr]
     ELSE [k |-> Worse(u.k, p.k), i |-> p.i, v |-> [disp |-> disp, dq |-> dq, uri |-> u.v, par |-> p.v]]

Bare(s, i) ==
  LET e == Run(s, i, NotUriEnd)
      u == RefURI(Sub(s, i, e - 1))
      p == Params(s, e, ACC, <<>>)
      k == Worse(u.k, p.k)
  IN [k |-> IF At(s, e) = 63 \/ k = REJ THEN ANY ELSE k, i |-> p.i,
      v |-> [disp |-> <<>>, dq |-> FALSE, uri |-> u.v, par |-> p.v]]

OneAddr(s, i) ==
  LET q == Quoted(s, i)
      g == Gap(s, q.i)
      a == Angled(s, g.i, q.v, TRUE)
      t == Run(s, i, TokWs)
      d == Norm(Sub(s, i, t - 1))
      b == Angled(s, t, Collapse(d), FALSE)
      dk == IF d # <<>> /\ ~(s[t - 1] \in {SP, HTAB}) THEN MAY
            ELSE IF \E j \in i..t - 1 : s[j] = CR /\ ~FoldAt(s, j) THEN REJ
            ELSE IF Cardinality({j \in i..t - 1 : s[j] = CR}) > 1 THEN ANY ELSE ACC
  IN IF i > Len(s) THEN [k |-> REJ, i |-> i, v |-> NoAddr]
     ELSE IF s[i] = DQ THEN IF q.k = REJ THEN [k |-> REJ, i |-> i, v |-> NoAddr] ELSE [a EXCEPT !.k = Worse(a.k, g.k)]
     ELSE IF At(s, t) = 60 THEN [b EXCEPT !.k = Worse(b.k, dk)]
     ELSE IF Alpha[s[i]] THEN Bare(s, i)
     ELSE [k |-> REJ, i |-> i, v |-> NoAddr]

RECURSIVE AddrList(_, _)
AddrList(s, i0) ==
  LET g == Gap(s, i0)
      a == OneAddr(s, g.i)
      r == AddrList(s, a.i + 1)
      k == Worse(a.k, g.k)
  IN IF a.k = REJ THEN [k |-> REJ, v |-> <<>>]
     ELSE IF a.k = ANY THEN [k |-> ANY, v |-> <<>>]
     ELSE IF a.i > Len(s) THEN [k |-> k, v |-> <<a.v>>]
     ELSE IF s[a.i] = 44 THEN [k |-> Worse(k, r.k), v |-> <<a.v>> \o r.v]
     ELSE [k |-> REJ, v |-> <<>>]
\* White space at the very end is not next to a separator.
EndWs(s) == IF s # <<>> /\ Wsp[s[Len(s)]] THEN MAY ELSE ACC
RefAddrs(s) ==
  LET r == AddrList(s, 1)
  IN IF Norm(s) = <<42>> THEN [k |-> ANY, v |-> <<>>]
     ELSE [r EXCEPT !.k = Worse(r.k, EndWs(s))]

-----------------------------------------------------------------------------
(* Via lists: [pr, ve, tr, host, port, par].                               *)
OneVia(s, i) ==
  LET a == Run(s, i, Token)
      g1 == Gap(s, a)      g2 == Gap(s, g1.i + 1)
      b == Run(s, g2.i, Token)
      g3 == Gap(s, b)      g4 == Gap(s, g3.i + 1)
      c == Run(s, g4.i, Token)
      g5 == Gap(s, c)
      six == At(s, g5.i) = 91
      he == IF six THEN Find(s, g5.i, 93) ELSE Run(s, g5.i, HostC)
      h == IF six THEN Sub(s, g5.i + 1, he - 1) ELSE Sub(s, g5.i, he - 1)
      hk == IF six THEN (IF he > Len(s) THEN REJ ELSE V6Kind(h)) ELSE HostKind(h)
      e == IF six THEN he + 1 ELSE he
      g6 == Gap(s, e)      g7 == Gap(s, g6.i + 1)
      pe == Run(s, g7.i, Digit)
      pn == Num(Sub(s, g7.i, pe - 1), Max16)
      hasPort == At(s, g6.i) = 58
      p == Params(s, IF hasPort THEN pe ELSE e, ACC, <<>>)
      gk == Worse(Worse(g1.k, g2.k), Worse(Worse(g3.k, g4.k), Worse(g5.k, IF hasPort THEN Worse(g6.k, g7.k) ELSE ACC)))
  IN IF a = i \/ b = g2.i \/ c = g4.i \/ At(s, g1.i) # 47 \/ At(s, g3.i) # 47 \/ g5.i = c \/ hk = REJ
        \/ (hasPort /\ pn.k = REJ) \/ p.k = REJ
     THEN [k |-> REJ, i |-> i, v |-> <<>>]
     ELSE [k |-> Worse(Worse(gk, hk), p.k), i |-> p.i,
           v |-> [pr |-> Sub(s, i, a - 1), ve |-> Sub(s, g2.i, b - 1), tr |-> Sub(s, g4.i, c - 1), host |-> h,
                  port |-> IF hasPort THEN pn.v ELSE Zero, par |-> p.v]]

RECURSIVE ViaList(_, _)
ViaList(s, i0) ==
  LET g == Gap(s, i0)
      a == OneVia(s, g.i)
      r == ViaList(s, a.i + 1)
      k == Worse(a.k, g.k)
  IN IF a.k = REJ THEN [k |-> REJ, v |-> <<>>]
     ELSE IF a.i > Len(s) THEN [k |-> k, v |-> <<a.v>>]
     ELSE IF s[a.i] = 44 THEN [k |-> Worse(k, r.k), v |-> <<a.v>> \o r.v]
     ELSE [k |-> REJ, v |-> <<>>]
RefVias(s) == LET r == ViaList(s, 1) IN [r EXCEPT !.k = Worse(r.k, EndWs(s))]

-----------------------------------------------------------------------------
(* Header fields.  Names in lower case map to fields.                      *)
ListTab == << <<"from", "From", "f">>, <<"to", "To", "t">>, <<"contact", "Contact", "m">>, <<"route", "Route", "">>,
              <<"rr", "Record-Route", "">>, <<"pai", "P-Asserted-Identity", "">>, <<"rpid", "Remote-Party-ID", "">> >>
NumTab  == << <<"exp", "Expires", "">>, <<"maxf", "Max-Forwards", "">>, <<"minexp", "Min-Expires", "">> >>
\* In the order in which the message type lists them.
StrTab  == << <<"Accept", "">>, <<"Accept-Contact", "a">>, <<"Accept-Encoding", "">>, <<"Accept-Language", "">>,
              <<"Alert-Info", "">>, <<"Allow", "">>, <<"Allow-Events", "u">>, <<"Authentication-Info", "">>,
              <<"Authorization", "">>, <<"Call-Info", "">>, <<"Content-Disposition", "">>, <<"Content-Encoding", "e">>,
              <<"Content-Language", "">>, <<"Date", "">>, <<"Error-Info", "">>, <<"Event", "o">>, <<"In-Reply-To", "">>,
              <<"MIME-Version", "">>, <<"Organization", "">>, <<"Priority", "">>, <<"Proxy-Authenticate", "">>,
              <<"Proxy-Authorization", "">>, <<"Proxy-Require", "">>, <<"Refer-To", "r">>, <<"Referred-By", "b">>,
              <<"Reply-To", "">>, <<"Require", "">>, <<"Retry-After", "">>, <<"Server", "">>, <<"Subject", "s">>,
              <<"Supported", "k">>, <<"Timestamp", "">>, <<"Unsupported", "">>, <<"User-Agent", "">>, <<"Warning", "">>,
              <<"WWW-Authenticate", "">> >>
StrNames == {StrTab[i][1] : i \in 1..Len(StrTab)}

\* <<kind, field, full name, compact name>>
HeaderTab ==
  [i \in 1..Len(ListTab) |-> <<"list", ListTab[i][1], ListTab[i][2], ListTab[i][3]>>]
  \o [i \in 1..Len(NumTab) |-> <<"num", NumTab[i][1], NumTab[i][2], NumTab[i][3]>>]
  \o [i \in 1..Len(StrTab) |-> <<"str", StrTab[i][1], StrTab[i][1], StrTab[i][2]>>]
  \o << <<"via", "via", "Via", "v">>, <<"callid", "callid", "Call-ID", "i">>, <<"cseq", "cseq", "CSeq", "">>,
        <<"clen", "clen", "Content-Length", "l">>, <<"ctype", "ctype", "Content-Type", "c">> >>
HeaderOf ==
  LET full == {<<Lower(B(HeaderTab[i][3])), i>> : i \in 1..Len(HeaderTab)}
      comp == {<<B(HeaderTab[i][4]), i>> : i \in {j \in 1..Len(HeaderTab) : HeaderTab[j][4] # ""}}
      all == full \cup comp
  IN [n \in {p[1] : p \in all} |-> HeaderTab[(CHOOSE p \in all : p[1] = n)[2]]]

\* One header line, as a record [k, kind, field, name, val].
BadLine == [k |-> REJ, kind |-> "", field |-> "", name |-> <<>>, val |-> <<>>]

TextKind(s) ==
  LET Ok(i) == s[i] \in 33..126 \/ Wsp[s[i]] \/ s[i] >= 127 \/ FoldAt(s, i) \/ (i > 1 /\ FoldAt(s, i - 1))
      Mb == \A i \in 1..Len(s) : s[i] >= 192 => MbLen(s, i) > 0
      Tails == {j \in 1..Len(s) : s[j] \in 128..191}
      Covered == UNION {i + 1 .. i + LeadLen(s[i]) - 1 : i \in {j \in 1..Len(s) : s[j] >= 192}}
  IN IF \E i \in 1..Len(s) : ~Ok(i) THEN REJ
     ELSE IF ~Mb \/ (\E i \in 1..Len(s) : s[i] = 127) \/ ~(Tails \subseteq Covered) THEN ANY ELSE ACC

\* Number, possibly with white space behind it (which need not be accepted).
NumVal(s) ==
  LET t == Norm(s)
      n == Num(t, Max63)
  IN [k |-> IF n.k = REJ THEN REJ ELSE IF t # s \/ ~NumLeq(n.v, Max31) THEN MAY ELSE ACC, v |-> n.v]

CidVal(s) ==
  LET t == Norm(s)
      p == Split(t, 64)
  IN [k |-> IF t = <<>> \/ Len(p) > 2 \/ \E i \in 1..Len(p) : p[i] = <<>> \/ ~All(p[i], Word) THEN REJ
            ELSE IF t # s THEN MAY ELSE ACC,
      v |-> t]

CSeqVal(s) ==
  LET e == Run(s, 1, Digit)
      g == Gap(s, e)
      f == Run(s, g.i, Token)
      n == NumVal(Sub(s, 1, e - 1))
  IN [k |-> IF e = 1 \/ g.i = e \/ f = g.i \/ Norm(From(s, f)) # <<>> THEN REJ
            ELSE Worse(Worse(n.k, g.k), IF f <= Len(s) THEN MAY ELSE ACC),
      v |-> <<n.v, Sub(s, g.i, f - 1)>>]

CTypeVal(s) ==
  LET a == Run(s, 1, Token)
      g1 == Gap(s, a)   g2 == Gap(s, g1.i + 1)
      b == Run(s, g2.i, Token)
      p == Params(s, b, ACC, <<>>)
      loose == g1.i # a \/ g2.i # g1.i + 1 \/ (b <= Len(s) /\ p.v = <<>>) \/ (\E i \in 1..Len(p.v) : p.v[i][2] = <<>>)
               \/ (p.v # <<>> /\ Wsp[s[Len(s)]])
  IN [k |-> IF a = 1 \/ At(s, g1.i) # 47 \/ b = g2.i \/ p.k = REJ \/ p.i <= Len(s) THEN REJ
            ELSE IF loose THEN Worse(p.k, MAY) ELSE p.k,
      v |-> Sub(s, 1, a - 1) \o <<47>> \o Sub(s, g2.i, b - 1)]

Line(s) ==
  LET c == Find(s, 1, 58)
      n == TrimR(Sub(s, 1, c - 1))
      g == Gap(s, c + 1)
      val == From(s, g.i)
      known == Lower(n) \in DOMAIN HeaderOf
      h == HeaderOf[Lower(n)]
      kind == IF known THEN h[1] ELSE "x"
      v == CASE kind = "list" -> RefAddrs(val)
             [] kind = "via" -> RefVias(val)
             [] kind \in {"num", "clen"} -> NumVal(val)
             [] kind = "callid" -> CidVal(val)
             [] kind = "cseq" -> CSeqVal(val)
             [] kind = "ctype" -> CTypeVal(val)
             [] OTHER -> [k |-> TextKind(From(s, c + 1)), v |-> Norm(From(s, c + 1))]
  IN IF c > Len(s) \/ n = <<>> THEN BadLine
     ELSE IF ~All(n, Token) THEN [BadLine EXCEPT !.k = IF Has(n, CR) THEN ANY ELSE REJ]
     ELSE [k |-> IF v.k = REJ THEN REJ ELSE IF kind \in {"str", "x"} THEN v.k ELSE Worse(v.k, g.k),
           kind |-> kind, field |-> IF known THEN h[2] ELSE "", name |-> n, val |-> v.v]

-----------------------------------------------------------------------------
(* The start line.                                                         *)
NoStart == [k |-> REJ, req |-> TRUE, vmaj |-> Zero, vmin |-> Zero, method |-> <<>>, uri |-> NoURI, status |-> 0, phrase |-> <<>>]

Version(s) ==   \* "SIP/" digits "." digits, all of s
  LET d == Find(s, 5, 46)
      a == Num(Sub(s, 5, d - 1), Max8)
      b == Num(From(s, d + 1), Max8)
  IN [k |-> IF Len(s) < 7 \/ Sub(s, 1, 4) # B("SIP/") THEN (IF Upper(Sub(s, 1, 4)) = B("SIP/") THEN ANY ELSE REJ)
            ELSE Worse(a.k, b.k),
      maj |-> a.v, min |-> b.v]

RECURSIVE RefPhrase(_, _)
RefPhrase(s, acc) ==
  IF s = <<>> THEN [k |-> ACC, v |-> acc]
  ELSE IF s[1] = 37
       THEN IF Len(s) >= 3 /\ XDigit[s[2]] /\ XDigit[s[3]]
            THEN RefPhrase(From(s, 4), Append(acc, HexVal(s[2]) * 16 + HexVal(s[3]))) ELSE [k |-> REJ, v |-> acc]
       ELSE IF Reason[s[1]] THEN RefPhrase(Tail(s), Append(acc, s[1]))
       ELSE LET n == MbLen(s, 1) IN IF n > 0 THEN RefPhrase(From(s, n + 1), acc \o Sub(s, 1, n)) ELSE [k |-> REJ, v |-> acc]

StartLine(s) ==
  LET a == Find(s, 1, SP)
      w1 == Sub(s, 1, a - 1)
      b == Find(s, a + 1, SP)
      w2 == Sub(s, a + 1, b - 1)
      w3 == From(s, b + 1)
      resp == Has(w1, 47)
      rv == Version(w1)
      qv == Version(w3)
      u == RefURI(w2)
      ph == RefPhrase(w3, <<>>)
      stOk == Len(w2) = 3 /\ All(w2, Digit) /\ w2[1] # 48
      rk == IF a > Len(s) \/ b > Len(s) \/ ~stOk THEN REJ
            ELSE IF rv.k # ACC THEN rv.k
            ELSE IF w3 = <<>> THEN ANY ELSE ph.k
      qk == IF a > Len(s) \/ b > Len(s) \/ w1 = <<>> \/ ~All(w1, Token) THEN REJ
            ELSE IF qv.k = REJ \/ u.k = REJ THEN REJ ELSE Worse(qv.k, u.k)
  IN IF resp
     THEN [NoStart EXCEPT !.k = rk, !.req = FALSE, !.vmaj = rv.maj, !.vmin = rv.min, !.status = IF stOk THEN IntOf(w2) ELSE 0,
                          !.phrase = ph.v]
     ELSE [NoStart EXCEPT !.k = qk, !.vmaj = qv.maj, !.vmin = qv.min, !.method = w1, !.uri = u.v]

-----------------------------------------------------------------------------
(* The whole message.                                                      *)
RECURSIVE Lines(_, _, _)
\* The logical lines of s, of which the current one began at i; scanning at j.
Lines(s, i, j) ==
  IF j > Len(s) THEN <<From(s, i)>>
  ELSE IF s[j] = CR /\ ~FoldAt(s, j) THEN <<Sub(s, i, j - 1)>> \o Lines(s, j + 2, j + 2)
  ELSE Lines(s, i, j + 1)

HeadEnd(s) ==
  LET Ends == {i \in 1..Len(s) - 3 : s[i] = CR /\ s[i + 1] = LF /\ s[i + 2] = CR /\ s[i + 3] = LF}
  IN IF Ends = {} THEN 0 ELSE CHOOSE i \in Ends : \A j \in Ends : i <= j

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

SdpType == B("application/sdp")

RefMsg(s) ==
  LET he == HeadEnd(s)
      head == Sub(s, 1, he - 1)
      body == From(s, he + 4)
      stray == \E i \in 1..Len(head) : \/ head[i] = CR /\ At(head, i + 1) # LF
                                       \/ head[i] = LF /\ At(head, i - 1) # CR
      ls == Lines(head, 1, 1)
      st == StartLine(ls[1])
      hs == [i \in 1..Len(ls) - 1 |-> Line(ls[i + 1])]
      Of(kind) == SelectSeq(hs, LAMBDA h : h.kind = kind)
      Field(f) == SelectSeq(hs, LAMBDA h : h.field = f)
      Vals(f) == {Field(f)[i].val : i \in 1..Len(Field(f))}
      lists == [f \in {ListTab[i][1] : i \in 1..Len(ListTab)} |->
                  LET q == Field(f) IN Concat([i \in 1..Len(q) |-> q[i].val])]
      vias == LET q == Field("via") IN Concat([i \in 1..Len(q) |-> q[i].val])
      xs == LET q == Of("x") IN [i \in 1..Len(q) |-> <<q[i].name, q[i].val>>]
      hk == IF \E i \in 1..Len(hs) : hs[i].k = REJ THEN REJ
            ELSE IF \E i \in 1..Len(hs) : hs[i].k = ANY THEN ANY
            ELSE IF \E i \in 1..Len(hs) : hs[i].k = MAY THEN MAY ELSE ACC
      \* From and To are not lists; a repeated number that contradicts itself
      repk == IF \/ Len(Field("from")) > 1 \/ Len(Field("to")) > 1 \/ Len(lists.from) > 1 \/ Len(lists.to) > 1
                 \/ Cardinality(Vals("clen")) > 1 \/ Cardinality(Vals("ctype")) > 1
              THEN ANY ELSE ACC
      manda == IF \E f \in {"from", "to", "callid", "cseq", "via"} : Field(f) = <<>> THEN MAY ELSE ACC
      cl == Vals("clen")
      clk == IF hk >= ANY \/ Cardinality(cl) # 1 THEN (IF body # <<>> \/ cl # {} THEN ANY ELSE ACC)
             ELSE IF cl = {DigitsOf(Len(body))} THEN ACC
             ELSE IF cl = {Zero} THEN ANY ELSE REJ
      hasBody == cl = {DigitsOf(Len(body))} /\ body # <<>>
      sdp == hasBody /\ Vals("ctype") = {SdpType}
      k1 == Worse(Worse(st.k, hk), Worse(repk, Worse(manda, IF hk = REJ THEN ACC ELSE clk)))
  IN IF he = 0 \/ stray THEN [k |-> IF At(s, 1) = CR /\ At(s, 2) = LF /\ ~stray THEN ANY ELSE REJ, v |-> <<>>]
     ELSE IF Sub(s, 1, 2) = CRLF THEN [k |-> ANY, v |-> <<>>]
     ELSE IF k1 = REJ \/ k1 = ANY THEN [k |-> k1, v |-> <<>>]
     ELSE [k |-> IF sdp THEN Worse(k1, MAY) ELSE k1,
           v |-> [st |-> st, lists |-> lists, via |-> vias, x |-> xs,
                  callid |-> Vals("callid"), cseq |-> Vals("cseq"),
                  nums |-> [f \in {"exp", "maxf", "minexp"} |-> Vals(f)],
                  strs |-> [f \in StrNames |-> Vals(f)],
                  hasBody |-> hasBody, sdp |-> sdp, ctype |-> Vals("ctype"), body |-> body]]

-----------------------------------------------------------------------------
(* Does a message m, as the code sees it, mean what the reference says?    *)
(* m: [req, vmaj, vmin, method, uri, status, phrase, from, to, contact,    *)
(*     route, rr, pai, rpid, via, callid, cseq, cseqm, exp, maxf, minexp,  *)
(*     str (list of <<name, value>>), x, body ([has, t, d])]               *)
OneOf(S, none, v) == IF S = {} THEN v = none ELSE v \in S
SameParams(r, a) == Len(r) = Len(a) /\ \A i \in 1..Len(r) : r[i][1] = a[i][1] /\ Unf(r[i][2]) = Unf(a[i][2])
SameAddr(r, a) ==
  /\ r.uri = a.uri
  /\ SameParams(r.par, a.par)
  /\ IF r.dq THEN Unf(a.disp) = Unf(r.disp) ELSE Collapse(Norm(a.disp)) = r.disp
SameAddrs(r, a) == Len(r) = Len(a) /\ \A i \in 1..Len(r) : SameAddr(r[i], a[i])
SameVias(r, a) ==
  Len(r) = Len(a) /\ \A i \in 1..Len(r) :
    /\ r[i].pr = a[i].pr /\ r[i].ve = a[i].ve /\ r[i].tr = a[i].tr /\ r[i].host = a[i].host /\ r[i].port = a[i].port
    /\ SameParams(r[i].par, a[i].par)
StrOf(m, f) == IF \E i \in 1..Len(m.str) : m.str[i][1] = f
               THEN m.str[CHOOSE i \in 1..Len(m.str) : m.str[i][1] = f][2] ELSE <<>>
\* The parts in which they differ.
Diff(r, m) ==
  {p \in {"start", "uri", "from", "to", "contact", "route", "rr", "pai", "rpid", "via", "callid", "cseq", "exp", "maxf", "minexp",
          "x", "body"} \cup StrNames :
    ~ CASE p = "start" -> /\ r.st.req = m.req /\ r.st.vmaj = m.vmaj /\ r.st.vmin = m.vmin
                          /\ r.st.method = m.method /\ r.st.status = m.status /\ r.st.phrase = m.phrase
        [] p = "uri" -> m.uri = r.st.uri
        [] p = "via" -> SameVias(r.via, m.via)
        [] p \in {"from", "to", "contact", "route", "rr", "pai", "rpid"} -> SameAddrs(r.lists[p], m[p])
        [] p = "callid" -> OneOf(r.callid, <<>>, m.callid)
        [] p = "cseq" -> OneOf(r.cseq, <<Zero, <<>>>>, <<m.cseq, m.cseqm>>)
        [] p \in {"exp", "maxf", "minexp"} -> OneOf(r.nums[p], Zero, m[p])
        [] p = "x" -> Len(r.x) = Len(m.x) /\ \A i \in 1..Len(r.x) : r.x[i][1] = m.x[i][1] /\ r.x[i][2] = Norm(m.x[i][2])
        [] p = "body" -> /\ m.body.has = r.hasBody
                         /\ r.hasBody => /\ OneOf(r.ctype, <<>>, m.body.t)
                                         /\ r.sdp \/ m.body.d = r.body
        [] OTHER -> OneOf(r.strs[p], <<>>, Norm(StrOf(m, p)))}
=============================================================================
