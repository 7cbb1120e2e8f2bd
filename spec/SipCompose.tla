----------------------------- MODULE SipCompose -----------------------------
(* Makes cases for the implementation out of seeds and checks on the way    *)
(* that the reference parser reads each text as what it was made from.      *)
(* IOEnv.KIND: msg, damage, name, uri, addr                                 *)
EXTENDS SipGen, Json, IOUtils

A0 == IntOf(B(IOEnv.SEED))
Count == IntOf(B(IOEnv.COUNT))
First == IntOf(B(IOEnv.FIRST))
Seed(i) == Sd(Sd(Sd(<<A0 % 46337, 17>>, i % 1000), i \div 1000), 5)
Emit(c) == PrintT("CASE " \o ToJson(c))

Bad(i, what) == PrintT("MODEL " \o ToJson([seed |-> i, what |-> what]))

\* The text must mean the message.
Means(i, t, m) ==
  LET r == RefMsg(t) IN
  IF r.k > MAY THEN Bad(i, "the reference parser does not accept a spelling: " \o ToString(r.k))
  ELSE LET d == Diff(r.v, m) IN IF d # {} THEN Bad(i, "the reference parser reads a spelling as something else: " \o ToString(d)) ELSE TRUE

MsgCase(i) == LET m == GMsg(Seed(i))
                  t == Spell(m, Sd(Seed(i), 77))
              IN Means(i, t, m) /\ Emit([id |-> i, op |-> "compose", msg |-> m, txt |-> t])
DamageCase(i) == LET m == GMsg(Seed(i))
                     t == Spell(m, Sd(Seed(i), 77))
                 IN Emit([id |-> i, op |-> "text", txt |-> Damage(t, 1 + R(Seed(i), 2), Sd(Seed(i), 78))])

\* One header in every spelling of its name, next to others that must stay as they are.
NameCase(i) ==
  LET s == Seed(i)
      h == HeaderTab[(i % Len(HeaderTab)) + 1]
      m0 == GMsg(Sd(s, 1))
      m1 == [m0 EXCEPT !.str = <<>>, !.x = IF Chance(s, 50) THEN <<>> ELSE Many(GX, 2, Sd(s, 2)), !.contact = <<>>, !.route = <<>>, !.rr = <<>>,
                       !.pai = <<>>, !.rpid = <<>>, !.exp = Zero, !.minexp = Zero]
      m == CASE h[1] = "str" -> [m1 EXCEPT !.str = <<<<h[2], GText(Sd(s, 3))>>>>]
             [] h[1] = "list" /\ h[2] \notin {"from", "to"} -> [m1 EXCEPT ![h[2]] = Many(GAddr, 1 + R(Sd(s, 4), 3), Sd(s, 5))]
             [] h[1] = "num" -> [m1 EXCEPT ![h[2]] = GNum(Sd(s, 6))]
             [] OTHER -> m1
      t == Spell(m, Sd(s, 7))
  IN Means(i, t, m) /\ Emit([id |-> i, op |-> "compose", msg |-> m, txt |-> t])

UriCase(i) ==
  LET s == Seed(i)
      u == GUri(s)
      t == SpUri(u, Sd(s, 1))
      r == RefURI(t)
      d == Damage(t, 1 + R(s, 2), Sd(s, 2))
  IN /\ IF r.k > MAY \/ r.v # u THEN Bad(i, "the reference parser does not read a URI back") ELSE TRUE
     /\ Emit([id |-> 3 * i, op |-> "uribuild", uri |-> u])
     /\ Emit([id |-> 3 * i + 1, op |-> "uri", txt |-> t])
     /\ Emit([id |-> 3 * i + 2, op |-> "uri", txt |-> d])

\* Display names and parameters with anything in them.
Loose(s) == CASE R(s, 4) = 0 -> Text1(0, 8, Sd(s, 1)) [] R(s, 4) = 1 -> Wild(0, 8, Sd(s, 1))
              [] R(s, 4) = 2 -> [j \in 1..R(Sd(s, 2), 4) |-> Pick(PrintSeq, Sd(Sd(s, 3), j))]
              [] OTHER -> Text1(0, 3, Sd(s, 1)) \o Pick(<<CRLF, <<13>>, <<10>>, <<13, 10, 32>>, <<10, 32>>, <<13, 10, 9>>, <<255>>, <<195>>, <<128>>, <<13, 10, 13, 10, 32>>,
                                                    <<13, 13, 10, 32>>, B("\",<sip:x>;"), B(";evil=1"), <<13, 10>> \o B("X: y")>>, Sd(s, 4))
                          \o Text1(0, 4, Sd(s, 5))
LoosePar(s) == <<IF Chance(s, 60) THEN Tok(TokenSeq, 1, 4, Sd(s, 1)) ELSE Tok(TokenSeq, 1, 2, Sd(s, 1)) \o Loose(Sd(s, 3)), Loose(Sd(s, 2))>>
AddrCase(i) ==
  LET s == Seed(i)
      u == [NoURI EXCEPT !.scheme = B("sip"), !.host = B("h"), !.user = B("u")]
      Plain == [disp |-> <<>>, uri |-> u, par |-> <<>>]
      \* now and then nothing needs quoting
      WordsOf(z) == Tok(TokenSeq, 1, 3, z) \o (IF Chance(z, 50) THEN <<SP>> \o Tok(TokenSeq, 1, 3, Sd(z, 1)) ELSE <<>>) \o (IF Chance(z, 30) THEN <<SP>> \o Tok(TokenSeq, 1, 3, Sd(z, 2)) ELSE <<>>)
      TokPar(z) == <<Tok(TokenSeq, 1, 3, Sd(z, 1)), Tok(TokenSeq, 0, 4, Sd(z, 2))>>
      tame == i % 12 = 0
      LAddr(z) == [disp |-> IF tame THEN (IF Chance(z, 20) THEN <<>> ELSE WordsOf(Sd(z, 1))) ELSE Loose(Sd(z, 1)), uri |-> u, par |-> IF tame THEN Many(TokPar, R(Sd(z, 2), 3), Sd(z, 3)) ELSE Many(LoosePar, R(Sd(z, 2), 3), Sd(z, 3))]
      LVia(z) == [pr |-> B("SIP"), ve |-> B("2.0"), tr |-> B("UDP"), host |-> B("h"), port |-> Zero, par |-> IF tame THEN Many(TokPar, R(Sd(z, 2), 3), Sd(z, 3)) ELSE Many(LoosePar, R(Sd(z, 2), 4), Sd(z, 3))]
      m == [req |-> TRUE, vmaj |-> B("2"), vmin |-> Zero, method |-> B("OPTIONS"), uri |-> u, status |-> 0, phrase |-> <<>>,
            from |-> <<LAddr(Sd(s, 1))>>, to |-> <<LAddr(Sd(s, 2))>>, contact |-> Many(LAddr, R(Sd(s, 3), 3), Sd(s, 4)),
            route |-> <<>>, rr |-> <<>>, pai |-> <<>>, rpid |-> <<>>, via |-> Many(LVia, 1 + R(Sd(s, 5), 2), Sd(s, 6)),
            callid |-> B("c"), cseq |-> B("1"), cseqm |-> B("OPTIONS"), exp |-> Zero, maxf |-> B("70"), minexp |-> Zero,
            str |-> <<>>, x |-> <<>>, body |-> [has |-> FALSE, t |-> <<>>, d |-> <<>>]]
  IN Emit([id |-> i, op |-> "quote", msg |-> m])

-----------------------------------------------------------------------------
(* All short strings over small alphabets, put into places of a message or *)
(* of a URI: case number i of place p.                                     *)
RECURSIVE Nth(_, _)
\* The i-th string over the alphabet a (a sequence of strings), shortest first.
Nth(a, i) == IF i = 0 THEN <<>> ELSE Nth(a, (i - 1) \div Len(a)) \o a[((i - 1) % Len(a)) + 1]
Ch(str) == [i \in 1..Len(B(str)) |-> <<B(str)[i]>>]
Pct == << <<37>> >>

Mini(via, from, cseq, x) ==
  B("OPTIONS sip:h SIP/2.0") \o CRLF \o B("Via: ") \o via \o CRLF \o B("From: ") \o from \o CRLF \o B("To: <sip:b>") \o CRLF
  \o B("Call-ID: c") \o CRLF \o B("CSeq: ") \o cseq \o CRLF \o x \o CRLF
V0 == B("SIP/2.0/UDP h")
F0 == B("<sip:a>")
C0 == B("1 OPTIONS")
\* place: <<op, alphabet, text of a string>>
PlaceOp(p) == IF p \in {"ustr", "urihost", "uripar"} THEN "uri" ELSE "text"
Alphabet(p) ==
  CASE p = "ustr" -> Ch(":@;=?&a1[].") \o Pct
    [] p = "urihost" -> Ch(":@;[]1.-a") \o Pct
    [] p = "uripar" -> Ch(";=?&a@/") \o << <<37>>, B("4"), B("F") >>
    [] p = "disp" -> Ch("\"\\ a<>;,") \o << CRLF \o <<SP>>, <<195>>, <<169>>, <<10>> >>
    [] p = "par" -> Ch(";=\"\\ a,<") \o << CRLF \o <<SP>>, <<9>> >>
    [] p = "via" -> Ch(";=\"/ a,:1[]") \o << CRLF \o <<SP>> >>
    [] p = "viahead" -> Ch("/ a1.,") \o << CRLF \o <<SP>>, B("SIP") >>
    [] p = "cseq" -> Ch("12 aO-") \o << CRLF \o <<SP>>, <<9>>, <<13>>, <<0>> >>
    [] p = "hname" -> Ch("FmlLIi-: ") \o << CRLF, CRLF \o <<SP>>, B("v") >>
    [] p = "len" -> Ch("0123 -") \o << CRLF \o <<SP>>, CRLF, B("x") >>
    [] p = "start" -> Ch(" 20.:/") \o << CRLF, B("SIP/"), B("2.0"), B("sip:h"), B("65536"), B("256"), <<37>> >>
    [] p = "status" -> Ch(" 10a\"") \o << CRLF, <<37>>, <<195>>, <<169>>, B("200"), B("099"), B("600"), B("41"), <<9>> >>
    [] p = "ctype" -> Ch("a/;= \"") \o << CRLF, CRLF \o <<SP>> >>
    [] p = "text" -> Ch("a :") \o << CRLF, CRLF \o <<SP>>, <<13>>, <<10>>, <<0>>, <<255>>, <<127>>, <<9>> >>
PlaceText(p, t) ==
  CASE p = "ustr" -> B("sip:") \o t
    [] p = "urihost" -> B("sips:u@") \o t
    [] p = "uripar" -> B("sip:h;") \o t
    [] p = "disp" -> Mini(V0, t \o B("<sip:a>;t"), C0, <<>>)
    [] p = "par" -> Mini(V0, F0 \o t, C0, <<>>)
    [] p = "via" -> Mini(V0 \o t, F0, C0, <<>>)
    [] p = "viahead" -> Mini(B("SIP/2.0/") \o t, F0, C0, <<>>)
    [] p = "cseq" -> Mini(V0, F0, t, <<>>)
    [] p = "hname" -> Mini(V0, F0, C0, t \o B("1") \o CRLF)
    [] p = "len" -> Mini(V0, F0, C0, B("Content-Length:") \o t \o CRLF) \o B("xy")
    [] p = "start" -> B("A sip:h") \o t \o Sub(Mini(V0, F0, C0, <<>>), 22, 1000)
    [] p = "status" -> B("SIP/2.0 ") \o t \o Sub(Mini(V0, F0, C0, <<>>), 22, 1000)
    [] p = "ctype" -> Mini(V0, F0, C0, B("Content-Type:") \o t \o CRLF \o B("l:1") \o CRLF) \o B("x")
    [] p = "text" -> Mini(V0, F0, C0, B("Subject:") \o t \o CRLF \o B("X-y:") \o t \o CRLF)
ShortCase(p, i) == Emit([id |-> i, op |-> PlaceOp(p), txt |-> PlaceText(p, Nth(Alphabet(p), i))])

\* Every byte above ASCII with up to five that may follow, wherever text may stand.
UtfCase(i) ==
  LET b == 128 + (i % 128)
      n == IF i < 640 \/ (i % 2) = 0 THEN (IF LeadLen(b) = 0 THEN 0 ELSE LeadLen(b) - 1) ELSE (i \div 640) % 6
      c == <<128, 191, 192, 32, 127>>[1 + ((i \div 7) % 5)]
      \* mostly well formed; otherwise the last one is odd
      t == <<b>> \o [k \in 1..n |-> IF k = n /\ i >= 640 /\ (i % 3) = 0 THEN c ELSE IF ((i \div 640) % 2) = 0 THEN 128 ELSE 191]
      Put(p) == CASE p = 0 -> Mini(V0, B("\"a") \o t \o B("b\" <sip:a>;t"), C0, <<>>)
                  [] p = 1 -> Mini(V0, F0 \o B(";x=\"") \o t \o B("\""), C0, <<>>)
                  [] p = 2 -> B("SIP/2.0 200 a") \o t \o Sub(Mini(V0, F0, C0, <<>>), 22, 1000)
                  [] p = 3 -> Mini(V0, F0, C0, B("Subject:a") \o t \o CRLF \o B("X-y:") \o t \o CRLF)
                  [] OTHER -> Mini(V0 \o B(";y=\"") \o t \o B("\""), F0, C0, <<>>)
  IN Emit([id |-> i, op |-> "text", txt |-> Put((i \div 128) % 5)])
\* Messages that are one long thing and almost nothing else.
GiantCase(i) ==
  LET s == Seed(i)
      n == <<30, 60, 200, 500>>[1 + ((i \div 12) % 4)]
      x == [k \in 1..n |-> Pick(TokenSeq, Sd(s, k))]
      y == [k \in 1..n |-> IF R(Sd(s, k), 9) = 0 THEN 32 ELSE Pick(AlnumSeq, Sd(s, k))]
      E == CRLF \o CRLF
      R0 == B("A sip:h SIP/2.0") \o CRLF
      t == CASE i % 12 = 0 -> B("SIP/2.0 200 ") \o y \o E
             [] i % 12 = 1 -> x \o B(" sip:h SIP/2.0") \o E
             [] i % 12 = 2 -> B("A sip:") \o [k \in 1..n |-> Pick(AlnumSeq, Sd(s, k))] \o B(" SIP/2.0") \o E
             [] i % 12 = 3 -> B("A sip:") \o [k \in 1..n |-> Pick(AlnumSeq, Sd(s, k))] \o B("@h SIP/2.0") \o E
             [] i % 12 = 4 -> R0 \o B("f:\"") \o y \o B("\"<sip:a>") \o E
             [] i % 12 = 5 -> R0 \o B("f:a:a;b=") \o x \o E
             [] i % 12 = 6 -> R0 \o B("v:SIP/2.0/UDP h;b=\"") \o y \o B("\"") \o E
             [] i % 12 = 7 -> R0 \o B("v:SIP/2.0/") \o x \o B(" h") \o E
             [] i % 12 = 8 -> R0 \o B("i:") \o x \o E
             [] i % 12 = 9 -> R0 \o B("CSeq:1 ") \o x \o E
             [] i % 12 = 10 -> R0 \o x \o B(":") \o y \o E
             [] OTHER -> R0 \o B("s:") \o y \o E
  IN Emit([id |-> i, op |-> "text", txt |-> t])
Places == {"ustr", "urihost", "uripar", "disp", "par", "via", "viahead", "cseq", "hname", "len", "start", "status", "ctype", "text"}

Case(i) == CASE IOEnv.KIND = "msg" -> MsgCase(i)
             [] IOEnv.KIND = "damage" -> DamageCase(i)
             [] IOEnv.KIND = "name" -> NameCase(i)
             [] IOEnv.KIND = "uri" -> UriCase(i)
             [] IOEnv.KIND = "addr" -> AddrCase(i)
             [] IOEnv.KIND = "giant" -> GiantCase(i)
             [] IOEnv.KIND = "utf8" -> UtfCase(i)
             [] IOEnv.KIND \in Places -> ShortCase(IOEnv.KIND, i)

VARIABLE n
Init == n = 0
Next == n < Count /\ n' = n + 1 /\ Case(First + n)
Spec == Init /\ [][Next]_n
=============================================================================
