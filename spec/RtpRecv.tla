------------------------------ MODULE RtpRecv -------------------------------
(***************************************************************************)
(* The receiving side of an RTP session and how it ends: the receiver, the *)
(* application and Close, which meet on three channels without buffer      *)
(* (frames, returned frames, errors), and the socket.                      *)
(*                                                                         *)
(* hist is what the application has done; Settled(hist) is what should be  *)
(* the case once the receiver has nothing left to do.  TLC checks that     *)
(* every interleaving comes to the same, and that Close always completes.  *)
(***************************************************************************)
EXTENDS RtpSettled

CONSTANTS MaxOps, CloseFirst     \* CloseFirst: the socket is closed before the channel of returns

VARIABLES hist,
          queue,      \* packets in the socket
          rx, cur,    \* where the receiver is; the packet in its frame
          sock,       \* "open", "expired" (reading fails), "closed"
          cc, ec, rc, \* channels closed?
          held,       \* the frame the application holds
          got,        \* frames delivered
          errs,       \* errors handed over
          end,        \* where Close is
          nilf,       \* the receiver's frame is gone
          crash
vars == <<hist, queue, rx, cur, sock, cc, ec, rc, held, got, errs, end, nilf, crash>>

Init == /\ hist = <<>> /\ queue = <<>> /\ rx = "read" /\ cur = 0 /\ sock = "open"
        /\ cc = FALSE /\ ec = FALSE /\ rc = FALSE /\ held = 0 /\ got = <<>> /\ errs = 0 /\ end = "no" /\ nilf = FALSE /\ crash = FALSE

-----------------------------------------------------------------------------
(* The receiver.                                                           *)
RxRead == /\ rx = "read" /\ sock = "open" /\ queue # <<>>
          /\ queue' = Tail(queue)
          /\ IF queue[1] > 0 THEN rx' = "offer" /\ cur' = queue[1] /\ crash' = (crash \/ nilf) ELSE UNCHANGED <<rx, cur, crash>>
          /\ UNCHANGED <<hist, sock, cc, ec, rc, held, got, errs, end, nilf>>
RxFail == /\ rx = "read" /\ sock # "open"
          /\ rx' = "fail" /\ cc' = TRUE
          /\ UNCHANGED <<hist, queue, cur, sock, ec, rc, held, got, errs, end, nilf, crash>>
RxGone == /\ rx = "wait" /\ rc
          /\ rx' = "read" /\ nilf' = TRUE
          /\ UNCHANGED <<hist, queue, cur, sock, cc, ec, rc, held, got, errs, end, crash>>
Rx == RxRead \/ RxFail \/ RxGone

-----------------------------------------------------------------------------
(* The application and the network.                                        *)
Can == end = "no" /\ Len(hist) < MaxOps
Did(op) == hist' = Append(hist, op)
Packets == Cardinality({i \in 1..Len(hist) : hist[i] \in {"good", "bad"}})
Arrive(g) == /\ Can /\ sock = "open" /\ Did(IF g THEN "good" ELSE "bad")
             /\ queue' = Append(queue, IF g THEN Packets + 1 ELSE 0)
             /\ UNCHANGED <<rx, cur, sock, cc, ec, rc, held, got, errs, end, nilf, crash>>
Take == /\ Can /\ held = 0 /\ rx = "offer" /\ Did("take")
        /\ rx' = "wait" /\ held' = cur /\ got' = Append(got, cur)
        /\ UNCHANGED <<queue, cur, sock, cc, ec, rc, errs, end, nilf, crash>>
Give == /\ Can /\ held # 0 /\ rx = "wait" /\ Did("give")
        /\ rx' = "read" /\ held' = 0
        /\ UNCHANGED <<queue, cur, sock, cc, ec, rc, got, errs, end, nilf, crash>>
\* When there is nothing on offer, now or soon: otherwise the receiver may see the packet or the failure first.
Expire == /\ Can /\ sock = "open" /\ Settled(hist).offer = 0 /\ Did("expire")
          /\ sock' = "expired"
          /\ UNCHANGED <<queue, rx, cur, cc, ec, rc, held, got, errs, end, nilf, crash>>
TakeErr == /\ Can /\ rx = "fail" /\ Did("err")
           /\ rx' = "done" /\ ec' = TRUE /\ errs' = errs + 1
           /\ UNCHANGED <<queue, cur, sock, cc, rc, held, got, end, nilf, crash>>

-----------------------------------------------------------------------------
(* Close, and CloseAfterError for when the error has been seen.             *)
Begin(op, to) == /\ end = "no" /\ Did(op) /\ end' = to
                 /\ UNCHANGED <<queue, rx, cur, sock, cc, ec, rc, held, got, errs, nilf, crash>>
Close == Begin("close", IF CloseFirst THEN "sock" ELSE "chan")
CloseAfterError == errs > 0 /\ Begin("cae", IF CloseFirst THEN "sock" ELSE "chan")
CloseSock == /\ end = "sock" /\ sock' = "closed"
             /\ end' = (IF CloseFirst THEN "chan" ELSE "drain")
             /\ UNCHANGED <<hist, queue, rx, cur, cc, ec, rc, held, got, errs, nilf, crash>>
CloseChan == /\ end = "chan" /\ rc' = TRUE
             /\ end' = (IF CloseFirst THEN "drain" ELSE "sock")
             /\ UNCHANGED <<hist, queue, rx, cur, sock, cc, ec, held, got, errs, nilf, crash>>
Drain == /\ end = "drain"
         /\ IF rx = "offer" THEN rx' = "wait" /\ UNCHANGED end       \* thrown away
            ELSE cc /\ end' = "err" /\ UNCHANGED rx
         /\ UNCHANGED <<hist, queue, cur, sock, cc, ec, rc, held, got, errs, nilf, crash>>
LastErr == /\ end = "err" /\ end' = "done"
           /\ IF rx = "fail" THEN rx' = "done" /\ ec' = TRUE /\ errs' = errs + 1 ELSE ec /\ UNCHANGED <<rx, ec, errs>>
           /\ UNCHANGED <<hist, queue, cur, sock, cc, rc, held, got, nilf, crash>>
Closer == CloseSock \/ CloseChan \/ Drain \/ LastErr

Next == Rx \/ Closer \/ Close \/ CloseAfterError \/ Take \/ Give \/ Expire \/ TakeErr \/ \E g \in BOOLEAN : Arrive(g)
Spec == Init /\ [][Next]_vars /\ WF_vars(Rx) /\ WF_vars(Closer)

-----------------------------------------------------------------------------
(* C27: delivered are the good packets, in order, once each; while the      *)
(* application holds a frame nothing is put into it.                        *)
RECURSIVE Goods(_, _)
Goods(h, n) == IF h = <<>> THEN <<>> ELSE IF h[1] = "good" THEN <<n + 1>> \o Goods(Tail(h), n + 1)
               ELSE Goods(Tail(h), IF h[1] = "bad" THEN n + 1 ELSE n)
InOrder == LET g == Goods(hist, 0) IN Len(got) <= Len(g) /\ \A i \in 1..Len(got) : got[i] = g[i]
Owned == held # 0 /\ end = "no" => rx = "wait" /\ cur = held
\* At rest everything is as RtpSettled says.
AtRest == end = "no" /\ ~ENABLED Rx =>
            LET s == Settled(hist) IN
            /\ held = s.held
            /\ (rx = "offer") = (s.offer # 0) /\ (s.offer # 0 => cur = s.offer)
            /\ (rx = "fail") = (s.st = "failing") /\ (rx = "done") = (s.st = "failed")
            /\ cc = (s.st \in {"failing", "failed"}) /\ ec = (s.st = "failed")
\* C28
NoCrash == ~crash
OneError == errs <= 1
Ended == end = "done" => rx = "done" /\ cc /\ ec /\ rc /\ sock = "closed" /\ errs = 1
Closes == (end # "no") ~> (end = "done")
=============================================================================
