From 59d043375930aa9f9c958e26d36b75a0a7d6e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 01/47] fix: don't deadlock when a dialog closes its sockets

The receiver reports its error before it closes the message channel, so
waiting for a message first blocked the dialog forever.
---
 dialog/dialog.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 7e397d6..1795db3 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -502,8 +502,7 @@ func (dls *dialogState) cleanupSock() {
 	if dls.sock != nil {
 		dls.sock.Close()
 		dls.sock = nil
-		<-dls.sockMsgs
-		<-dls.sockErrs
+		drain(dls.sockMsgs, dls.sockErrs)
 	}
 }
 
@@ -511,7 +510,18 @@ func (dls *dialogState) cleanupCSock() {
 	if dls.csock != nil {
 		dls.csock.Close()
 		dls.csock = nil
-		<-dls.csockMsgs
-		<-dls.csockErrs
+		drain(dls.csockMsgs, dls.csockErrs)
+	}
+}
+
+// drain discards what the receiver of a closed socket still has to deliver,
+// until it reports the error that makes it stop.
+func drain(msgs <-chan *sip.Msg, errs <-chan error) {
+	for {
+		select {
+		case <-msgs:
+		case <-errs:
+			return
+		}
 	}
 }
-- 
2.43.0


From 7c90d9221f48932de95b44548c5231267c04e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 02/47] fix: recognise ICMP refusals on current Go releases

---
 util/util.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/util/util.go b/util/util.go
index 7ffce9a..7a69062 100755
--- a/util/util.go
+++ b/util/util.go
@@ -17,9 +17,9 @@ package util
 import (
 	"crypto/rand"
 	"encoding/hex"
+	"errors"
 	"math"
 	"math/big"
-	"net"
 	"strconv"
 	"strings"
 	"syscall"
@@ -27,8 +27,7 @@ import (
 
 // Return true if error is ICMP connection refused.
 func IsRefused(err error) bool {
-	operr, ok := err.(*net.OpError)
-	return ok && operr.Err == syscall.ECONNREFUSED
+	return errors.Is(err, syscall.ECONNREFUSED)
 }
 
 // Return true if error was caused by reading from a closed socket.
-- 
2.43.0


From 4ae4a80c15160eb50ecdac018d803d3b97f1f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 03/47] fix: don't dereference a nil socket when a server
 refuses the packet

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 1795db3..d97f542 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -112,7 +112,7 @@ func (dls *dialogState) run() {
 			dls.sock.Close()
 			dls.sock = nil
 			if util.IsRefused(err) {
-				log.Printf("ICMP refusal: %s (%s)\r\n", dls.sock.RemoteAddr(), dls.dest)
+				log.Printf("ICMP refusal: %s (%s)\r\n", dls.addr, dls.dest)
 				if !dls.popRoute() {
 					return
 				}
-- 
2.43.0


From 9f6fd0b6e8373eb7714ac49884b9f215e1ec8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 04/47] fix: keep the remaining servers until the request is
 settled

Every response, 503 included, used to throw away the list of servers, so
there was never one left to fail over to.
---
 dialog/dialog.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d97f542..d6eca61 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -311,8 +311,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	}
-	dls.routes = nil
 	dls.requestTimer = nil
+	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
+		dls.routes = nil
+	}
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
 	}
-- 
2.43.0


From 768627543eb47d5385a1689b11163b28367c8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 05/47] fix: acknowledge failure responses that carry no
 Contact

---
 dialog/dialog.go   | 4 ++--
 dialog/messages.go | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index d6eca61..88c4a66 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -303,8 +303,8 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		return true
 	}
 	if msg.Status >= sip.StatusOK && dls.request.Method == sip.MethodInvite {
-		if msg.Contact == nil {
-			dls.errChan <- errors.New("Remote UA sent >=200 response w/o Contact")
+		if msg.Contact == nil && msg.Status < 300 {
+			dls.errChan <- errors.New("Remote UA sent 2xx response w/o Contact")
 			return false
 		}
 		if !dls.send(NewAck(msg, dls.request)) {
diff --git a/dialog/messages.go b/dialog/messages.go
index e625277..d4aad21 100644
--- a/dialog/messages.go
+++ b/dialog/messages.go
@@ -58,9 +58,13 @@ func NewResponse(msg *sip.Msg, status int) *sip.Msg {
 
 // http://tools.ietf.org/html/rfc3261#section-17.1.1.3
 func NewAck(msg, invite *sip.Msg) *sip.Msg {
+	request := invite.Request
+	if msg.Contact != nil {
+		request = msg.Contact.Uri
+	}
 	return &sip.Msg{
 		Method:             sip.MethodAck,
-		Request:            msg.Contact.Uri,
+		Request:            request,
 		From:               msg.From,
 		To:                 msg.To,
 		Via:                msg.Via.Detach(),
-- 
2.43.0


From c881962eaba902a36272de13567e92553c81c5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 06/47] fix: only follow redirects of an unanswered INVITE that
 say where to go

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 88c4a66..cd017a5 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -343,6 +343,10 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 			return false
 		}
 	case sip.StatusMovedPermanently, sip.StatusMovedTemporarily:
+		if dls.request != dls.invite || dls.state >= Answered || msg.Contact == nil {
+			dls.errChan <- &sip.ResponseError{Msg: msg}
+			return false
+		}
 		dls.invite.Request = msg.Contact.Uri
 		dls.invite.Route = nil
 		return dls.sendRequest(dls.invite)
-- 
2.43.0


From 03d05c3f1fdf53b00be9aed1cd1c4f80d68e5692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 07/47] fix: don't crash on an SDP without audio

---
 dialog/dialog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index cd017a5..a1c8e58 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -399,7 +399,7 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 }
 
 func (dls *dialogState) checkSDP(msg *sip.Msg) {
-	if ms, ok := msg.Payload.(*sdp.SDP); ok {
+	if ms, ok := msg.Payload.(*sdp.SDP); ok && ms.Audio != nil {
 		dls.peerChan <- &net.UDPAddr{IP: net.ParseIP(ms.Addr), Port: int(ms.Audio.Port)}
 	}
 }
-- 
2.43.0


From 4fb8c7dfc7ffc7009050945bb018425a518322cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 08/47] fix: don't crash on a message without Via

---
 dialog/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 19f575c..6c7212f 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -44,6 +44,10 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			log.Printf("Dropping SIP message: %s\r\n", err)
 			continue
 		}
+		if msg.Via == nil {
+			log.Printf("Dropping SIP message without Via\r\n")
+			continue
+		}
 		addReceived(msg, addr)
 		addTimestamp(msg, ts)
 		if msg.Route != nil && msg.Route.Uri.Host == lhost && or5060(msg.Route.Uri.Port) == lport {
-- 
2.43.0


From 3c412286fe8ffb0b1541677dc5fe3576e603b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 09/47] fix: don't let the next datagram overwrite a delivered
 message

Extension header values and opaque payloads are slices of the packet.
---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index 6c7212f..ae315df 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,7 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := buf[0:amt]
+		packet := append([]byte(nil), buf[0:amt]...) // Msg keeps slices of it.
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From c5d2986287e759ec161116c0bda522af4e201be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 10/47] fix: never respond to a response or an ACK

---
 dialog/dialog.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index a1c8e58..aa0dc79 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -280,7 +280,7 @@ func (dls *dialogState) populate(msg *sip.Msg) {
 
 func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	if msg.VersionMajor != 2 || msg.VersionMinor != 0 {
-		if !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
+		if expectsResponse(msg) && !dls.send(NewResponse(msg, sip.StatusVersionNotSupported)) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote UA is using a strange SIP version")
@@ -288,6 +288,9 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 	if msg.CallID != dls.request.CallID {
 		log.Printf("Received message doesn't match dialog\r\n")
+		if !expectsResponse(msg) {
+			return true
+		}
 		return dls.send(NewResponse(msg, sip.StatusCallTransactionDoesNotExist))
 	}
 	if msg.IsResponse() {
@@ -297,6 +300,11 @@ func (dls *dialogState) handleMessage(msg *sip.Msg) bool {
 	}
 }
 
+// expectsResponse tells requests apart from messages that must not be answered.
+func expectsResponse(msg *sip.Msg) bool {
+	return !msg.IsResponse() && msg.Method != sip.MethodAck
+}
+
 func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	if !ResponseMatch(dls.request, msg) {
 		log.Printf("Received response doesn't match transaction\r\n")
@@ -361,7 +369,7 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 
 func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	if msg.MaxForwards <= 0 {
-		if !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
+		if expectsResponse(msg) && !dls.send(NewResponse(msg, sip.StatusTooManyHops)) {
 			return false
 		}
 		dls.errChan <- errors.New("Remote froot loop detected")
@@ -371,6 +379,9 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 		dls.rseq = msg.CSeq
 	} else {
 		if msg.CSeq < dls.rseq {
+			if !expectsResponse(msg) {
+				return true
+			}
 			// RFC 3261 mandates a 500 response for out of order requests.
 			return dls.send(NewResponse(msg, sip.StatusInternalServerError))
 		}
-- 
2.43.0


From 85fe553b5b8eb9e7808cc33efce98684a3de0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 11/47] fix: provisional responses don't take an answered call
 back to ringing

---
 dialog/dialog.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index aa0dc79..bb55ede 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -323,6 +323,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 	if msg.Status >= sip.StatusOK && msg.Status != sip.StatusServiceUnavailable {
 		dls.routes = nil
 	}
+	if msg.Status < sip.StatusOK && dls.state >= Answered {
+		return true // Late, or about our BYE: the call isn't ringing again.
+	}
 	if msg.Status <= sip.StatusOK {
 		dls.checkSDP(msg)
 	}
-- 
2.43.0


From 645e201035dda517c975458943d6a8bb69c0cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 12/47] fix: a re-INVITE refreshes the remote target and
 nothing else

A BYE sent after a re-INVITE used to be addressed to ourselves, because the
re-INVITE replaced the answer as the source of To and of the route set. A
re-INVITE before the answer also kept Answered from being reported.
---
 dialog/dialog.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index bb55ede..0f91bc2 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -338,9 +338,9 @@ func (dls *dialogState) handleResponse(msg *sip.Msg) bool {
 		switch msg.CSeqMethod {
 		case sip.MethodInvite:
 			if dls.remote == nil {
+				dls.remote = msg
 				dls.transition(Answered)
 			}
-			dls.remote = msg
 		case sip.MethodBye, sip.MethodCancel:
 			dls.transition(Hangup)
 			return false
@@ -400,7 +400,9 @@ func (dls *dialogState) handleRequest(msg *sip.Msg) bool {
 	case sip.MethodOptions: // Probably a keep-alive ping.
 		return dls.send(NewResponse(msg, sip.StatusOK))
 	case sip.MethodInvite: // Re-INVITEs are used to change the RTP or signalling path.
-		dls.remote = msg
+		if dls.remote != nil && msg.Contact != nil {
+			dls.remote.Contact = msg.Contact // RFC3261 12.2.2 target refresh
+		}
 		dls.checkSDP(msg)
 		return dls.sendResponse(NewResponse(msg, sip.StatusOK))
 	case sip.MethodAck: // Re-INVITE response has been ACK'd.
-- 
2.43.0


From dd50603758fe1da7db35959a01b5f7a4f258623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 13/47] fix: copies keep display names and share no parameters
 with the original

---
 sip/addr.go      | 3 ++-
 sip/msg.go       | 2 +-
 sip/param.go     | 8 ++++++++
 sip/uri.go       | 4 ++--
 sip/uriheader.go | 8 ++++++++
 sip/uriparam.go  | 8 ++++++++
 sip/via.go       | 2 +-
 sip/xheader.go   | 8 ++++++++
 8 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/sip/addr.go b/sip/addr.go
index acb56c7..3da75fd 100755
--- a/sip/addr.go
+++ b/sip/addr.go
@@ -93,7 +93,8 @@ func (addr *Addr) Copy() *Addr {
 	}
 	res := new(Addr)
 	res.Uri = addr.Uri.Copy()
-	res.Param = addr.Param
+	res.Display = addr.Display
+	res.Param = addr.Param.Copy()
 	res.Next = addr.Next.Copy()
 	return res
 }
diff --git a/sip/msg.go b/sip/msg.go
index 9ddac8f..f5032c5 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -122,7 +122,7 @@ func (msg *Msg) Copy() *Msg {
 	res.Route = msg.Route.Copy()
 	res.Contact = msg.Contact.Copy()
 	res.RecordRoute = msg.RecordRoute.Copy()
-	res.XHeader = msg.XHeader
+	res.XHeader = msg.XHeader.Copy()
 	return res
 }
 
diff --git a/sip/param.go b/sip/param.go
index 6cf5465..4f2ecd9 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -39,6 +39,14 @@ func (p *Param) Get(name string) *Param {
 	return nil
 }
 
+// Copy returns an independent copy of the list.
+func (p *Param) Copy() *Param {
+	if p == nil {
+		return nil
+	}
+	return &Param{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes parameters in insertion order.
 func (p *Param) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uri.go b/sip/uri.go
index 126a869..03b1f7e 100755
--- a/sip/uri.go
+++ b/sip/uri.go
@@ -63,8 +63,8 @@ func (uri *URI) Copy() *URI {
 	}
 	res := new(URI)
 	*res = *uri
-	res.Param = uri.Param
-	res.Header = uri.Header
+	res.Param = uri.Param.Copy()
+	res.Header = uri.Header.Copy()
 	return res
 }
 
diff --git a/sip/uriheader.go b/sip/uriheader.go
index 7c26389..8f788af 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -39,6 +39,14 @@ func (p *URIHeader) Get(name string) *URIHeader {
 	return p.Next.Get(name)
 }
 
+// Copy returns an independent copy of the list.
+func (p *URIHeader) Copy() *URIHeader {
+	if p == nil {
+		return nil
+	}
+	return &URIHeader{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes URI headers in insertion order.
 func (p *URIHeader) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/uriparam.go b/sip/uriparam.go
index 7b1c705..f6bcf87 100644
--- a/sip/uriparam.go
+++ b/sip/uriparam.go
@@ -39,6 +39,14 @@ func (p *URIParam) Get(name string) *URIParam {
 	return p.Next.Get(name)
 }
 
+// Copy returns an independent copy of the list.
+func (p *URIParam) Copy() *URIParam {
+	if p == nil {
+		return nil
+	}
+	return &URIParam{p.Name, p.Value, p.Next.Copy()}
+}
+
 // Append serializes URI parameters in insertion order.
 func (p *URIParam) Append(b *bytes.Buffer) {
 	if p == nil {
diff --git a/sip/via.go b/sip/via.go
index 231ef9b..da66830 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -72,7 +72,7 @@ func (via *Via) Copy() *Via {
 	res.Transport = via.Transport
 	res.Host = via.Host
 	res.Port = via.Port
-	res.Param = via.Param
+	res.Param = via.Param.Copy()
 	res.Next = via.Next.Copy()
 	return res
 }
diff --git a/sip/xheader.go b/sip/xheader.go
index 23ea54d..46b9d29 100644
--- a/sip/xheader.go
+++ b/sip/xheader.go
@@ -46,6 +46,14 @@ func (h *XHeader) String() string {
 	return b.String()
 }
 
+// Copy returns an independent copy of the list of headers.
+func (h *XHeader) Copy() *XHeader {
+	if h == nil {
+		return nil
+	}
+	return &XHeader{h.Name, append([]byte{}, h.Value...), h.Next.Copy()}
+}
+
 // Append serializes headers in insertion order.
 func (h *XHeader) Append(b *bytes.Buffer) {
 	if h == nil {
-- 
2.43.0


From 5a501d54a30f4045ead4aeaaf2ae9467ad4cea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 14/47] fix: completing a message doesn't put its branch into
 the transport's Via

Every message sent without Via after the first one had the same branch.
---
 dialog/route.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index 3cdd88d..12dc02a 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -32,10 +32,10 @@ type AddressRoute struct {
 func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 	if !msg.IsResponse() {
 		if msg.Via == nil {
-			msg.Via = via
+			msg.Via = via.Copy()
 		}
 		if msg.Contact == nil {
-			msg.Contact = contact
+			msg.Contact = contact.Copy()
 		}
 		if msg.To == nil {
 			msg.To = &sip.Addr{Uri: msg.Request}
-- 
2.43.0


From f38102ddd25d0f55834e9505ffa38a0d010aa79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:03 +0000
Subject: [PATCH 15/47] fix: send to port 5060 when the next hop names no port

---
 dialog/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/transport.go b/dialog/transport.go
index 5cf7e99..008f060 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -82,7 +82,7 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	if err != nil {
 		return err
 	}
-	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(port)))
+	addr, err := net.ResolveUDPAddr("udp", net.JoinHostPort(host, util.Portstr(or5060(port))))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f04d9ab8a964d55ae3faee29fb9a021df2a0aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 16/47] fix: don't forward a request whose hops are used up

A hop counter of zero is serialised as 70.
---
 dialog/transport.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/transport.go b/dialog/transport.go
index 008f060..c45c25e 100755
--- a/dialog/transport.go
+++ b/dialog/transport.go
@@ -19,6 +19,7 @@ package dialog
 
 import (
 	"bytes"
+	"errors"
 	"net"
 	"time"
 
@@ -88,6 +89,9 @@ func (tp *Transport) Send(msg *sip.Msg) error {
 	}
 	if msg.MaxForwards > 0 {
 		msg.MaxForwards--
+		if msg.MaxForwards == 0 {
+			return errors.New("Local froot loop detected")
+		}
 	}
 	ts := time.Now()
 	addTimestamp(msg, ts)
-- 
2.43.0


From cf16e778c5e844f46bb3531322a42e07a05b3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 17/47] fix: refuse an rport that is no port number

---
 dialog/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 12dc02a..8cfc7e0 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -92,7 +92,7 @@ func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, p
 		// we should use rport as real port in request-line
 		if rport := msg.Via.Param.Get("rport"); rport != nil && len(rport.Value) > 0 {
 
-			i, err := strconv.Atoi(rport.Value)
+			i, err := strconv.ParseUint(rport.Value, 10, 16)
 			if err != nil {
 				return "", 0, err
 			}
-- 
2.43.0


From 7e1ff03ce486e1dfd1aff46c4bec695e659fefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 18/47] fix: don't crash on a response whose only Via looks
 like our own

---
 dialog/route.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dialog/route.go b/dialog/route.go
index 8cfc7e0..d4709b5 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -78,7 +78,10 @@ func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 
 func RouteMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) (host string, port uint16, err error) {
 	if msg.IsResponse() {
-		if via.CompareHostPort(msg.Via) {
+		if msg.Via == nil {
+			return "", 0, errors.New("Response has no Via")
+		}
+		if msg.Via.Next != nil && via.CompareHostPort(msg.Via) {
 			msg.Via = msg.Via.Next
 		}
 
-- 
2.43.0


From 95c6ba6eac46dc1b1c061728943e0658b6ed64f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 19/47] fix: write Via hosts and ports so that they parse back

Port 0 was written as :0, 5060 came back as 0 and IPv6 addresses lacked
their brackets.
---
 sip/via.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/via.go b/sip/via.go
index da66830..4a6d8f5 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -53,8 +53,14 @@ func (via *Via) Append(b *bytes.Buffer) {
 		b.WriteString(via.Transport)
 		b.WriteString(" ")
 	}
-	b.WriteString(via.Host)
-	if via.Port != 5060 {
+	if util.IsIPv6(via.Host) {
+		b.WriteByte('[')
+		b.WriteString(via.Host)
+		b.WriteByte(']')
+	} else {
+		b.WriteString(via.Host)
+	}
+	if via.Port != 0 {
 		b.WriteString(":")
 		b.WriteString(strconv.Itoa(int(via.Port)))
 	}
-- 
2.43.0


From f768c04c8162b64c34cacde1366039ddd360cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 20/47] fix: a Via without port means port 5060

---
 sip/via.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sip/via.go b/sip/via.go
index 4a6d8f5..bd03fe7 100755
--- a/sip/via.go
+++ b/sip/via.go
@@ -109,13 +109,21 @@ func (via *Via) Last() *Via {
 func (via *Via) CompareHostPort(other *Via) bool {
 	if via != nil && other != nil {
 		if via.Host == other.Host &&
-			via.Port == other.Port {
+			via.GetPort() == other.GetPort() {
 			return true
 		}
 	}
 	return false
 }
 
+// GetPort returns the port number or 5060 if none is specified.
+func (via *Via) GetPort() uint16 {
+	if via.Port == 0 {
+		return 5060
+	}
+	return via.Port
+}
+
 func (via *Via) CompareBranch(other *Via) bool {
 	if via != nil && other != nil {
 		if b1 := via.Param.Get("branch"); b1 != nil {
-- 
2.43.0


From cac6270ad5a3a9826d59377662829ab7522cd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 21/47] fix: write the Accept-Contact and Retry-After headers

---
 sip/msg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/msg.go b/sip/msg.go
index f5032c5..c04fc4b 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -223,6 +223,12 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString("\r\n")
 	}
 
+	if msg.AcceptContact != "" {
+		b.WriteString("Accept-Contact: ")
+		b.WriteString(msg.AcceptContact)
+		b.WriteString("\r\n")
+	}
+
 	if msg.AcceptEncoding != "" {
 		b.WriteString("Accept-Encoding: ")
 		b.WriteString(msg.AcceptEncoding)
@@ -399,7 +405,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	}
 
 	if msg.RetryAfter != "" {
-		b.WriteString("RetryAfter: ")
+		b.WriteString("Retry-After: ")
 		b.WriteString(msg.RetryAfter)
 		b.WriteString("\r\n")
 	}
-- 
2.43.0


From 68cccc444b53f5993da88f112091ced4a88292e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 22/47] fix: escape '&' in URI headers

---
 sip/uriheader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/uriheader.go b/sip/uriheader.go
index 8f788af..39c7b7c 100644
--- a/sip/uriheader.go
+++ b/sip/uriheader.go
@@ -58,9 +58,9 @@ func (p *URIHeader) Append(b *bytes.Buffer) {
 	} else {
 		b.WriteByte('?')
 	}
-	appendEscaped(b, []byte(p.Name), paramc)
+	appendEscaped(b, []byte(p.Name), headerc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendEscaped(b, []byte(p.Value), paramc)
+		appendEscaped(b, []byte(p.Value), headerc)
 	}
 }
-- 
2.43.0


From 92b2d4bff61f03417faed137303903768f29a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 23/47] fix: quote display names that begin or end with a space

---
 sip/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/quote.go b/sip/quote.go
index e8f6dab..5b3f26c 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -33,7 +33,7 @@ func appendSanitized(b *bytes.Buffer, s []byte, p func(byte) bool) {
 // truncate on input error.
 func appendQuoted(b *bytes.Buffer, s []byte) {
 	for i := 0; i < len(s); i++ {
-		if !tokenc(s[i]) && s[i] != ' ' {
+		if !tokenc(s[i]) && (s[i] != ' ' || i == 0 || i == len(s)-1) {
 			appendQuoteQuoted(b, s)
 			return
 		}
-- 
2.43.0


From 44040fda3f4fc3059a8b3f46b101613f34862a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 24/47] fix: quote parameter values that contain spaces

---
 sip/param.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/param.go b/sip/param.go
index 4f2ecd9..3ed4997 100644
--- a/sip/param.go
+++ b/sip/param.go
@@ -57,6 +57,10 @@ func (p *Param) Append(b *bytes.Buffer) {
 	appendSanitized(b, []byte(p.Name), tokenc)
 	if p.Value != "" {
 		b.WriteByte('=')
-		appendQuoted(b, []byte(p.Value))
+		if strings.IndexByte(p.Value, ' ') == -1 {
+			appendQuoted(b, []byte(p.Value))
+		} else {
+			appendQuoteQuoted(b, []byte(p.Value))
+		}
 	}
 }
-- 
2.43.0


From 51140c2e7a1da65871f90b603b045bf1f025a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 25/47] fix: closing an RTP session doesn't hang when a frame
 is held

---
 rtp/session.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rtp/session.go b/rtp/session.go
index bd4cb1a..ab78284 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -167,12 +167,11 @@ func (rs *Session) Close() {
 		return
 	}
 	rs.Sock.Close()
-	if frame, ok := <-rs.C; ok {
-		rs.R <- frame
+	close(rs.R) // The receiver might be waiting for a frame we still hold.
+	for range rs.C {
 	}
 	<-rs.E
 	rs.Sock = nil
-	close(rs.R)
 }
 
 func (rs *Session) CloseAfterError() {
-- 
2.43.0


From 2e8730296e176ce9b7df8773cf1d89eacba16d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 26/47] fix: a failed DTMF digit doesn't mark the audio that
 follows

---
 rtp/session.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/session.go b/rtp/session.go
index ab78284..a5aef53 100644
--- a/rtp/session.go
+++ b/rtp/session.go
@@ -139,6 +139,7 @@ func (rs *Session) SendDTMF(digit byte) error {
 		event[3] = byte(dur & 0xff)
 		_, err := rs.Sock.WriteTo(append(rs.Header.Write(rs.obuf), event[:]...), rs.Peer)
 		if err != nil {
+			rs.Header.Mark = false
 			return err
 		}
 		rs.Header.Seq++
-- 
2.43.0


From 68d87f1913aab6636f0acda6a032f0b13f5750cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 27/47] fix: mix frames that aren't 16-byte aligned

---
 dsp/dsp_amd64.s | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsp/dsp_amd64.s b/dsp/dsp_amd64.s
index 468106a..1b8257c 100755
--- a/dsp/dsp_amd64.s
+++ b/dsp/dsp_amd64.s
@@ -20,9 +20,10 @@ TEXT    ·L16MixSat160(SB),4,$0-16
 	MOVQ	dst+0(FP), AX
 	MOVQ	src+8(FP), BX
 	MOVQ	$19, CX
-moar:	MOVO	0(BX), X0
-	PADDSW  0(AX), X0
-	MOVO	X0, 0(AX)
+moar:	MOVOU	0(BX), X0
+	MOVOU	0(AX), X1
+	PADDSW	X1, X0
+	MOVOU	X0, 0(AX)
 	ADDQ	$16, AX
 	ADDQ	$16, BX
 	DECQ	CX
-- 
2.43.0


From b686559b077fd28df6d346da24608ce42d9cd370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 28/47] fix: the compact header names l and u mean one header
 each

"l" is Content-Length only, "u" is Allow-Events only (RFC3261, RFC3265). A
compact Content-Length also overwrote Expires, Max-Forwards and Min-Expires.
---
 sip/msg_parse.go | 2893 ++++++++++++++++++++++------------------------
 sip/sip.rl       |    8 +-
 2 files changed, 1358 insertions(+), 1543 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index cd61c46..8b438a8 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 765
+const msg_first_final int = 758
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 765:
-		goto st_case_765
+	case 758:
+		goto st_case_758
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 766:
-		goto st_case_766
+	case 759:
+		goto st_case_759
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 767:
-		goto st_case_767
+	case 760:
+		goto st_case_760
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 768:
-		goto st_case_768
+	case 761:
+		goto st_case_761
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 769:
-		goto st_case_769
+	case 762:
+		goto st_case_762
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 770:
-		goto st_case_770
+	case 763:
+		goto st_case_763
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 771:
-		goto st_case_771
+	case 764:
+		goto st_case_764
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,34 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 772:
-		goto st_case_772
+	case 765:
+		goto st_case_765
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
 	case 249:
 		goto st_case_249
-	case 773:
-		goto st_case_773
+	case 766:
+		goto st_case_766
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 774:
-		goto st_case_774
+	case 767:
+		goto st_case_767
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 775:
-		goto st_case_775
-	case 776:
-		goto st_case_776
-	case 777:
-		goto st_case_777
+	case 768:
+		goto st_case_768
+	case 769:
+		goto st_case_769
+	case 770:
+		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,8 +632,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 778:
-		goto st_case_778
+	case 771:
+		goto st_case_771
 	case 259:
 		goto st_case_259
 	case 260:
@@ -658,8 +658,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 779:
-		goto st_case_779
+	case 772:
+		goto st_case_772
 	case 271:
 		goto st_case_271
 	case 272:
@@ -672,8 +672,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_275
 	case 276:
 		goto st_case_276
-	case 780:
-		goto st_case_780
+	case 773:
+		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -690,8 +690,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 781:
-		goto st_case_781
+	case 774:
+		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1638,20 +1638,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_756
 	case 757:
 		goto st_case_757
-	case 758:
-		goto st_case_758
-	case 759:
-		goto st_case_759
-	case 760:
-		goto st_case_760
-	case 761:
-		goto st_case_761
-	case 762:
-		goto st_case_762
-	case 763:
-		goto st_case_763
-	case 764:
-		goto st_case_764
 	}
 	goto st_out
 	st_case_1:
@@ -1698,7 +1684,7 @@ tr416:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1693
+//line msg_parse.go:1679
 st_case_0:
 	st0:
 		cs = 0
@@ -1714,7 +1700,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1709
+//line msg_parse.go:1695
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1761,7 +1747,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1756
+//line msg_parse.go:1742
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1777,7 +1763,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1772
+//line msg_parse.go:1758
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1794,7 +1780,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1789
+//line msg_parse.go:1775
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1846,7 +1832,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1841
+//line msg_parse.go:1827
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1874,7 +1860,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1869
+//line msg_parse.go:1855
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1900,7 +1886,7 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1895
+//line msg_parse.go:1881
 		if data[p] == 10 {
 			goto tr16
 		}
@@ -1908,13 +1894,13 @@ tr42:
 tr16:
 //line sip.rl:257
  {goto st280 } 
-	goto st765
-	st765:
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof758
 		}
-	st_case_765:
-//line msg_parse.go:1909
+	st_case_758:
+//line msg_parse.go:1895
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1927,7 +1913,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1922
+//line msg_parse.go:1908
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2064,7 +2050,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2059
+//line msg_parse.go:2045
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2092,7 +2078,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2087
+//line msg_parse.go:2073
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2120,7 +2106,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2115
+//line msg_parse.go:2101
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2136,7 +2122,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2131
+//line msg_parse.go:2117
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2152,7 +2138,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2147
+//line msg_parse.go:2133
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2246,7 +2232,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2241
+//line msg_parse.go:2227
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2320,7 +2306,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2315
+//line msg_parse.go:2301
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2345,7 +2331,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2340
+//line msg_parse.go:2326
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2382,7 +2368,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2377
+//line msg_parse.go:2363
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2410,7 +2396,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2405
+//line msg_parse.go:2391
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2438,7 +2424,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2433
+//line msg_parse.go:2419
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2466,7 +2452,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2461
+//line msg_parse.go:2447
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2494,7 +2480,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2489
+//line msg_parse.go:2475
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2548,7 +2534,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2543
+//line msg_parse.go:2529
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2683,7 +2669,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2678
+//line msg_parse.go:2664
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2713,7 +2699,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2708
+//line msg_parse.go:2694
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2955,7 +2941,7 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2950
+//line msg_parse.go:2936
 		if data[p] == 10 {
 			goto tr65
 		}
@@ -2963,13 +2949,13 @@ tr51:
 tr65:
 //line sip.rl:257
  {goto st280 } 
-	goto st766
-	st766:
+	goto st759
+	st759:
 		if p++; p == pe {
-			goto _test_eof766
+			goto _test_eof759
 		}
-	st_case_766:
-//line msg_parse.go:2964
+	st_case_759:
+//line msg_parse.go:2950
 		goto st0
 tr52:
 //line sip.rl:228
@@ -2982,7 +2968,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2977
+//line msg_parse.go:2963
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3085,7 +3071,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3080
+//line msg_parse.go:3066
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3141,7 +3127,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3136
+//line msg_parse.go:3122
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3173,7 +3159,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3168
+//line msg_parse.go:3154
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3210,7 +3196,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3205
+//line msg_parse.go:3191
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3238,7 +3224,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3233
+//line msg_parse.go:3219
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3266,7 +3252,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3261
+//line msg_parse.go:3247
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3294,7 +3280,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3289
+//line msg_parse.go:3275
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3322,7 +3308,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3317
+//line msg_parse.go:3303
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3350,7 +3336,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3345
+//line msg_parse.go:3331
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3367,7 +3353,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3362
+//line msg_parse.go:3348
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3591,7 +3577,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3586
+//line msg_parse.go:3572
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3652,7 +3638,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3647
+//line msg_parse.go:3633
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3686,7 +3672,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3681
+//line msg_parse.go:3667
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3735,7 +3721,7 @@ tr106:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st767
+	goto st760
 tr110:
 //line sip.rl:167
 
@@ -3752,7 +3738,7 @@ tr110:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st767
+	goto st760
 tr122:
 //line sip.rl:167
 
@@ -3766,13 +3752,13 @@ tr122:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st767
-	st767:
+	goto st760
+	st760:
 		if p++; p == pe {
-			goto _test_eof767
+			goto _test_eof760
 		}
-	st_case_767:
-//line msg_parse.go:3767
+	st_case_760:
+//line msg_parse.go:3753
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3818,7 +3804,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3813
+//line msg_parse.go:3799
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3889,7 +3875,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3884
+//line msg_parse.go:3870
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3952,7 +3938,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3947
+//line msg_parse.go:3933
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4075,7 +4061,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4070
+//line msg_parse.go:4056
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4152,7 +4138,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4147
+//line msg_parse.go:4133
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4208,7 +4194,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4203
+//line msg_parse.go:4189
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4242,7 +4228,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4237
+//line msg_parse.go:4223
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4279,7 +4265,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4274
+//line msg_parse.go:4260
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4307,7 +4293,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4302
+//line msg_parse.go:4288
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4335,7 +4321,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4330
+//line msg_parse.go:4316
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4363,7 +4349,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4358
+//line msg_parse.go:4344
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4391,7 +4377,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4386
+//line msg_parse.go:4372
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4419,7 +4405,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4414
+//line msg_parse.go:4400
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4436,7 +4422,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4431
+//line msg_parse.go:4417
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4522,7 +4508,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4517
+//line msg_parse.go:4503
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4606,7 +4592,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4601
+//line msg_parse.go:4587
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4661,7 +4647,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4656
+//line msg_parse.go:4642
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4691,7 +4677,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4686
+//line msg_parse.go:4672
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4749,7 +4735,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4744
+//line msg_parse.go:4730
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4804,7 +4790,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4799
+//line msg_parse.go:4785
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4834,7 +4820,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4829
+//line msg_parse.go:4815
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4892,7 +4878,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4887
+//line msg_parse.go:4873
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4950,7 +4936,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4945
+//line msg_parse.go:4931
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4997,7 +4983,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4992
+//line msg_parse.go:4978
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5050,7 +5036,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5045
+//line msg_parse.go:5031
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5084,7 +5070,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5079
+//line msg_parse.go:5065
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5129,7 +5115,7 @@ tr184:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st768
+	goto st761
 tr193:
 //line sip.rl:72
 
@@ -5142,7 +5128,7 @@ tr193:
 
 //line sip.rl:260
  {goto st68 } 
-	goto st768
+	goto st761
 tr199:
 //line sip.rl:141
 
@@ -5152,13 +5138,13 @@ tr199:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st768
-	st768:
+	goto st761
+	st761:
 		if p++; p == pe {
-			goto _test_eof768
+			goto _test_eof761
 		}
-	st_case_768:
-//line msg_parse.go:5153
+	st_case_761:
+//line msg_parse.go:5139
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5204,7 +5190,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5199
+//line msg_parse.go:5185
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5235,7 +5221,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5230
+//line msg_parse.go:5216
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5297,7 +5283,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5292
+//line msg_parse.go:5278
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5405,7 +5391,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5400
+//line msg_parse.go:5386
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5457,7 +5443,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5452
+//line msg_parse.go:5438
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5524,7 +5510,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5519
+//line msg_parse.go:5505
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5555,7 +5541,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5550
+//line msg_parse.go:5536
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5591,7 +5577,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5586
+//line msg_parse.go:5572
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5713,7 +5699,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5708
+//line msg_parse.go:5694
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5818,7 +5804,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5813
+//line msg_parse.go:5799
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5902,7 +5888,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5897
+//line msg_parse.go:5883
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5963,7 +5949,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5958
+//line msg_parse.go:5944
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5997,7 +5983,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5992
+//line msg_parse.go:5978
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6042,7 +6028,7 @@ tr230:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st769
+	goto st762
 tr234:
 //line sip.rl:210
 
@@ -6055,7 +6041,7 @@ tr234:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st769
+	goto st762
 tr246:
 //line sip.rl:210
 
@@ -6069,13 +6055,13 @@ tr246:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st769
-	st769:
+	goto st762
+	st762:
 		if p++; p == pe {
-			goto _test_eof769
+			goto _test_eof762
 		}
-	st_case_769:
-//line msg_parse.go:6070
+	st_case_762:
+//line msg_parse.go:6056
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6121,7 +6107,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6116
+//line msg_parse.go:6102
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6192,7 +6178,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6187
+//line msg_parse.go:6173
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6255,7 +6241,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6250
+//line msg_parse.go:6236
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6378,7 +6364,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6373
+//line msg_parse.go:6359
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6455,7 +6441,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6450
+//line msg_parse.go:6436
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6511,7 +6497,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6506
+//line msg_parse.go:6492
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6545,7 +6531,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6540
+//line msg_parse.go:6526
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6582,7 +6568,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6577
+//line msg_parse.go:6563
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6610,7 +6596,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6605
+//line msg_parse.go:6591
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6638,7 +6624,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6633
+//line msg_parse.go:6619
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6666,7 +6652,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6661
+//line msg_parse.go:6647
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6694,7 +6680,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6689
+//line msg_parse.go:6675
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6722,7 +6708,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6717
+//line msg_parse.go:6703
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6739,7 +6725,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6734
+//line msg_parse.go:6720
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6825,7 +6811,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6820
+//line msg_parse.go:6806
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6926,7 +6912,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6921
+//line msg_parse.go:6907
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6966,7 +6952,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6961
+//line msg_parse.go:6947
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6987,7 +6973,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6982
+//line msg_parse.go:6968
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7084,7 +7070,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7079
+//line msg_parse.go:7065
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7152,7 +7138,7 @@ tr285:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st770
+	goto st763
 tr289:
 //line sip.rl:72
 
@@ -7161,7 +7147,7 @@ tr289:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st770
+	goto st763
 tr293:
 //line sip.rl:214
 
@@ -7171,13 +7157,13 @@ tr293:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st770
-	st770:
+	goto st763
+	st763:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof763
 		}
-	st_case_770:
-//line msg_parse.go:7172
+	st_case_763:
+//line msg_parse.go:7158
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7391,7 +7377,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7386
+//line msg_parse.go:7372
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7433,7 +7419,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7428
+//line msg_parse.go:7414
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7495,7 +7481,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7490
+//line msg_parse.go:7476
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7559,7 +7545,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7554
+//line msg_parse.go:7540
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7591,7 +7577,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7586
+//line msg_parse.go:7572
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7651,7 +7637,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7646
+//line msg_parse.go:7632
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7719,7 +7705,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7714
+//line msg_parse.go:7700
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7775,7 +7761,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7770
+//line msg_parse.go:7756
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7805,7 +7791,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7800
+//line msg_parse.go:7786
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7842,7 +7828,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7837
+//line msg_parse.go:7823
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7870,7 +7856,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7865
+//line msg_parse.go:7851
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7898,7 +7884,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7893
+//line msg_parse.go:7879
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7926,7 +7912,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7921
+//line msg_parse.go:7907
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7954,7 +7940,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7949
+//line msg_parse.go:7935
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7982,7 +7968,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7977
+//line msg_parse.go:7963
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7999,7 +7985,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7994
+//line msg_parse.go:7980
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8141,7 +8127,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8136
+//line msg_parse.go:8122
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8207,7 +8193,7 @@ tr345:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st771
+	goto st764
 tr349:
 //line sip.rl:72
 
@@ -8216,7 +8202,7 @@ tr349:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st771
+	goto st764
 tr375:
 //line sip.rl:214
 
@@ -8226,13 +8212,13 @@ tr375:
 
 //line sip.rl:257
  {goto st280 } 
-	goto st771
-	st771:
+	goto st764
+	st764:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof764
 		}
-	st_case_771:
-//line msg_parse.go:8227
+	st_case_764:
+//line msg_parse.go:8213
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8343,7 +8329,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8338
+//line msg_parse.go:8324
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8388,7 +8374,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8383
+//line msg_parse.go:8369
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8454,7 +8440,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8449
+//line msg_parse.go:8435
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8499,13 +8485,13 @@ tr361:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st772
-	st772:
+	goto st765
+	st765:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof765
 		}
-	st_case_772:
-//line msg_parse.go:8500
+	st_case_765:
+//line msg_parse.go:8486
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8544,7 +8530,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8539
+//line msg_parse.go:8525
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8591,7 +8577,7 @@ tr356:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st773
+	goto st766
 tr366:
 //line sip.rl:72
 
@@ -8600,13 +8586,13 @@ tr366:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st773
-	st773:
+	goto st766
+	st766:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof766
 		}
-	st_case_773:
-//line msg_parse.go:8601
+	st_case_766:
+//line msg_parse.go:8587
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8663,7 +8649,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8658
+//line msg_parse.go:8644
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8729,7 +8715,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8724
+//line msg_parse.go:8710
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8768,13 +8754,13 @@ tr371:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st774
-	st774:
+	goto st767
+	st767:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof767
 		}
-	st_case_774:
-//line msg_parse.go:8769
+	st_case_767:
+//line msg_parse.go:8755
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8813,7 +8799,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8808
+//line msg_parse.go:8794
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8859,13 +8845,13 @@ tr367:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st775
-	st775:
+	goto st768
+	st768:
 		if p++; p == pe {
-			goto _test_eof775
+			goto _test_eof768
 		}
-	st_case_775:
-//line msg_parse.go:8860
+	st_case_768:
+//line msg_parse.go:8846
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8938,13 +8924,13 @@ tr357:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st776
-	st776:
+	goto st769
+	st769:
 		if p++; p == pe {
-			goto _test_eof776
+			goto _test_eof769
 		}
-	st_case_776:
-//line msg_parse.go:8939
+	st_case_769:
+//line msg_parse.go:8925
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9017,7 +9003,7 @@ tr358:
 
 //line sip.rl:252
  {goto st256 } 
-	goto st777
+	goto st770
 tr368:
 //line sip.rl:205
 
@@ -9031,13 +9017,13 @@ tr368:
 
 //line sip.rl:254
  {goto st153 } 
-	goto st777
-	st777:
+	goto st770
+	st770:
 		if p++; p == pe {
-			goto _test_eof777
+			goto _test_eof770
 		}
-	st_case_777:
-//line msg_parse.go:9032
+	st_case_770:
+//line msg_parse.go:9018
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9054,7 +9040,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9049
+//line msg_parse.go:9035
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9116,7 +9102,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9111
+//line msg_parse.go:9097
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9228,7 +9214,7 @@ tr377:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr382:
 //line sip.rl:189
 
@@ -9241,7 +9227,7 @@ tr382:
 
 //line sip.rl:253
  {goto st188 } 
-	goto st778
+	goto st771
 tr386:
 //line sip.rl:189
 
@@ -9254,13 +9240,13 @@ tr386:
 
 //line sip.rl:255
  {goto st229 } 
-	goto st778
-	st778:
+	goto st771
+	st771:
 		if p++; p == pe {
-			goto _test_eof778
+			goto _test_eof771
 		}
-	st_case_778:
-//line msg_parse.go:9255
+	st_case_771:
+//line msg_parse.go:9241
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9338,7 +9324,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9333
+//line msg_parse.go:9319
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9449,7 +9435,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9444
+//line msg_parse.go:9430
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9503,7 +9489,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9498
+//line msg_parse.go:9484
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9519,7 +9505,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9514
+//line msg_parse.go:9500
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9535,7 +9521,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9530
+//line msg_parse.go:9516
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9551,7 +9537,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9546
+//line msg_parse.go:9532
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9567,7 +9553,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9562
+//line msg_parse.go:9548
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9583,7 +9569,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9578
+//line msg_parse.go:9564
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9600,13 +9586,13 @@ tr403:
 }
 //line sip.rl:257
  {goto st280 } 
-	goto st779
-	st779:
+	goto st772
+	st772:
 		if p++; p == pe {
-			goto _test_eof779
+			goto _test_eof772
 		}
-	st_case_779:
-//line msg_parse.go:9601
+	st_case_772:
+//line msg_parse.go:9587
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9619,7 +9605,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9614
+//line msg_parse.go:9600
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9729,7 +9715,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9724
+//line msg_parse.go:9710
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9750,7 +9736,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9745
+//line msg_parse.go:9731
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9787,13 +9773,13 @@ value=nil
 
 //line sip.rl:258
  {goto st263 } 
-	goto st780
-	st780:
+	goto st773
+	st773:
 		if p++; p == pe {
-			goto _test_eof780
+			goto _test_eof773
 		}
-	st_case_780:
-//line msg_parse.go:9788
+	st_case_773:
+//line msg_parse.go:9774
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9850,7 +9836,7 @@ value=nil
 		case 126:
 			goto tr414
 		case 269:
-			goto st764
+			goto st757
 		}
 		switch {
 		case _widec < 48:
@@ -9891,7 +9877,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9886
+//line msg_parse.go:9872
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9910,25 +9896,25 @@ tr414:
 		case 75:
 			goto st504
 		case 76:
-			goto st505
+			goto st434
 		case 77:
-			goto st512
+			goto st505
 		case 79:
-			goto st556
+			goto st549
 		case 80:
-			goto st568
+			goto st561
 		case 82:
-			goto st626
+			goto st619
 		case 83:
-			goto st686
+			goto st679
 		case 84:
-			goto st704
+			goto st697
 		case 85:
-			goto st714
+			goto st707
 		case 86:
-			goto st734
+			goto st727
 		case 87:
-			goto st742
+			goto st735
 		case 97:
 			goto st282
 		case 98:
@@ -9946,25 +9932,25 @@ tr414:
 		case 107:
 			goto st504
 		case 108:
-			goto st505
+			goto st434
 		case 109:
-			goto st512
+			goto st505
 		case 111:
-			goto st556
+			goto st549
 		case 112:
-			goto st568
+			goto st561
 		case 114:
-			goto st626
+			goto st619
 		case 115:
-			goto st686
+			goto st679
 		case 116:
-			goto st704
+			goto st697
 		case 117:
-			goto st714
+			goto st707
 		case 118:
-			goto st734
+			goto st727
 		case 119:
-			goto st742
+			goto st735
 		}
 		goto tr416
 	st282:
@@ -10049,97 +10035,91 @@ tr616:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr651:
+tr650:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr664:
+tr663:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr669:
+tr668:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr698:
+tr697:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr700:
+tr699:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr739:
+tr731:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr767:
+tr759:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr797:
+tr789:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr816:
+tr808:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr826:
+tr818:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr834:
+tr826:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr836:
+tr828:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr886:
+tr878:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr892:
+tr884:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr902:
+tr894:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr909:
+tr901:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr917:
+tr909:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr941:
+tr933:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr943:
-//line sip.rl:454
-value=&msg.Allow
-//line sip.rl:455
-value=&msg.AllowEvents
-	goto st283
-tr956:
+tr946:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr966:
+tr956:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr983:
+tr973:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr999:
+tr989:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10148,7 +10128,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10143
+//line msg_parse.go:10123
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10214,97 +10194,91 @@ tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr652:
+tr651:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr665:
+tr664:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr670:
+tr669:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr699:
+tr698:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr701:
+tr700:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr740:
+tr732:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr768:
+tr760:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr798:
+tr790:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr817:
+tr809:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr827:
+tr819:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr835:
+tr827:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr837:
+tr829:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr887:
+tr879:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr893:
+tr885:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr903:
+tr895:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr910:
+tr902:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr918:
+tr910:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr942:
+tr934:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr944:
-//line sip.rl:454
-value=&msg.Allow
-//line sip.rl:455
-value=&msg.AllowEvents
-	goto st284
-tr957:
+tr947:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr967:
+tr957:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr984:
+tr974:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr1000:
+tr990:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10313,7 +10287,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10282
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10343,7 +10317,7 @@ value=&msg.WWWAuthenticate
 tr559:
 //line sip.rl:257
  {goto st280 } 
-	goto st781
+	goto st774
 tr442:
 //line sip.rl:72
 
@@ -10352,7 +10326,7 @@ tr442:
 
 //line sip.rl:258
  {goto st263 } 
-	goto st781
+	goto st774
 tr541:
 //line sip.rl:72
 
@@ -10361,7 +10335,7 @@ tr541:
 
 //line sip.rl:256
  {goto st34 } 
-	goto st781
+	goto st774
 tr576:
 //line sip.rl:534
 value=nil
@@ -10372,8 +10346,8 @@ value=nil
 
 //line sip.rl:252
  {goto st256 } 
-	goto st781
-tr971:
+	goto st774
+tr961:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10385,19 +10359,19 @@ tr971:
 
 //line sip.rl:259
  {goto st103 } 
-	goto st781
-tr1001:
+	goto st774
+tr991:
 //line sip.rl:76
 
-	{p++; cs = 781; goto _out }
+	{p++; cs = 774; goto _out }
 
-	goto st781
-	st781:
+	goto st774
+	st774:
 		if p++; p == pe {
-			goto _test_eof781
+			goto _test_eof774
 		}
-	st_case_781:
-//line msg_parse.go:10392
+	st_case_774:
+//line msg_parse.go:10366
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11637,7 +11611,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11632
+//line msg_parse.go:11606
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11781,7 +11755,7 @@ tr557:
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr643:
+tr642:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11792,7 +11766,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11787
+//line msg_parse.go:11761
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -11984,27 +11958,27 @@ tr572:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr683:
+tr682:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr788:
+tr780:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr855:
+tr847:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr879:
+tr871:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr907:
+tr899:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr930:
+tr922:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12013,7 +11987,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:12008
+//line msg_parse.go:11982
 		switch data[p] {
 		case 9:
 			goto st394
@@ -12027,27 +12001,27 @@ tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr684:
+tr683:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr789:
+tr781:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr856:
+tr848:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr880:
+tr872:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr908:
+tr900:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr931:
+tr923:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12056,7 +12030,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12051
+//line msg_parse.go:12025
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12604,10 +12578,10 @@ addrp=lastAddr(&msg.To)
 			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
-tr624:
+tr623:
 //line sip.rl:493
 clen=0
 //line sip.rl:224
@@ -12615,7 +12589,7 @@ clen=0
 	clen = clen * 10 + (int(data[p]) - 0x30)
 
 	goto st437
-tr626:
+tr625:
 //line sip.rl:224
 
 	clen = clen * 10 + (int(data[p]) - 0x30)
@@ -12626,7 +12600,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12621
+//line msg_parse.go:12595
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12638,7 +12612,7 @@ tr626:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr625
 		}
 		goto st0
 	st438:
@@ -12674,7 +12648,7 @@ tr626:
 			goto st440
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr623
 		}
 		goto st0
 	st441:
@@ -12800,10 +12774,10 @@ tr626:
 			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
-tr637:
+tr636:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12814,7 +12788,7 @@ tr637:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12809
+//line msg_parse.go:12783
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12831,7 +12805,7 @@ tr637:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st451:
@@ -12852,13 +12826,13 @@ tr637:
 		case 32:
 			goto st451
 		case 33:
-			goto tr641
+			goto tr640
 		case 37:
-			goto tr641
+			goto tr640
 		case 39:
-			goto tr641
+			goto tr640
 		case 126:
-			goto tr641
+			goto tr640
 		case 525:
 			goto st453
 		}
@@ -12867,25 +12841,25 @@ tr637:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr640
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr640
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr640
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr640
 			}
 		default:
-			goto tr641
+			goto tr640
 		}
 		goto st0
-tr641:
+tr640:
 //line sip.rl:80
 
 	mark = p
@@ -12896,7 +12870,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12891
+//line msg_parse.go:12865
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12914,7 +12888,7 @@ tr641:
 		case 126:
 			goto st452
 		case 269:
-			goto tr643
+			goto tr642
 		}
 		switch {
 		case _widec < 48:
@@ -12971,35 +12945,35 @@ tr641:
 		case 32:
 			goto st455
 		case 33:
-			goto tr641
+			goto tr640
 		case 37:
-			goto tr641
+			goto tr640
 		case 39:
-			goto tr641
+			goto tr640
 		case 126:
-			goto tr641
+			goto tr640
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr640
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr640
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr640
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr640
 			}
 		default:
-			goto tr641
+			goto tr640
 		}
 		goto st0
 	st456:
@@ -13035,7 +13009,7 @@ tr641:
 			goto st458
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+			goto tr636
 		}
 		goto st0
 	st459:
@@ -13081,11 +13055,11 @@ tr641:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr651
+			goto tr650
 		case 32:
-			goto tr651
+			goto tr650
 		case 58:
-			goto tr652
+			goto tr651
 		}
 		goto tr416
 	st463:
@@ -13214,11 +13188,11 @@ tr641:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr664
+			goto tr663
 		case 32:
-			goto tr664
+			goto tr663
 		case 58:
-			goto tr665
+			goto tr664
 		}
 		goto tr416
 	st473:
@@ -13264,11 +13238,11 @@ tr641:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto tr668
 		case 32:
-			goto tr669
+			goto tr668
 		case 58:
-			goto tr670
+			goto tr669
 		}
 		goto tr416
 	st477:
@@ -13380,10 +13354,10 @@ tr641:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr677
 		}
 		goto st0
-tr678:
+tr677:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13391,7 +13365,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
-tr680:
+tr679:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13402,7 +13376,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13397
+//line msg_parse.go:13371
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13414,7 +13388,7 @@ tr680:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
+			goto tr679
 		}
 		goto st0
 	st486:
@@ -13450,7 +13424,7 @@ tr680:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto tr677
 		}
 		goto st0
 	st489:
@@ -13460,11 +13434,11 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr682
 		case 32:
-			goto tr683
+			goto tr682
 		case 58:
-			goto tr684
+			goto tr683
 		case 82:
 			goto st490
 		case 114:
@@ -13502,11 +13476,11 @@ tr680:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto tr682
 		case 32:
-			goto tr683
+			goto tr682
 		case 58:
-			goto tr684
+			goto tr683
 		}
 		goto tr416
 	st493:
@@ -13636,11 +13610,11 @@ tr680:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr698
+			goto tr697
 		case 32:
-			goto tr698
+			goto tr697
 		case 58:
-			goto tr699
+			goto tr698
 		}
 		goto tr416
 	st504:
@@ -13650,11 +13624,11 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr699
 		case 32:
-			goto tr700
+			goto tr699
 		case 58:
-			goto tr701
+			goto tr700
 		}
 		goto tr416
 	st505:
@@ -13664,11 +13638,19 @@ tr680:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto st506
+			goto tr572
 		case 32:
-			goto st506
+			goto tr572
 		case 58:
-			goto st507
+			goto tr573
+		case 65:
+			goto st506
+		case 73:
+			goto st523
+		case 97:
+			goto st506
+		case 105:
+			goto st523
 		}
 		goto tr416
 	st506:
@@ -13677,158 +13659,79 @@ tr680:
 		}
 	st_case_506:
 		switch data[p] {
-		case 9:
-			goto st506
-		case 32:
-			goto st506
-		case 58:
+		case 88:
+			goto st507
+		case 120:
 			goto st507
 		}
-		goto st0
+		goto tr416
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st507
-		case 32:
-			goto st507
-		case 525:
-			goto st509
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr704
+		if data[p] == 45 {
+			goto st508
 		}
-		goto st0
-tr704:
-//line sip.rl:493
-clen=0
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:495
-msg.Expires=0
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st508
-tr706:
-//line sip.rl:224
-
-	clen = clen * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:240
-
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st508
+		goto tr416
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-//line msg_parse.go:13753
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr706
+		switch data[p] {
+		case 70:
+			goto st509
+		case 102:
+			goto st509
 		}
-		goto st0
+		goto tr416
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		if data[p] == 10 {
+		switch data[p] {
+		case 79:
+			goto st510
+		case 111:
 			goto st510
 		}
-		goto st0
+		goto tr416
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st511
-		case 32:
+		case 114:
 			goto st511
 		}
-		goto st0
+		goto tr416
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 9:
-			goto st511
-		case 32:
-			goto st511
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr704
+		case 87:
+			goto st512
+		case 119:
+			goto st512
 		}
-		goto st0
+		goto tr416
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 9:
-			goto tr572
-		case 32:
-			goto tr572
-		case 58:
-			goto tr573
 		case 65:
 			goto st513
-		case 73:
-			goto st530
 		case 97:
 			goto st513
-		case 105:
-			goto st530
 		}
 		goto tr416
 	st513:
@@ -13837,9 +13740,9 @@ tr706:
 		}
 	st_case_513:
 		switch data[p] {
-		case 88:
+		case 82:
 			goto st514
-		case 120:
+		case 114:
 			goto st514
 		}
 		goto tr416
@@ -13848,7 +13751,10 @@ tr706:
 			goto _test_eof514
 		}
 	st_case_514:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st515
+		case 100:
 			goto st515
 		}
 		goto tr416
@@ -13858,9 +13764,9 @@ tr706:
 		}
 	st_case_515:
 		switch data[p] {
-		case 70:
+		case 83:
 			goto st516
-		case 102:
+		case 115:
 			goto st516
 		}
 		goto tr416
@@ -13870,10 +13776,12 @@ tr706:
 		}
 	st_case_516:
 		switch data[p] {
-		case 79:
+		case 9:
 			goto st517
-		case 111:
+		case 32:
 			goto st517
+		case 58:
+			goto st518
 		}
 		goto tr416
 	st517:
@@ -13882,84 +13790,122 @@ tr706:
 		}
 	st_case_517:
 		switch data[p] {
-		case 82:
-			goto st518
-		case 114:
+		case 9:
+			goto st517
+		case 32:
+			goto st517
+		case 58:
 			goto st518
 		}
-		goto tr416
+		goto st0
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
-		switch data[p] {
-		case 87:
-			goto st519
-		case 119:
-			goto st519
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 525:
+			goto st520
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr715
+		}
+		goto st0
+tr715:
+//line sip.rl:496
+msg.MaxForwards=0
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st519
+tr717:
+//line sip.rl:244
+
+	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+
+	goto st519
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-		switch data[p] {
-		case 65:
-			goto st520
-		case 97:
-			goto st520
-		}
-		goto tr416
-	st520:
-		if p++; p == pe {
-			goto _test_eof520
+//line msg_parse.go:13836
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr717
+		}
+		goto st0
+	st520:
+		if p++; p == pe {
+			goto _test_eof520
 		}
 	st_case_520:
-		switch data[p] {
-		case 82:
-			goto st521
-		case 114:
+		if data[p] == 10 {
 			goto st521
 		}
-		goto tr416
+		goto st0
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st522
-		case 100:
+		case 32:
 			goto st522
 		}
-		goto tr416
+		goto st0
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 83:
-			goto st523
-		case 115:
-			goto st523
+		case 9:
+			goto st522
+		case 32:
+			goto st522
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr715
+		}
+		goto st0
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
+		case 77:
 			goto st524
-		case 32:
+		case 78:
+			goto st534
+		case 109:
 			goto st524
-		case 58:
-			goto st525
+		case 110:
+			goto st534
 		}
 		goto tr416
 	st524:
@@ -13968,122 +13914,79 @@ tr706:
 		}
 	st_case_524:
 		switch data[p] {
-		case 9:
-			goto st524
-		case 32:
-			goto st524
-		case 58:
+		case 69:
+			goto st525
+		case 101:
 			goto st525
 		}
-		goto st0
+		goto tr416
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st525
-		case 32:
-			goto st525
-		case 525:
-			goto st527
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr723
+		if data[p] == 45 {
+			goto st526
 		}
-		goto st0
-tr723:
-//line sip.rl:496
-msg.MaxForwards=0
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st526
-tr725:
-//line sip.rl:244
-
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
-
-	goto st526
+		goto tr416
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-//line msg_parse.go:14014
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr725
+		switch data[p] {
+		case 86:
+			goto st527
+		case 118:
+			goto st527
 		}
-		goto st0
+		goto tr416
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st528
+		case 101:
 			goto st528
 		}
-		goto st0
+		goto tr416
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 9:
+		case 82:
 			goto st529
-		case 32:
+		case 114:
 			goto st529
 		}
-		goto st0
+		goto tr416
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 9:
-			goto st529
-		case 32:
-			goto st529
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr723
+		case 83:
+			goto st530
+		case 115:
+			goto st530
 		}
-		goto st0
+		goto tr416
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 77:
+		case 73:
 			goto st531
-		case 78:
-			goto st541
-		case 109:
+		case 105:
 			goto st531
-		case 110:
-			goto st541
 		}
 		goto tr416
 	st531:
@@ -14092,9 +13995,9 @@ tr725:
 		}
 	st_case_531:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st532
-		case 101:
+		case 111:
 			goto st532
 		}
 		goto tr416
@@ -14103,7 +14006,10 @@ tr725:
 			goto _test_eof532
 		}
 	st_case_532:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st533
+		case 110:
 			goto st533
 		}
 		goto tr416
@@ -14113,10 +14019,12 @@ tr725:
 		}
 	st_case_533:
 		switch data[p] {
-		case 86:
-			goto st534
-		case 118:
-			goto st534
+		case 9:
+			goto tr731
+		case 32:
+			goto tr731
+		case 58:
+			goto tr732
 		}
 		goto tr416
 	st534:
@@ -14124,10 +14032,7 @@ tr725:
 			goto _test_eof534
 		}
 	st_case_534:
-		switch data[p] {
-		case 69:
-			goto st535
-		case 101:
+		if data[p] == 45 {
 			goto st535
 		}
 		goto tr416
@@ -14137,9 +14042,9 @@ tr725:
 		}
 	st_case_535:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st536
-		case 114:
+		case 101:
 			goto st536
 		}
 		goto tr416
@@ -14149,9 +14054,9 @@ tr725:
 		}
 	st_case_536:
 		switch data[p] {
-		case 83:
+		case 88:
 			goto st537
-		case 115:
+		case 120:
 			goto st537
 		}
 		goto tr416
@@ -14161,9 +14066,9 @@ tr725:
 		}
 	st_case_537:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st538
-		case 105:
+		case 112:
 			goto st538
 		}
 		goto tr416
@@ -14173,9 +14078,9 @@ tr725:
 		}
 	st_case_538:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st539
-		case 111:
+		case 105:
 			goto st539
 		}
 		goto tr416
@@ -14185,9 +14090,9 @@ tr725:
 		}
 	st_case_539:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st540
-		case 110:
+		case 114:
 			goto st540
 		}
 		goto tr416
@@ -14197,12 +14102,10 @@ tr725:
 		}
 	st_case_540:
 		switch data[p] {
-		case 9:
-			goto tr739
-		case 32:
-			goto tr739
-		case 58:
-			goto tr740
+		case 69:
+			goto st541
+		case 101:
+			goto st541
 		}
 		goto tr416
 	st541:
@@ -14210,7 +14113,10 @@ tr725:
 			goto _test_eof541
 		}
 	st_case_541:
-		if data[p] == 45 {
+		switch data[p] {
+		case 83:
+			goto st542
+		case 115:
 			goto st542
 		}
 		goto tr416
@@ -14220,10 +14126,12 @@ tr725:
 		}
 	st_case_542:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st543
-		case 101:
+		case 32:
 			goto st543
+		case 58:
+			goto st544
 		}
 		goto tr416
 	st543:
@@ -14232,72 +14140,108 @@ tr725:
 		}
 	st_case_543:
 		switch data[p] {
-		case 88:
-			goto st544
-		case 120:
+		case 9:
+			goto st543
+		case 32:
+			goto st543
+		case 58:
 			goto st544
 		}
-		goto tr416
+		goto st0
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		switch data[p] {
-		case 80:
-			goto st545
-		case 112:
-			goto st545
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		switch _widec {
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 525:
+			goto st546
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr743
+		}
+		goto st0
+tr743:
+//line sip.rl:497
+msg.MinExpires=0
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st545
+tr745:
+//line sip.rl:248
+
+	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+
+	goto st545
 	st545:
 		if p++; p == pe {
 			goto _test_eof545
 		}
 	st_case_545:
-		switch data[p] {
-		case 73:
-			goto st546
-		case 105:
-			goto st546
+//line msg_parse.go:14186
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr416
+		if _widec == 269 {
+			goto st381
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr745
+		}
+		goto st0
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		switch data[p] {
-		case 82:
-			goto st547
-		case 114:
+		if data[p] == 10 {
 			goto st547
 		}
-		goto tr416
+		goto st0
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 69:
+		case 9:
 			goto st548
-		case 101:
+		case 32:
 			goto st548
 		}
-		goto tr416
+		goto st0
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 83:
-			goto st549
-		case 115:
-			goto st549
+		case 9:
+			goto st548
+		case 32:
+			goto st548
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr743
+		}
+		goto st0
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
@@ -14305,11 +14249,15 @@ tr725:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto st550
+			goto tr668
 		case 32:
-			goto st550
+			goto tr668
 		case 58:
-			goto st551
+			goto tr669
+		case 82:
+			goto st550
+		case 114:
+			goto st550
 		}
 		goto tr416
 	st550:
@@ -14318,123 +14266,81 @@ tr725:
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto st550
-		case 32:
-			goto st550
-		case 58:
-			goto st551
-		}
-		goto st0
-	st551:
-		if p++; p == pe {
-			goto _test_eof551
-		}
-	st_case_551:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
+		case 71:
 			goto st551
-		case 32:
+		case 103:
 			goto st551
-		case 525:
-			goto st553
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr751
 		}
-		goto st0
-tr751:
-//line sip.rl:497
-msg.MinExpires=0
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st552
-tr753:
-//line sip.rl:248
-
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
-
-	goto st552
+		goto tr416
+	st551:
+		if p++; p == pe {
+			goto _test_eof551
+		}
+	st_case_551:
+		switch data[p] {
+		case 65:
+			goto st552
+		case 97:
+			goto st552
+		}
+		goto tr416
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
-//line msg_parse.go:14364
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr753
+		switch data[p] {
+		case 78:
+			goto st553
+		case 110:
+			goto st553
 		}
-		goto st0
+		goto tr416
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st554
+		case 105:
 			goto st554
 		}
-		goto st0
+		goto tr416
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 9:
+		case 90:
 			goto st555
-		case 32:
+		case 122:
 			goto st555
 		}
-		goto st0
+		goto tr416
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 9:
-			goto st555
-		case 32:
-			goto st555
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr751
+		case 65:
+			goto st556
+		case 97:
+			goto st556
 		}
-		goto st0
+		goto tr416
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 9:
-			goto tr669
-		case 32:
-			goto tr669
-		case 58:
-			goto tr670
-		case 82:
+		case 84:
 			goto st557
-		case 114:
+		case 116:
 			goto st557
 		}
 		goto tr416
@@ -14444,9 +14350,9 @@ tr753:
 		}
 	st_case_557:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st558
-		case 103:
+		case 105:
 			goto st558
 		}
 		goto tr416
@@ -14456,9 +14362,9 @@ tr753:
 		}
 	st_case_558:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st559
-		case 97:
+		case 111:
 			goto st559
 		}
 		goto tr416
@@ -14480,10 +14386,12 @@ tr753:
 		}
 	st_case_560:
 		switch data[p] {
-		case 73:
-			goto st561
-		case 105:
-			goto st561
+		case 9:
+			goto tr759
+		case 32:
+			goto tr759
+		case 58:
+			goto tr760
 		}
 		goto tr416
 	st561:
@@ -14492,10 +14400,12 @@ tr753:
 		}
 	st_case_561:
 		switch data[p] {
-		case 90:
-			goto st562
-		case 122:
+		case 45:
 			goto st562
+		case 82:
+			goto st580
+		case 114:
+			goto st580
 		}
 		goto tr416
 	st562:
@@ -14516,9 +14426,9 @@ tr753:
 		}
 	st_case_563:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st564
-		case 116:
+		case 115:
 			goto st564
 		}
 		goto tr416
@@ -14528,9 +14438,9 @@ tr753:
 		}
 	st_case_564:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st565
-		case 105:
+		case 115:
 			goto st565
 		}
 		goto tr416
@@ -14540,9 +14450,9 @@ tr753:
 		}
 	st_case_565:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st566
-		case 111:
+		case 101:
 			goto st566
 		}
 		goto tr416
@@ -14552,9 +14462,9 @@ tr753:
 		}
 	st_case_566:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st567
-		case 110:
+		case 114:
 			goto st567
 		}
 		goto tr416
@@ -14564,12 +14474,10 @@ tr753:
 		}
 	st_case_567:
 		switch data[p] {
-		case 9:
-			goto tr767
-		case 32:
-			goto tr767
-		case 58:
-			goto tr768
+		case 84:
+			goto st568
+		case 116:
+			goto st568
 		}
 		goto tr416
 	st568:
@@ -14578,12 +14486,10 @@ tr753:
 		}
 	st_case_568:
 		switch data[p] {
-		case 45:
+		case 69:
+			goto st569
+		case 101:
 			goto st569
-		case 82:
-			goto st587
-		case 114:
-			goto st587
 		}
 		goto tr416
 	st569:
@@ -14592,9 +14498,9 @@ tr753:
 		}
 	st_case_569:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st570
-		case 97:
+		case 100:
 			goto st570
 		}
 		goto tr416
@@ -14603,10 +14509,7 @@ tr753:
 			goto _test_eof570
 		}
 	st_case_570:
-		switch data[p] {
-		case 83:
-			goto st571
-		case 115:
+		if data[p] == 45 {
 			goto st571
 		}
 		goto tr416
@@ -14616,9 +14519,9 @@ tr753:
 		}
 	st_case_571:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st572
-		case 115:
+		case 105:
 			goto st572
 		}
 		goto tr416
@@ -14628,9 +14531,9 @@ tr753:
 		}
 	st_case_572:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st573
-		case 101:
+		case 100:
 			goto st573
 		}
 		goto tr416
@@ -14640,9 +14543,9 @@ tr753:
 		}
 	st_case_573:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st574
-		case 114:
+		case 101:
 			goto st574
 		}
 		goto tr416
@@ -14652,9 +14555,9 @@ tr753:
 		}
 	st_case_574:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st575
-		case 116:
+		case 110:
 			goto st575
 		}
 		goto tr416
@@ -14664,9 +14567,9 @@ tr753:
 		}
 	st_case_575:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st576
-		case 101:
+		case 116:
 			goto st576
 		}
 		goto tr416
@@ -14676,9 +14579,9 @@ tr753:
 		}
 	st_case_576:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st577
-		case 100:
+		case 105:
 			goto st577
 		}
 		goto tr416
@@ -14687,7 +14590,10 @@ tr753:
 			goto _test_eof577
 		}
 	st_case_577:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st578
+		case 116:
 			goto st578
 		}
 		goto tr416
@@ -14697,9 +14603,9 @@ tr753:
 		}
 	st_case_578:
 		switch data[p] {
-		case 73:
+		case 89:
 			goto st579
-		case 105:
+		case 121:
 			goto st579
 		}
 		goto tr416
@@ -14709,10 +14615,12 @@ tr753:
 		}
 	st_case_579:
 		switch data[p] {
-		case 68:
-			goto st580
-		case 100:
-			goto st580
+		case 9:
+			goto tr780
+		case 32:
+			goto tr780
+		case 58:
+			goto tr781
 		}
 		goto tr416
 	st580:
@@ -14721,10 +14629,14 @@ tr753:
 		}
 	st_case_580:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st581
-		case 101:
+		case 79:
+			goto st587
+		case 105:
 			goto st581
+		case 111:
+			goto st587
 		}
 		goto tr416
 	st581:
@@ -14733,9 +14645,9 @@ tr753:
 		}
 	st_case_581:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st582
-		case 110:
+		case 111:
 			goto st582
 		}
 		goto tr416
@@ -14745,9 +14657,9 @@ tr753:
 		}
 	st_case_582:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st583
-		case 116:
+		case 114:
 			goto st583
 		}
 		goto tr416
@@ -14794,11 +14706,11 @@ tr753:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr788
+			goto tr789
 		case 32:
-			goto tr788
-		case 58:
 			goto tr789
+		case 58:
+			goto tr790
 		}
 		goto tr416
 	st587:
@@ -14807,14 +14719,10 @@ tr753:
 		}
 	st_case_587:
 		switch data[p] {
-		case 73:
+		case 88:
 			goto st588
-		case 79:
-			goto st594
-		case 105:
+		case 120:
 			goto st588
-		case 111:
-			goto st594
 		}
 		goto tr416
 	st588:
@@ -14823,9 +14731,9 @@ tr753:
 		}
 	st_case_588:
 		switch data[p] {
-		case 79:
+		case 89:
 			goto st589
-		case 111:
+		case 121:
 			goto st589
 		}
 		goto tr416
@@ -14834,10 +14742,7 @@ tr753:
 			goto _test_eof589
 		}
 	st_case_589:
-		switch data[p] {
-		case 82:
-			goto st590
-		case 114:
+		if data[p] == 45 {
 			goto st590
 		}
 		goto tr416
@@ -14847,10 +14752,14 @@ tr753:
 		}
 	st_case_590:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st591
-		case 105:
+		case 82:
+			goto st612
+		case 97:
 			goto st591
+		case 114:
+			goto st612
 		}
 		goto tr416
 	st591:
@@ -14859,9 +14768,9 @@ tr753:
 		}
 	st_case_591:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st592
-		case 116:
+		case 117:
 			goto st592
 		}
 		goto tr416
@@ -14871,9 +14780,9 @@ tr753:
 		}
 	st_case_592:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st593
-		case 121:
+		case 116:
 			goto st593
 		}
 		goto tr416
@@ -14883,12 +14792,10 @@ tr753:
 		}
 	st_case_593:
 		switch data[p] {
-		case 9:
-			goto tr797
-		case 32:
-			goto tr797
-		case 58:
-			goto tr798
+		case 72:
+			goto st594
+		case 104:
+			goto st594
 		}
 		goto tr416
 	st594:
@@ -14897,10 +14804,14 @@ tr753:
 		}
 	st_case_594:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st595
-		case 120:
+		case 79:
+			goto st603
+		case 101:
 			goto st595
+		case 111:
+			goto st603
 		}
 		goto tr416
 	st595:
@@ -14909,9 +14820,9 @@ tr753:
 		}
 	st_case_595:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st596
-		case 121:
+		case 110:
 			goto st596
 		}
 		goto tr416
@@ -14920,7 +14831,10 @@ tr753:
 			goto _test_eof596
 		}
 	st_case_596:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st597
+		case 116:
 			goto st597
 		}
 		goto tr416
@@ -14930,14 +14844,10 @@ tr753:
 		}
 	st_case_597:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st598
-		case 82:
-			goto st619
-		case 97:
+		case 105:
 			goto st598
-		case 114:
-			goto st619
 		}
 		goto tr416
 	st598:
@@ -14946,9 +14856,9 @@ tr753:
 		}
 	st_case_598:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st599
-		case 117:
+		case 99:
 			goto st599
 		}
 		goto tr416
@@ -14958,9 +14868,9 @@ tr753:
 		}
 	st_case_599:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st600
-		case 116:
+		case 97:
 			goto st600
 		}
 		goto tr416
@@ -14970,9 +14880,9 @@ tr753:
 		}
 	st_case_600:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st601
-		case 104:
+		case 116:
 			goto st601
 		}
 		goto tr416
@@ -14984,12 +14894,8 @@ tr753:
 		switch data[p] {
 		case 69:
 			goto st602
-		case 79:
-			goto st610
 		case 101:
 			goto st602
-		case 111:
-			goto st610
 		}
 		goto tr416
 	st602:
@@ -14998,10 +14904,12 @@ tr753:
 		}
 	st_case_602:
 		switch data[p] {
-		case 78:
-			goto st603
-		case 110:
-			goto st603
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
 		goto tr416
 	st603:
@@ -15010,9 +14918,9 @@ tr753:
 		}
 	st_case_603:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st604
-		case 116:
+		case 114:
 			goto st604
 		}
 		goto tr416
@@ -15034,9 +14942,9 @@ tr753:
 		}
 	st_case_605:
 		switch data[p] {
-		case 67:
+		case 90:
 			goto st606
-		case 99:
+		case 122:
 			goto st606
 		}
 		goto tr416
@@ -15070,9 +14978,9 @@ tr753:
 		}
 	st_case_608:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st609
-		case 101:
+		case 105:
 			goto st609
 		}
 		goto tr416
@@ -15082,12 +14990,10 @@ tr753:
 		}
 	st_case_609:
 		switch data[p] {
-		case 9:
-			goto tr816
-		case 32:
-			goto tr816
-		case 58:
-			goto tr817
+		case 79:
+			goto st610
+		case 111:
+			goto st610
 		}
 		goto tr416
 	st610:
@@ -15096,9 +15002,9 @@ tr753:
 		}
 	st_case_610:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st611
-		case 114:
+		case 110:
 			goto st611
 		}
 		goto tr416
@@ -15108,10 +15014,12 @@ tr753:
 		}
 	st_case_611:
 		switch data[p] {
-		case 73:
-			goto st612
-		case 105:
-			goto st612
+		case 9:
+			goto tr818
+		case 32:
+			goto tr818
+		case 58:
+			goto tr819
 		}
 		goto tr416
 	st612:
@@ -15120,9 +15028,9 @@ tr753:
 		}
 	st_case_612:
 		switch data[p] {
-		case 90:
+		case 69:
 			goto st613
-		case 122:
+		case 101:
 			goto st613
 		}
 		goto tr416
@@ -15132,9 +15040,9 @@ tr753:
 		}
 	st_case_613:
 		switch data[p] {
-		case 65:
+		case 81:
 			goto st614
-		case 97:
+		case 113:
 			goto st614
 		}
 		goto tr416
@@ -15144,9 +15052,9 @@ tr753:
 		}
 	st_case_614:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st615
-		case 116:
+		case 117:
 			goto st615
 		}
 		goto tr416
@@ -15168,9 +15076,9 @@ tr753:
 		}
 	st_case_616:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st617
-		case 111:
+		case 114:
 			goto st617
 		}
 		goto tr416
@@ -15180,9 +15088,9 @@ tr753:
 		}
 	st_case_617:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st618
-		case 110:
+		case 101:
 			goto st618
 		}
 		goto tr416
@@ -15206,10 +15114,20 @@ tr753:
 		}
 	st_case_619:
 		switch data[p] {
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		case 69:
 			goto st620
+		case 79:
+			goto st675
 		case 101:
 			goto st620
+		case 111:
+			goto st675
 		}
 		goto tr416
 	st620:
@@ -15218,10 +15136,30 @@ tr753:
 		}
 	st_case_620:
 		switch data[p] {
+		case 67:
+			goto st621
+		case 70:
+			goto st631
+		case 77:
+			goto st642
+		case 80:
+			goto st655
 		case 81:
+			goto st661
+		case 84:
+			goto st666
+		case 99:
 			goto st621
+		case 102:
+			goto st631
+		case 109:
+			goto st642
+		case 112:
+			goto st655
 		case 113:
-			goto st621
+			goto st661
+		case 116:
+			goto st666
 		}
 		goto tr416
 	st621:
@@ -15230,9 +15168,9 @@ tr753:
 		}
 	st_case_621:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st622
-		case 117:
+		case 111:
 			goto st622
 		}
 		goto tr416
@@ -15242,9 +15180,9 @@ tr753:
 		}
 	st_case_622:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st623
-		case 105:
+		case 114:
 			goto st623
 		}
 		goto tr416
@@ -15254,9 +15192,9 @@ tr753:
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st624
-		case 114:
+		case 100:
 			goto st624
 		}
 		goto tr416
@@ -15265,10 +15203,7 @@ tr753:
 			goto _test_eof624
 		}
 	st_case_624:
-		switch data[p] {
-		case 69:
-			goto st625
-		case 101:
+		if data[p] == 45 {
 			goto st625
 		}
 		goto tr416
@@ -15278,12 +15213,10 @@ tr753:
 		}
 	st_case_625:
 		switch data[p] {
-		case 9:
-			goto tr834
-		case 32:
-			goto tr834
-		case 58:
-			goto tr835
+		case 82:
+			goto st626
+		case 114:
+			goto st626
 		}
 		goto tr416
 	st626:
@@ -15292,20 +15225,10 @@ tr753:
 		}
 	st_case_626:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
-		case 69:
-			goto st627
 		case 79:
-			goto st682
-		case 101:
 			goto st627
 		case 111:
-			goto st682
+			goto st627
 		}
 		goto tr416
 	st627:
@@ -15314,30 +15237,10 @@ tr753:
 		}
 	st_case_627:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st628
-		case 70:
-			goto st638
-		case 77:
-			goto st649
-		case 80:
-			goto st662
-		case 81:
-			goto st668
-		case 84:
-			goto st673
-		case 99:
+		case 117:
 			goto st628
-		case 102:
-			goto st638
-		case 109:
-			goto st649
-		case 112:
-			goto st662
-		case 113:
-			goto st668
-		case 116:
-			goto st673
 		}
 		goto tr416
 	st628:
@@ -15346,9 +15249,9 @@ tr753:
 		}
 	st_case_628:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st629
-		case 111:
+		case 116:
 			goto st629
 		}
 		goto tr416
@@ -15358,9 +15261,9 @@ tr753:
 		}
 	st_case_629:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st630
-		case 114:
+		case 101:
 			goto st630
 		}
 		goto tr416
@@ -15370,10 +15273,12 @@ tr753:
 		}
 	st_case_630:
 		switch data[p] {
-		case 68:
-			goto st631
-		case 100:
-			goto st631
+		case 9:
+			goto tr847
+		case 32:
+			goto tr847
+		case 58:
+			goto tr848
 		}
 		goto tr416
 	st631:
@@ -15381,7 +15286,10 @@ tr753:
 			goto _test_eof631
 		}
 	st_case_631:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st632
+		case 101:
 			goto st632
 		}
 		goto tr416
@@ -15403,10 +15311,12 @@ tr753:
 		}
 	st_case_633:
 		switch data[p] {
-		case 79:
-			goto st634
-		case 111:
+		case 45:
 			goto st634
+		case 82:
+			goto st637
+		case 114:
+			goto st637
 		}
 		goto tr416
 	st634:
@@ -15415,9 +15325,9 @@ tr753:
 		}
 	st_case_634:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st635
-		case 117:
+		case 116:
 			goto st635
 		}
 		goto tr416
@@ -15427,9 +15337,9 @@ tr753:
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st636
-		case 116:
+		case 111:
 			goto st636
 		}
 		goto tr416
@@ -15439,10 +15349,12 @@ tr753:
 		}
 	st_case_636:
 		switch data[p] {
-		case 69:
-			goto st637
-		case 101:
-			goto st637
+		case 9:
+			goto tr828
+		case 32:
+			goto tr828
+		case 58:
+			goto tr829
 		}
 		goto tr416
 	st637:
@@ -15451,12 +15363,10 @@ tr753:
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr855
-		case 32:
-			goto tr855
-		case 58:
-			goto tr856
+		case 69:
+			goto st638
+		case 101:
+			goto st638
 		}
 		goto tr416
 	st638:
@@ -15465,9 +15375,9 @@ tr753:
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st639
-		case 101:
+		case 100:
 			goto st639
 		}
 		goto tr416
@@ -15476,10 +15386,7 @@ tr753:
 			goto _test_eof639
 		}
 	st_case_639:
-		switch data[p] {
-		case 82:
-			goto st640
-		case 114:
+		if data[p] == 45 {
 			goto st640
 		}
 		goto tr416
@@ -15489,12 +15396,10 @@ tr753:
 		}
 	st_case_640:
 		switch data[p] {
-		case 45:
+		case 66:
+			goto st641
+		case 98:
 			goto st641
-		case 82:
-			goto st644
-		case 114:
-			goto st644
 		}
 		goto tr416
 	st641:
@@ -15503,10 +15408,10 @@ tr753:
 		}
 	st_case_641:
 		switch data[p] {
-		case 84:
-			goto st642
-		case 116:
-			goto st642
+		case 89:
+			goto st363
+		case 121:
+			goto st363
 		}
 		goto tr416
 	st642:
@@ -15527,12 +15432,10 @@ tr753:
 		}
 	st_case_643:
 		switch data[p] {
-		case 9:
-			goto tr836
-		case 32:
-			goto tr836
-		case 58:
-			goto tr837
+		case 84:
+			goto st644
+		case 116:
+			goto st644
 		}
 		goto tr416
 	st644:
@@ -15552,10 +15455,7 @@ tr753:
 			goto _test_eof645
 		}
 	st_case_645:
-		switch data[p] {
-		case 68:
-			goto st646
-		case 100:
+		if data[p] == 45 {
 			goto st646
 		}
 		goto tr416
@@ -15564,7 +15464,10 @@ tr753:
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st647
+		case 112:
 			goto st647
 		}
 		goto tr416
@@ -15574,9 +15477,9 @@ tr753:
 		}
 	st_case_647:
 		switch data[p] {
-		case 66:
+		case 65:
 			goto st648
-		case 98:
+		case 97:
 			goto st648
 		}
 		goto tr416
@@ -15586,10 +15489,10 @@ tr753:
 		}
 	st_case_648:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 82:
+			goto st649
+		case 114:
+			goto st649
 		}
 		goto tr416
 	st649:
@@ -15598,9 +15501,9 @@ tr753:
 		}
 	st_case_649:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st650
-		case 111:
+		case 116:
 			goto st650
 		}
 		goto tr416
@@ -15610,9 +15513,9 @@ tr753:
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st651
-		case 116:
+		case 121:
 			goto st651
 		}
 		goto tr416
@@ -15621,10 +15524,7 @@ tr753:
 			goto _test_eof651
 		}
 	st_case_651:
-		switch data[p] {
-		case 69:
-			goto st652
-		case 101:
+		if data[p] == 45 {
 			goto st652
 		}
 		goto tr416
@@ -15633,7 +15533,10 @@ tr753:
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st653
+		case 105:
 			goto st653
 		}
 		goto tr416
@@ -15643,9 +15546,9 @@ tr753:
 		}
 	st_case_653:
 		switch data[p] {
-		case 80:
+		case 68:
 			goto st654
-		case 112:
+		case 100:
 			goto st654
 		}
 		goto tr416
@@ -15655,10 +15558,12 @@ tr753:
 		}
 	st_case_654:
 		switch data[p] {
-		case 65:
-			goto st655
-		case 97:
-			goto st655
+		case 9:
+			goto tr871
+		case 32:
+			goto tr871
+		case 58:
+			goto tr872
 		}
 		goto tr416
 	st655:
@@ -15667,9 +15572,9 @@ tr753:
 		}
 	st_case_655:
 		switch data[p] {
-		case 82:
+		case 76:
 			goto st656
-		case 114:
+		case 108:
 			goto st656
 		}
 		goto tr416
@@ -15679,9 +15584,9 @@ tr753:
 		}
 	st_case_656:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st657
-		case 116:
+		case 121:
 			goto st657
 		}
 		goto tr416
@@ -15690,10 +15595,7 @@ tr753:
 			goto _test_eof657
 		}
 	st_case_657:
-		switch data[p] {
-		case 89:
-			goto st658
-		case 121:
+		if data[p] == 45 {
 			goto st658
 		}
 		goto tr416
@@ -15702,7 +15604,10 @@ tr753:
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st659
+		case 116:
 			goto st659
 		}
 		goto tr416
@@ -15712,9 +15617,9 @@ tr753:
 		}
 	st_case_659:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st660
-		case 105:
+		case 111:
 			goto st660
 		}
 		goto tr416
@@ -15724,10 +15629,12 @@ tr753:
 		}
 	st_case_660:
 		switch data[p] {
-		case 68:
-			goto st661
-		case 100:
-			goto st661
+		case 9:
+			goto tr878
+		case 32:
+			goto tr878
+		case 58:
+			goto tr879
 		}
 		goto tr416
 	st661:
@@ -15736,12 +15643,10 @@ tr753:
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr879
-		case 32:
-			goto tr879
-		case 58:
-			goto tr880
+		case 85:
+			goto st662
+		case 117:
+			goto st662
 		}
 		goto tr416
 	st662:
@@ -15750,9 +15655,9 @@ tr753:
 		}
 	st_case_662:
 		switch data[p] {
-		case 76:
+		case 73:
 			goto st663
-		case 108:
+		case 105:
 			goto st663
 		}
 		goto tr416
@@ -15762,9 +15667,9 @@ tr753:
 		}
 	st_case_663:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st664
-		case 121:
+		case 114:
 			goto st664
 		}
 		goto tr416
@@ -15773,7 +15678,10 @@ tr753:
 			goto _test_eof664
 		}
 	st_case_664:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st665
+		case 101:
 			goto st665
 		}
 		goto tr416
@@ -15783,10 +15691,12 @@ tr753:
 		}
 	st_case_665:
 		switch data[p] {
-		case 84:
-			goto st666
-		case 116:
-			goto st666
+		case 9:
+			goto tr884
+		case 32:
+			goto tr884
+		case 58:
+			goto tr885
 		}
 		goto tr416
 	st666:
@@ -15795,9 +15705,9 @@ tr753:
 		}
 	st_case_666:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st667
-		case 111:
+		case 114:
 			goto st667
 		}
 		goto tr416
@@ -15807,12 +15717,10 @@ tr753:
 		}
 	st_case_667:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 89:
+			goto st668
+		case 121:
+			goto st668
 		}
 		goto tr416
 	st668:
@@ -15820,10 +15728,7 @@ tr753:
 			goto _test_eof668
 		}
 	st_case_668:
-		switch data[p] {
-		case 85:
-			goto st669
-		case 117:
+		if data[p] == 45 {
 			goto st669
 		}
 		goto tr416
@@ -15833,9 +15738,9 @@ tr753:
 		}
 	st_case_669:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st670
-		case 105:
+		case 97:
 			goto st670
 		}
 		goto tr416
@@ -15845,9 +15750,9 @@ tr753:
 		}
 	st_case_670:
 		switch data[p] {
-		case 82:
+		case 70:
 			goto st671
-		case 114:
+		case 102:
 			goto st671
 		}
 		goto tr416
@@ -15857,9 +15762,9 @@ tr753:
 		}
 	st_case_671:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st672
-		case 101:
+		case 116:
 			goto st672
 		}
 		goto tr416
@@ -15869,12 +15774,10 @@ tr753:
 		}
 	st_case_672:
 		switch data[p] {
-		case 9:
-			goto tr892
-		case 32:
-			goto tr892
-		case 58:
-			goto tr893
+		case 69:
+			goto st673
+		case 101:
+			goto st673
 		}
 		goto tr416
 	st673:
@@ -15895,10 +15798,12 @@ tr753:
 		}
 	st_case_674:
 		switch data[p] {
-		case 89:
-			goto st675
-		case 121:
-			goto st675
+		case 9:
+			goto tr894
+		case 32:
+			goto tr894
+		case 58:
+			goto tr895
 		}
 		goto tr416
 	st675:
@@ -15906,7 +15811,10 @@ tr753:
 			goto _test_eof675
 		}
 	st_case_675:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st676
+		case 117:
 			goto st676
 		}
 		goto tr416
@@ -15916,9 +15824,9 @@ tr753:
 		}
 	st_case_676:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st677
-		case 97:
+		case 116:
 			goto st677
 		}
 		goto tr416
@@ -15928,9 +15836,9 @@ tr753:
 		}
 	st_case_677:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st678
-		case 102:
+		case 101:
 			goto st678
 		}
 		goto tr416
@@ -15940,10 +15848,12 @@ tr753:
 		}
 	st_case_678:
 		switch data[p] {
-		case 84:
-			goto st679
-		case 116:
-			goto st679
+		case 9:
+			goto tr899
+		case 32:
+			goto tr899
+		case 58:
+			goto tr900
 		}
 		goto tr416
 	st679:
@@ -15952,10 +15862,20 @@ tr753:
 		}
 	st_case_679:
 		switch data[p] {
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		case 69:
 			goto st680
+		case 85:
+			goto st685
 		case 101:
 			goto st680
+		case 117:
+			goto st685
 		}
 		goto tr416
 	st680:
@@ -15976,12 +15896,10 @@ tr753:
 		}
 	st_case_681:
 		switch data[p] {
-		case 9:
-			goto tr902
-		case 32:
-			goto tr902
-		case 58:
-			goto tr903
+		case 86:
+			goto st682
+		case 118:
+			goto st682
 		}
 		goto tr416
 	st682:
@@ -15990,9 +15908,9 @@ tr753:
 		}
 	st_case_682:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st683
-		case 117:
+		case 101:
 			goto st683
 		}
 		goto tr416
@@ -16002,9 +15920,9 @@ tr753:
 		}
 	st_case_683:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st684
-		case 116:
+		case 114:
 			goto st684
 		}
 		goto tr416
@@ -16014,10 +15932,12 @@ tr753:
 		}
 	st_case_684:
 		switch data[p] {
-		case 69:
-			goto st685
-		case 101:
-			goto st685
+		case 9:
+			goto tr909
+		case 32:
+			goto tr909
+		case 58:
+			goto tr910
 		}
 		goto tr416
 	st685:
@@ -16026,12 +15946,14 @@ tr753:
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr907
-		case 32:
-			goto tr907
-		case 58:
-			goto tr908
+		case 66:
+			goto st686
+		case 80:
+			goto st691
+		case 98:
+			goto st686
+		case 112:
+			goto st691
 		}
 		goto tr416
 	st686:
@@ -16040,20 +15962,10 @@ tr753:
 		}
 	st_case_686:
 		switch data[p] {
-		case 9:
-			goto tr909
-		case 32:
-			goto tr909
-		case 58:
-			goto tr910
-		case 69:
+		case 74:
 			goto st687
-		case 85:
-			goto st692
-		case 101:
+		case 106:
 			goto st687
-		case 117:
-			goto st692
 		}
 		goto tr416
 	st687:
@@ -16062,9 +15974,9 @@ tr753:
 		}
 	st_case_687:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st688
-		case 114:
+		case 101:
 			goto st688
 		}
 		goto tr416
@@ -16074,9 +15986,9 @@ tr753:
 		}
 	st_case_688:
 		switch data[p] {
-		case 86:
+		case 67:
 			goto st689
-		case 118:
+		case 99:
 			goto st689
 		}
 		goto tr416
@@ -16086,9 +15998,9 @@ tr753:
 		}
 	st_case_689:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st690
-		case 101:
+		case 116:
 			goto st690
 		}
 		goto tr416
@@ -16098,10 +16010,12 @@ tr753:
 		}
 	st_case_690:
 		switch data[p] {
-		case 82:
-			goto st691
-		case 114:
-			goto st691
+		case 9:
+			goto tr901
+		case 32:
+			goto tr901
+		case 58:
+			goto tr902
 		}
 		goto tr416
 	st691:
@@ -16110,12 +16024,10 @@ tr753:
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr917
-		case 32:
-			goto tr917
-		case 58:
-			goto tr918
+		case 80:
+			goto st692
+		case 112:
+			goto st692
 		}
 		goto tr416
 	st692:
@@ -16124,14 +16036,10 @@ tr753:
 		}
 	st_case_692:
 		switch data[p] {
-		case 66:
+		case 79:
 			goto st693
-		case 80:
-			goto st698
-		case 98:
+		case 111:
 			goto st693
-		case 112:
-			goto st698
 		}
 		goto tr416
 	st693:
@@ -16140,9 +16048,9 @@ tr753:
 		}
 	st_case_693:
 		switch data[p] {
-		case 74:
+		case 82:
 			goto st694
-		case 106:
+		case 114:
 			goto st694
 		}
 		goto tr416
@@ -16152,9 +16060,9 @@ tr753:
 		}
 	st_case_694:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st695
-		case 101:
+		case 116:
 			goto st695
 		}
 		goto tr416
@@ -16164,9 +16072,9 @@ tr753:
 		}
 	st_case_695:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st696
-		case 99:
+		case 101:
 			goto st696
 		}
 		goto tr416
@@ -16176,10 +16084,10 @@ tr753:
 		}
 	st_case_696:
 		switch data[p] {
-		case 84:
-			goto st697
-		case 116:
-			goto st697
+		case 68:
+			goto st504
+		case 100:
+			goto st504
 		}
 		goto tr416
 	st697:
@@ -16189,11 +16097,19 @@ tr753:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr922
 		case 32:
-			goto tr909
+			goto tr922
 		case 58:
-			goto tr910
+			goto tr923
+		case 73:
+			goto st698
+		case 79:
+			goto st706
+		case 105:
+			goto st698
+		case 111:
+			goto st706
 		}
 		goto tr416
 	st698:
@@ -16202,9 +16118,9 @@ tr753:
 		}
 	st_case_698:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st699
-		case 112:
+		case 109:
 			goto st699
 		}
 		goto tr416
@@ -16214,9 +16130,9 @@ tr753:
 		}
 	st_case_699:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st700
-		case 111:
+		case 101:
 			goto st700
 		}
 		goto tr416
@@ -16226,9 +16142,9 @@ tr753:
 		}
 	st_case_700:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st701
-		case 114:
+		case 115:
 			goto st701
 		}
 		goto tr416
@@ -16250,9 +16166,9 @@ tr753:
 		}
 	st_case_702:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st703
-		case 101:
+		case 97:
 			goto st703
 		}
 		goto tr416
@@ -16262,10 +16178,10 @@ tr753:
 		}
 	st_case_703:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 77:
+			goto st704
+		case 109:
+			goto st704
 		}
 		goto tr416
 	st704:
@@ -16274,20 +16190,10 @@ tr753:
 		}
 	st_case_704:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
-		case 73:
+		case 80:
 			goto st705
-		case 79:
-			goto st713
-		case 105:
+		case 112:
 			goto st705
-		case 111:
-			goto st713
 		}
 		goto tr416
 	st705:
@@ -16296,10 +16202,12 @@ tr753:
 		}
 	st_case_705:
 		switch data[p] {
-		case 77:
-			goto st706
-		case 109:
-			goto st706
+		case 9:
+			goto tr933
+		case 32:
+			goto tr933
+		case 58:
+			goto tr934
 		}
 		goto tr416
 	st706:
@@ -16308,10 +16216,12 @@ tr753:
 		}
 	st_case_706:
 		switch data[p] {
-		case 69:
-			goto st707
-		case 101:
-			goto st707
+		case 9:
+			goto tr922
+		case 32:
+			goto tr922
+		case 58:
+			goto tr923
 		}
 		goto tr416
 	st707:
@@ -16320,10 +16230,20 @@ tr753:
 		}
 	st_case_707:
 		switch data[p] {
+		case 9:
+			goto tr502
+		case 32:
+			goto tr502
+		case 58:
+			goto tr503
+		case 78:
+			goto st708
 		case 83:
+			goto st718
+		case 110:
 			goto st708
 		case 115:
-			goto st708
+			goto st718
 		}
 		goto tr416
 	st708:
@@ -16332,9 +16252,9 @@ tr753:
 		}
 	st_case_708:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st709
-		case 116:
+		case 115:
 			goto st709
 		}
 		goto tr416
@@ -16344,9 +16264,9 @@ tr753:
 		}
 	st_case_709:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st710
-		case 97:
+		case 117:
 			goto st710
 		}
 		goto tr416
@@ -16356,9 +16276,9 @@ tr753:
 		}
 	st_case_710:
 		switch data[p] {
-		case 77:
+		case 80:
 			goto st711
-		case 109:
+		case 112:
 			goto st711
 		}
 		goto tr416
@@ -16380,12 +16300,10 @@ tr753:
 		}
 	st_case_712:
 		switch data[p] {
-		case 9:
-			goto tr941
-		case 32:
-			goto tr941
-		case 58:
-			goto tr942
+		case 79:
+			goto st713
+		case 111:
+			goto st713
 		}
 		goto tr416
 	st713:
@@ -16394,12 +16312,10 @@ tr753:
 		}
 	st_case_713:
 		switch data[p] {
-		case 9:
-			goto tr930
-		case 32:
-			goto tr930
-		case 58:
-			goto tr931
+		case 82:
+			goto st714
+		case 114:
+			goto st714
 		}
 		goto tr416
 	st714:
@@ -16408,20 +16324,10 @@ tr753:
 		}
 	st_case_714:
 		switch data[p] {
-		case 9:
-			goto tr943
-		case 32:
-			goto tr943
-		case 58:
-			goto tr944
-		case 78:
+		case 84:
 			goto st715
-		case 83:
-			goto st725
-		case 110:
+		case 116:
 			goto st715
-		case 115:
-			goto st725
 		}
 		goto tr416
 	st715:
@@ -16430,9 +16336,9 @@ tr753:
 		}
 	st_case_715:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st716
-		case 115:
+		case 101:
 			goto st716
 		}
 		goto tr416
@@ -16442,9 +16348,9 @@ tr753:
 		}
 	st_case_716:
 		switch data[p] {
-		case 85:
+		case 68:
 			goto st717
-		case 117:
+		case 100:
 			goto st717
 		}
 		goto tr416
@@ -16454,10 +16360,12 @@ tr753:
 		}
 	st_case_717:
 		switch data[p] {
-		case 80:
-			goto st718
-		case 112:
-			goto st718
+		case 9:
+			goto tr946
+		case 32:
+			goto tr946
+		case 58:
+			goto tr947
 		}
 		goto tr416
 	st718:
@@ -16466,9 +16374,9 @@ tr753:
 		}
 	st_case_718:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st719
-		case 112:
+		case 101:
 			goto st719
 		}
 		goto tr416
@@ -16478,9 +16386,9 @@ tr753:
 		}
 	st_case_719:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st720
-		case 111:
+		case 114:
 			goto st720
 		}
 		goto tr416
@@ -16489,10 +16397,7 @@ tr753:
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		if data[p] == 45 {
 			goto st721
 		}
 		goto tr416
@@ -16502,9 +16407,9 @@ tr753:
 		}
 	st_case_721:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st722
-		case 116:
+		case 97:
 			goto st722
 		}
 		goto tr416
@@ -16514,9 +16419,9 @@ tr753:
 		}
 	st_case_722:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st723
-		case 101:
+		case 103:
 			goto st723
 		}
 		goto tr416
@@ -16526,9 +16431,9 @@ tr753:
 		}
 	st_case_723:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st724
-		case 100:
+		case 101:
 			goto st724
 		}
 		goto tr416
@@ -16538,12 +16443,10 @@ tr753:
 		}
 	st_case_724:
 		switch data[p] {
-		case 9:
-			goto tr956
-		case 32:
-			goto tr956
-		case 58:
-			goto tr957
+		case 78:
+			goto st725
+		case 110:
+			goto st725
 		}
 		goto tr416
 	st725:
@@ -16552,9 +16455,9 @@ tr753:
 		}
 	st_case_725:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st726
-		case 101:
+		case 116:
 			goto st726
 		}
 		goto tr416
@@ -16564,10 +16467,12 @@ tr753:
 		}
 	st_case_726:
 		switch data[p] {
-		case 82:
-			goto st727
-		case 114:
-			goto st727
+		case 9:
+			goto tr956
+		case 32:
+			goto tr956
+		case 58:
+			goto tr957
 		}
 		goto tr416
 	st727:
@@ -16575,8 +16480,17 @@ tr753:
 			goto _test_eof727
 		}
 	st_case_727:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st728
+		case 32:
 			goto st728
+		case 58:
+			goto st729
+		case 73:
+			goto st733
+		case 105:
+			goto st733
 		}
 		goto tr416
 	st728:
@@ -16585,72 +16499,88 @@ tr753:
 		}
 	st_case_728:
 		switch data[p] {
-		case 65:
-			goto st729
-		case 97:
+		case 9:
+			goto st728
+		case 32:
+			goto st728
+		case 58:
 			goto st729
 		}
-		goto tr416
+		goto st0
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
-		switch data[p] {
-		case 71:
-			goto st730
-		case 103:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 269:
+			goto tr961
+		case 525:
 			goto st730
 		}
-		goto tr416
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr961
+			}
+		default:
+			goto tr961
+		}
+		goto st0
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		switch data[p] {
-		case 69:
-			goto st731
-		case 101:
+		if data[p] == 10 {
 			goto st731
 		}
-		goto tr416
+		goto st0
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st732
-		case 110:
+		case 32:
 			goto st732
 		}
-		goto tr416
+		goto st0
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 84:
-			goto st733
-		case 116:
-			goto st733
+		case 9:
+			goto st732
+		case 32:
+			goto st732
 		}
-		goto tr416
+		goto tr961
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
-	st_case_733:
-		switch data[p] {
-		case 9:
-			goto tr966
-		case 32:
-			goto tr966
-		case 58:
-			goto tr967
+	st_case_733:
+		switch data[p] {
+		case 65:
+			goto st734
+		case 97:
+			goto st734
 		}
 		goto tr416
 	st734:
@@ -16660,15 +16590,11 @@ tr753:
 	st_case_734:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto st728
 		case 32:
-			goto st735
+			goto st728
 		case 58:
-			goto st736
-		case 73:
-			goto st740
-		case 105:
-			goto st740
+			goto st729
 		}
 		goto tr416
 	st735:
@@ -16677,87 +16603,73 @@ tr753:
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st735
-		case 32:
-			goto st735
-		case 58:
+		case 65:
+			goto st736
+		case 87:
+			goto st742
+		case 97:
 			goto st736
+		case 119:
+			goto st742
 		}
-		goto st0
+		goto tr416
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st736
-		case 32:
-			goto st736
-		case 269:
-			goto tr971
-		case 525:
+		switch data[p] {
+		case 82:
+			goto st737
+		case 114:
 			goto st737
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr971
-			}
-		default:
-			goto tr971
-		}
-		goto st0
+		goto tr416
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st738
+		case 110:
 			goto st738
 		}
-		goto st0
+		goto tr416
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st739
-		case 32:
+		case 105:
 			goto st739
 		}
-		goto st0
+		goto tr416
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 9:
-			goto st739
-		case 32:
-			goto st739
+		case 78:
+			goto st740
+		case 110:
+			goto st740
 		}
-		goto tr971
+		goto tr416
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st741
-		case 97:
+		case 103:
 			goto st741
 		}
 		goto tr416
@@ -16768,11 +16680,11 @@ tr753:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto st735
+			goto tr973
 		case 32:
-			goto st735
+			goto tr973
 		case 58:
-			goto st736
+			goto tr974
 		}
 		goto tr416
 	st742:
@@ -16781,14 +16693,10 @@ tr753:
 		}
 	st_case_742:
 		switch data[p] {
-		case 65:
-			goto st743
 		case 87:
-			goto st749
-		case 97:
 			goto st743
 		case 119:
-			goto st749
+			goto st743
 		}
 		goto tr416
 	st743:
@@ -16796,10 +16704,7 @@ tr753:
 			goto _test_eof743
 		}
 	st_case_743:
-		switch data[p] {
-		case 82:
-			goto st744
-		case 114:
+		if data[p] == 45 {
 			goto st744
 		}
 		goto tr416
@@ -16809,9 +16714,9 @@ tr753:
 		}
 	st_case_744:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st745
-		case 110:
+		case 97:
 			goto st745
 		}
 		goto tr416
@@ -16821,9 +16726,9 @@ tr753:
 		}
 	st_case_745:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st746
-		case 105:
+		case 117:
 			goto st746
 		}
 		goto tr416
@@ -16833,9 +16738,9 @@ tr753:
 		}
 	st_case_746:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st747
-		case 110:
+		case 116:
 			goto st747
 		}
 		goto tr416
@@ -16845,9 +16750,9 @@ tr753:
 		}
 	st_case_747:
 		switch data[p] {
-		case 71:
+		case 72:
 			goto st748
-		case 103:
+		case 104:
 			goto st748
 		}
 		goto tr416
@@ -16857,12 +16762,10 @@ tr753:
 		}
 	st_case_748:
 		switch data[p] {
-		case 9:
-			goto tr983
-		case 32:
-			goto tr983
-		case 58:
-			goto tr984
+		case 69:
+			goto st749
+		case 101:
+			goto st749
 		}
 		goto tr416
 	st749:
@@ -16871,9 +16774,9 @@ tr753:
 		}
 	st_case_749:
 		switch data[p] {
-		case 87:
+		case 78:
 			goto st750
-		case 119:
+		case 110:
 			goto st750
 		}
 		goto tr416
@@ -16882,7 +16785,10 @@ tr753:
 			goto _test_eof750
 		}
 	st_case_750:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st751
+		case 116:
 			goto st751
 		}
 		goto tr416
@@ -16892,9 +16798,9 @@ tr753:
 		}
 	st_case_751:
 		switch data[p] {
-		case 65:
+		case 73:
 			goto st752
-		case 97:
+		case 105:
 			goto st752
 		}
 		goto tr416
@@ -16904,9 +16810,9 @@ tr753:
 		}
 	st_case_752:
 		switch data[p] {
-		case 85:
+		case 67:
 			goto st753
-		case 117:
+		case 99:
 			goto st753
 		}
 		goto tr416
@@ -16916,9 +16822,9 @@ tr753:
 		}
 	st_case_753:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st754
-		case 116:
+		case 97:
 			goto st754
 		}
 		goto tr416
@@ -16928,9 +16834,9 @@ tr753:
 		}
 	st_case_754:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st755
-		case 104:
+		case 116:
 			goto st755
 		}
 		goto tr416
@@ -16951,106 +16857,22 @@ tr753:
 			goto _test_eof756
 		}
 	st_case_756:
-		switch data[p] {
-		case 78:
-			goto st757
-		case 110:
-			goto st757
-		}
-		goto tr416
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
-		switch data[p] {
-		case 84:
-			goto st758
-		case 116:
-			goto st758
-		}
-		goto tr416
-	st758:
-		if p++; p == pe {
-			goto _test_eof758
-		}
-	st_case_758:
-		switch data[p] {
-		case 73:
-			goto st759
-		case 105:
-			goto st759
-		}
-		goto tr416
-	st759:
-		if p++; p == pe {
-			goto _test_eof759
-		}
-	st_case_759:
-		switch data[p] {
-		case 67:
-			goto st760
-		case 99:
-			goto st760
-		}
-		goto tr416
-	st760:
-		if p++; p == pe {
-			goto _test_eof760
-		}
-	st_case_760:
-		switch data[p] {
-		case 65:
-			goto st761
-		case 97:
-			goto st761
-		}
-		goto tr416
-	st761:
-		if p++; p == pe {
-			goto _test_eof761
-		}
-	st_case_761:
-		switch data[p] {
-		case 84:
-			goto st762
-		case 116:
-			goto st762
-		}
-		goto tr416
-	st762:
-		if p++; p == pe {
-			goto _test_eof762
-		}
-	st_case_762:
-		switch data[p] {
-		case 69:
-			goto st763
-		case 101:
-			goto st763
-		}
-		goto tr416
-	st763:
-		if p++; p == pe {
-			goto _test_eof763
-		}
-	st_case_763:
 		switch data[p] {
 		case 9:
-			goto tr999
+			goto tr989
 		case 32:
-			goto tr999
+			goto tr989
 		case 58:
-			goto tr1000
+			goto tr990
 		}
 		goto tr416
-	st764:
+	st757:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof757
 		}
-	st_case_764:
+	st_case_757:
 		if data[p] == 10 {
-			goto tr1001
+			goto tr991
 		}
 		goto st0
 	st_out:
@@ -17066,7 +16888,7 @@ tr753:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -17098,7 +16920,7 @@ tr753:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
+	_test_eof759: cs = 759; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -17126,7 +16948,7 @@ tr753:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
+	_test_eof760: cs = 760; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17170,7 +16992,7 @@ tr753:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
+	_test_eof761: cs = 761; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17213,7 +17035,7 @@ tr753:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
+	_test_eof762: cs = 762; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17253,7 +17075,7 @@ tr753:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
+	_test_eof763: cs = 763; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17293,7 +17115,7 @@ tr753:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof764: cs = 764; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17306,25 +17128,25 @@ tr753:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
+	_test_eof765: cs = 765; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
+	_test_eof766: cs = 766; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
+	_test_eof767: cs = 767; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof775: cs = 775; goto _test_eof
-	_test_eof776: cs = 776; goto _test_eof
-	_test_eof777: cs = 777; goto _test_eof
+	_test_eof768: cs = 768; goto _test_eof
+	_test_eof769: cs = 769; goto _test_eof
+	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof778: cs = 778; goto _test_eof
+	_test_eof771: cs = 771; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
@@ -17337,14 +17159,14 @@ tr753:
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof779: cs = 779; goto _test_eof
+	_test_eof772: cs = 772; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof780: cs = 780; goto _test_eof
+	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
@@ -17353,7 +17175,7 @@ tr753:
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof781: cs = 781; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17827,25 +17649,18 @@ tr753:
 	_test_eof755: cs = 755; goto _test_eof
 	_test_eof756: cs = 756; goto _test_eof
 	_test_eof757: cs = 757; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763:
+		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:171
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17840
+//line msg_parse.go:17655
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8e4a727..8b88d8e 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -451,7 +451,7 @@ sname    = "Accept"i %{value=&msg.Accept}
          | ("Accept-Contact"i | "a"i) %{value=&msg.AcceptContact}
          | "Accept-Encoding"i %{value=&msg.AcceptEncoding}
          | "Accept-Language"i %{value=&msg.AcceptLanguage}
-         | ("Allow"i | "u"i) %{value=&msg.Allow}
+         | "Allow"i %{value=&msg.Allow}
          | ("Allow-Events"i | "u"i) %{value=&msg.AllowEvents}
          | "Alert-Info"i %{value=&msg.AlertInfo}
          | "Authentication-Info"i %{value=&msg.AuthenticationInfo}
@@ -492,9 +492,9 @@ sname    = "Accept"i %{value=&msg.Accept}
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
          | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
-         | ("Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
-         | ("Max-Forwards"i | "l"i) $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
-         | ("Min-Expires"i | "l"i) $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
+         | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
+         | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
+         | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
          ;
 
 # Header Parsing
-- 
2.43.0


From 2eb0a568e4f1f455d8a65307ce903c9c635f57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 29/47] fix: a repeated CSeq header doesn't append to the
 number

---
 sip/msg_parse.go | 418 ++++++++++++++++++++++++-----------------------
 sip/sip.rl       |   2 +-
 2 files changed, 214 insertions(+), 206 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 8b438a8..2a48c48 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -10035,91 +10035,91 @@ tr616:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st283
-tr650:
+tr651:
 //line sip.rl:463
 value=&msg.Date
 	goto st283
-tr663:
+tr664:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st283
-tr668:
+tr669:
 //line sip.rl:465
 value=&msg.Event
 	goto st283
-tr697:
+tr698:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st283
-tr699:
+tr700:
 //line sip.rl:480
 value=&msg.Supported
 	goto st283
-tr731:
+tr732:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st283
-tr759:
+tr760:
 //line sip.rl:469
 value=&msg.Organization
 	goto st283
-tr789:
+tr790:
 //line sip.rl:470
 value=&msg.Priority
 	goto st283
-tr808:
+tr809:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st283
-tr818:
+tr819:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st283
-tr826:
+tr827:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st283
-tr828:
+tr829:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st283
-tr878:
+tr879:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st283
-tr884:
+tr885:
 //line sip.rl:476
 value=&msg.Require
 	goto st283
-tr894:
+tr895:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st283
-tr901:
+tr902:
 //line sip.rl:479
 value=&msg.Subject
 	goto st283
-tr909:
+tr910:
 //line sip.rl:478
 value=&msg.Server
 	goto st283
-tr933:
+tr934:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st283
-tr946:
+tr947:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st283
-tr956:
+tr957:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st283
-tr973:
+tr974:
 //line sip.rl:484
 value=&msg.Warning
 	goto st283
-tr989:
+tr990:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st283
@@ -10194,91 +10194,91 @@ tr617:
 //line sip.rl:460
 value=&msg.ContentLanguage
 	goto st284
-tr651:
+tr652:
 //line sip.rl:463
 value=&msg.Date
 	goto st284
-tr664:
+tr665:
 //line sip.rl:464
 value=&msg.ErrorInfo
 	goto st284
-tr669:
+tr670:
 //line sip.rl:465
 value=&msg.Event
 	goto st284
-tr698:
+tr699:
 //line sip.rl:466
 value=&msg.InReplyTo
 	goto st284
-tr700:
+tr701:
 //line sip.rl:480
 value=&msg.Supported
 	goto st284
-tr732:
+tr733:
 //line sip.rl:468
 value=&msg.MIMEVersion
 	goto st284
-tr760:
+tr761:
 //line sip.rl:469
 value=&msg.Organization
 	goto st284
-tr790:
+tr791:
 //line sip.rl:470
 value=&msg.Priority
 	goto st284
-tr809:
+tr810:
 //line sip.rl:471
 value=&msg.ProxyAuthenticate
 	goto st284
-tr819:
+tr820:
 //line sip.rl:472
 value=&msg.ProxyAuthorization
 	goto st284
-tr827:
+tr828:
 //line sip.rl:473
 value=&msg.ProxyRequire
 	goto st284
-tr829:
+tr830:
 //line sip.rl:474
 value=&msg.ReferTo
 	goto st284
-tr879:
+tr880:
 //line sip.rl:467
 value=&msg.ReplyTo
 	goto st284
-tr885:
+tr886:
 //line sip.rl:476
 value=&msg.Require
 	goto st284
-tr895:
+tr896:
 //line sip.rl:477
 value=&msg.RetryAfter
 	goto st284
-tr902:
+tr903:
 //line sip.rl:479
 value=&msg.Subject
 	goto st284
-tr910:
+tr911:
 //line sip.rl:478
 value=&msg.Server
 	goto st284
-tr934:
+tr935:
 //line sip.rl:481
 value=&msg.Timestamp
 	goto st284
-tr947:
+tr948:
 //line sip.rl:482
 value=&msg.Unsupported
 	goto st284
-tr957:
+tr958:
 //line sip.rl:483
 value=&msg.UserAgent
 	goto st284
-tr974:
+tr975:
 //line sip.rl:484
 value=&msg.Warning
 	goto st284
-tr990:
+tr991:
 //line sip.rl:485
 value=&msg.WWWAuthenticate
 	goto st284
@@ -10347,7 +10347,7 @@ value=nil
 //line sip.rl:252
  {goto st256 } 
 	goto st774
-tr961:
+tr962:
 //line sip.rl:137
 
 	via = new(Via)
@@ -10360,7 +10360,7 @@ tr961:
 //line sip.rl:259
  {goto st103 } 
 	goto st774
-tr991:
+tr992:
 //line sip.rl:76
 
 	{p++; cs = 774; goto _out }
@@ -11755,7 +11755,7 @@ tr557:
 	msg.CallID = string(data[mark:p])
 
 	goto st381
-tr642:
+tr643:
 //line sip.rl:236
 
 	msg.CSeqMethod = string(data[mark:p])
@@ -11958,27 +11958,27 @@ tr572:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st394
-tr682:
+tr683:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st394
-tr780:
+tr781:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
-tr847:
+tr848:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
-tr871:
+tr872:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
-tr899:
+tr900:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st394
-tr922:
+tr923:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st394
@@ -12001,27 +12001,27 @@ tr573:
 //line sip.rl:437
 addrp=lastAddr(&msg.Contact)
 	goto st395
-tr683:
+tr684:
 //line sip.rl:438
 addrp=lastAddr(&msg.From)
 	goto st395
-tr781:
+tr782:
 //line sip.rl:439
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
-tr848:
+tr849:
 //line sip.rl:440
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
-tr872:
+tr873:
 //line sip.rl:441
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
-tr900:
+tr901:
 //line sip.rl:442
 addrp=lastAddr(&msg.Route)
 	goto st395
-tr923:
+tr924:
 //line sip.rl:443
 addrp=lastAddr(&msg.To)
 	goto st395
@@ -12778,6 +12778,14 @@ tr625:
 		}
 		goto st0
 tr636:
+//line sip.rl:494
+msg.CSeq=0
+//line sip.rl:232
+
+	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+
+	goto st450
+tr639:
 //line sip.rl:232
 
 	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
@@ -12788,7 +12796,7 @@ tr636:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12783
+//line msg_parse.go:12791
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12805,7 +12813,7 @@ tr636:
 			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr636
+			goto tr639
 		}
 		goto st0
 	st451:
@@ -12826,13 +12834,13 @@ tr636:
 		case 32:
 			goto st451
 		case 33:
-			goto tr640
+			goto tr641
 		case 37:
-			goto tr640
+			goto tr641
 		case 39:
-			goto tr640
+			goto tr641
 		case 126:
-			goto tr640
+			goto tr641
 		case 525:
 			goto st453
 		}
@@ -12841,25 +12849,25 @@ tr636:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr640
+					goto tr641
 				}
 			case _widec >= 42:
-				goto tr640
+				goto tr641
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr640
+					goto tr641
 				}
 			case _widec >= 65:
-				goto tr640
+				goto tr641
 			}
 		default:
-			goto tr640
+			goto tr641
 		}
 		goto st0
-tr640:
+tr641:
 //line sip.rl:80
 
 	mark = p
@@ -12870,7 +12878,7 @@ tr640:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12865
+//line msg_parse.go:12873
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12888,7 +12896,7 @@ tr640:
 		case 126:
 			goto st452
 		case 269:
-			goto tr642
+			goto tr643
 		}
 		switch {
 		case _widec < 48:
@@ -12945,35 +12953,35 @@ tr640:
 		case 32:
 			goto st455
 		case 33:
-			goto tr640
+			goto tr641
 		case 37:
-			goto tr640
+			goto tr641
 		case 39:
-			goto tr640
+			goto tr641
 		case 126:
-			goto tr640
+			goto tr641
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr640
+					goto tr641
 				}
 			case data[p] >= 42:
-				goto tr640
+				goto tr641
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr640
+					goto tr641
 				}
 			case data[p] >= 65:
-				goto tr640
+				goto tr641
 			}
 		default:
-			goto tr640
+			goto tr641
 		}
 		goto st0
 	st456:
@@ -13055,11 +13063,11 @@ tr640:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr650
+			goto tr651
 		case 32:
-			goto tr650
-		case 58:
 			goto tr651
+		case 58:
+			goto tr652
 		}
 		goto tr416
 	st463:
@@ -13188,11 +13196,11 @@ tr640:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr663
+			goto tr664
 		case 32:
-			goto tr663
-		case 58:
 			goto tr664
+		case 58:
+			goto tr665
 		}
 		goto tr416
 	st473:
@@ -13238,11 +13246,11 @@ tr640:
 	st_case_476:
 		switch data[p] {
 		case 9:
-			goto tr668
+			goto tr669
 		case 32:
-			goto tr668
-		case 58:
 			goto tr669
+		case 58:
+			goto tr670
 		}
 		goto tr416
 	st477:
@@ -13354,10 +13362,10 @@ tr640:
 			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr677
+			goto tr678
 		}
 		goto st0
-tr677:
+tr678:
 //line sip.rl:495
 msg.Expires=0
 //line sip.rl:240
@@ -13365,7 +13373,7 @@ msg.Expires=0
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
 
 	goto st485
-tr679:
+tr680:
 //line sip.rl:240
 
 	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
@@ -13376,7 +13384,7 @@ tr679:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13371
+//line msg_parse.go:13379
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13388,7 +13396,7 @@ tr679:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+			goto tr680
 		}
 		goto st0
 	st486:
@@ -13424,7 +13432,7 @@ tr679:
 			goto st488
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr677
+			goto tr678
 		}
 		goto st0
 	st489:
@@ -13434,11 +13442,11 @@ tr679:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr682
+			goto tr683
 		case 32:
-			goto tr682
-		case 58:
 			goto tr683
+		case 58:
+			goto tr684
 		case 82:
 			goto st490
 		case 114:
@@ -13476,11 +13484,11 @@ tr679:
 	st_case_492:
 		switch data[p] {
 		case 9:
-			goto tr682
+			goto tr683
 		case 32:
-			goto tr682
-		case 58:
 			goto tr683
+		case 58:
+			goto tr684
 		}
 		goto tr416
 	st493:
@@ -13610,11 +13618,11 @@ tr679:
 	st_case_503:
 		switch data[p] {
 		case 9:
-			goto tr697
+			goto tr698
 		case 32:
-			goto tr697
-		case 58:
 			goto tr698
+		case 58:
+			goto tr699
 		}
 		goto tr416
 	st504:
@@ -13624,11 +13632,11 @@ tr679:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr699
+			goto tr700
 		case 32:
-			goto tr699
-		case 58:
 			goto tr700
+		case 58:
+			goto tr701
 		}
 		goto tr416
 	st505:
@@ -13819,10 +13827,10 @@ tr679:
 			goto st520
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr715
+			goto tr716
 		}
 		goto st0
-tr715:
+tr716:
 //line sip.rl:496
 msg.MaxForwards=0
 //line sip.rl:244
@@ -13830,7 +13838,7 @@ msg.MaxForwards=0
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
 
 	goto st519
-tr717:
+tr718:
 //line sip.rl:244
 
 	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
@@ -13841,7 +13849,7 @@ tr717:
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13836
+//line msg_parse.go:13844
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13853,7 +13861,7 @@ tr717:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+			goto tr718
 		}
 		goto st0
 	st520:
@@ -13889,7 +13897,7 @@ tr717:
 			goto st522
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr715
+			goto tr716
 		}
 		goto st0
 	st523:
@@ -14020,11 +14028,11 @@ tr717:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto tr731
+			goto tr732
 		case 32:
-			goto tr731
-		case 58:
 			goto tr732
+		case 58:
+			goto tr733
 		}
 		goto tr416
 	st534:
@@ -14169,10 +14177,10 @@ tr717:
 			goto st546
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr743
+			goto tr744
 		}
 		goto st0
-tr743:
+tr744:
 //line sip.rl:497
 msg.MinExpires=0
 //line sip.rl:248
@@ -14180,7 +14188,7 @@ msg.MinExpires=0
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
 
 	goto st545
-tr745:
+tr746:
 //line sip.rl:248
 
 	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
@@ -14191,7 +14199,7 @@ tr745:
 			goto _test_eof545
 		}
 	st_case_545:
-//line msg_parse.go:14186
+//line msg_parse.go:14194
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14203,7 +14211,7 @@ tr745:
 			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr745
+			goto tr746
 		}
 		goto st0
 	st546:
@@ -14239,7 +14247,7 @@ tr745:
 			goto st548
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr743
+			goto tr744
 		}
 		goto st0
 	st549:
@@ -14249,11 +14257,11 @@ tr745:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto tr668
+			goto tr669
 		case 32:
-			goto tr668
-		case 58:
 			goto tr669
+		case 58:
+			goto tr670
 		case 82:
 			goto st550
 		case 114:
@@ -14387,11 +14395,11 @@ tr745:
 	st_case_560:
 		switch data[p] {
 		case 9:
-			goto tr759
+			goto tr760
 		case 32:
-			goto tr759
-		case 58:
 			goto tr760
+		case 58:
+			goto tr761
 		}
 		goto tr416
 	st561:
@@ -14616,11 +14624,11 @@ tr745:
 	st_case_579:
 		switch data[p] {
 		case 9:
-			goto tr780
+			goto tr781
 		case 32:
-			goto tr780
-		case 58:
 			goto tr781
+		case 58:
+			goto tr782
 		}
 		goto tr416
 	st580:
@@ -14706,11 +14714,11 @@ tr745:
 	st_case_586:
 		switch data[p] {
 		case 9:
-			goto tr789
+			goto tr790
 		case 32:
-			goto tr789
-		case 58:
 			goto tr790
+		case 58:
+			goto tr791
 		}
 		goto tr416
 	st587:
@@ -14905,11 +14913,11 @@ tr745:
 	st_case_602:
 		switch data[p] {
 		case 9:
-			goto tr808
+			goto tr809
 		case 32:
-			goto tr808
-		case 58:
 			goto tr809
+		case 58:
+			goto tr810
 		}
 		goto tr416
 	st603:
@@ -15015,11 +15023,11 @@ tr745:
 	st_case_611:
 		switch data[p] {
 		case 9:
-			goto tr818
+			goto tr819
 		case 32:
-			goto tr818
-		case 58:
 			goto tr819
+		case 58:
+			goto tr820
 		}
 		goto tr416
 	st612:
@@ -15101,11 +15109,11 @@ tr745:
 	st_case_618:
 		switch data[p] {
 		case 9:
-			goto tr826
+			goto tr827
 		case 32:
-			goto tr826
-		case 58:
 			goto tr827
+		case 58:
+			goto tr828
 		}
 		goto tr416
 	st619:
@@ -15115,11 +15123,11 @@ tr745:
 	st_case_619:
 		switch data[p] {
 		case 9:
-			goto tr828
+			goto tr829
 		case 32:
-			goto tr828
-		case 58:
 			goto tr829
+		case 58:
+			goto tr830
 		case 69:
 			goto st620
 		case 79:
@@ -15274,11 +15282,11 @@ tr745:
 	st_case_630:
 		switch data[p] {
 		case 9:
-			goto tr847
+			goto tr848
 		case 32:
-			goto tr847
-		case 58:
 			goto tr848
+		case 58:
+			goto tr849
 		}
 		goto tr416
 	st631:
@@ -15350,11 +15358,11 @@ tr745:
 	st_case_636:
 		switch data[p] {
 		case 9:
-			goto tr828
+			goto tr829
 		case 32:
-			goto tr828
-		case 58:
 			goto tr829
+		case 58:
+			goto tr830
 		}
 		goto tr416
 	st637:
@@ -15559,11 +15567,11 @@ tr745:
 	st_case_654:
 		switch data[p] {
 		case 9:
-			goto tr871
+			goto tr872
 		case 32:
-			goto tr871
-		case 58:
 			goto tr872
+		case 58:
+			goto tr873
 		}
 		goto tr416
 	st655:
@@ -15630,11 +15638,11 @@ tr745:
 	st_case_660:
 		switch data[p] {
 		case 9:
-			goto tr878
+			goto tr879
 		case 32:
-			goto tr878
-		case 58:
 			goto tr879
+		case 58:
+			goto tr880
 		}
 		goto tr416
 	st661:
@@ -15692,11 +15700,11 @@ tr745:
 	st_case_665:
 		switch data[p] {
 		case 9:
-			goto tr884
+			goto tr885
 		case 32:
-			goto tr884
-		case 58:
 			goto tr885
+		case 58:
+			goto tr886
 		}
 		goto tr416
 	st666:
@@ -15799,11 +15807,11 @@ tr745:
 	st_case_674:
 		switch data[p] {
 		case 9:
-			goto tr894
+			goto tr895
 		case 32:
-			goto tr894
-		case 58:
 			goto tr895
+		case 58:
+			goto tr896
 		}
 		goto tr416
 	st675:
@@ -15849,11 +15857,11 @@ tr745:
 	st_case_678:
 		switch data[p] {
 		case 9:
-			goto tr899
+			goto tr900
 		case 32:
-			goto tr899
-		case 58:
 			goto tr900
+		case 58:
+			goto tr901
 		}
 		goto tr416
 	st679:
@@ -15863,11 +15871,11 @@ tr745:
 	st_case_679:
 		switch data[p] {
 		case 9:
-			goto tr901
+			goto tr902
 		case 32:
-			goto tr901
-		case 58:
 			goto tr902
+		case 58:
+			goto tr903
 		case 69:
 			goto st680
 		case 85:
@@ -15933,11 +15941,11 @@ tr745:
 	st_case_684:
 		switch data[p] {
 		case 9:
-			goto tr909
+			goto tr910
 		case 32:
-			goto tr909
-		case 58:
 			goto tr910
+		case 58:
+			goto tr911
 		}
 		goto tr416
 	st685:
@@ -16011,11 +16019,11 @@ tr745:
 	st_case_690:
 		switch data[p] {
 		case 9:
-			goto tr901
+			goto tr902
 		case 32:
-			goto tr901
-		case 58:
 			goto tr902
+		case 58:
+			goto tr903
 		}
 		goto tr416
 	st691:
@@ -16097,11 +16105,11 @@ tr745:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr922
+			goto tr923
 		case 32:
-			goto tr922
-		case 58:
 			goto tr923
+		case 58:
+			goto tr924
 		case 73:
 			goto st698
 		case 79:
@@ -16203,11 +16211,11 @@ tr745:
 	st_case_705:
 		switch data[p] {
 		case 9:
-			goto tr933
+			goto tr934
 		case 32:
-			goto tr933
-		case 58:
 			goto tr934
+		case 58:
+			goto tr935
 		}
 		goto tr416
 	st706:
@@ -16217,11 +16225,11 @@ tr745:
 	st_case_706:
 		switch data[p] {
 		case 9:
-			goto tr922
+			goto tr923
 		case 32:
-			goto tr922
-		case 58:
 			goto tr923
+		case 58:
+			goto tr924
 		}
 		goto tr416
 	st707:
@@ -16361,11 +16369,11 @@ tr745:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr946
+			goto tr947
 		case 32:
-			goto tr946
-		case 58:
 			goto tr947
+		case 58:
+			goto tr948
 		}
 		goto tr416
 	st718:
@@ -16468,11 +16476,11 @@ tr745:
 	st_case_726:
 		switch data[p] {
 		case 9:
-			goto tr956
+			goto tr957
 		case 32:
-			goto tr956
-		case 58:
 			goto tr957
+		case 58:
+			goto tr958
 		}
 		goto tr416
 	st727:
@@ -16525,17 +16533,17 @@ tr745:
 		case 32:
 			goto st729
 		case 269:
-			goto tr961
+			goto tr962
 		case 525:
 			goto st730
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr961
+				goto tr962
 			}
 		default:
-			goto tr961
+			goto tr962
 		}
 		goto st0
 	st730:
@@ -16570,7 +16578,7 @@ tr745:
 		case 32:
 			goto st732
 		}
-		goto tr961
+		goto tr962
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
@@ -16680,11 +16688,11 @@ tr745:
 	st_case_741:
 		switch data[p] {
 		case 9:
-			goto tr973
+			goto tr974
 		case 32:
-			goto tr973
-		case 58:
 			goto tr974
+		case 58:
+			goto tr975
 		}
 		goto tr416
 	st742:
@@ -16859,11 +16867,11 @@ tr745:
 	st_case_756:
 		switch data[p] {
 		case 9:
-			goto tr989
+			goto tr990
 		case 32:
-			goto tr989
-		case 58:
 			goto tr990
+		case 58:
+			goto tr991
 		}
 		goto tr416
 	st757:
@@ -16872,7 +16880,7 @@ tr745:
 		}
 	st_case_757:
 		if data[p] == 10 {
-			goto tr991
+			goto tr992
 		}
 		goto st0
 	st_out:
@@ -17660,7 +17668,7 @@ tr745:
 
 	{goto st273 }
 
-//line msg_parse.go:17655
+//line msg_parse.go:17663
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 8b88d8e..5007d1f 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -491,7 +491,7 @@ sname    = "Accept"i %{value=&msg.Accept}
 # their own special type of parsing.
 cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
          | ("Content-Length"i | "l"i) $!gxh HCOLON digit+ >{clen=0} @ContentLength
-         | "CSeq"i $!gxh HCOLON (digit+ @CSeq) LWS token >mark %CSeqMethod
+         | "CSeq"i $!gxh HCOLON (digit+ >{msg.CSeq=0} @CSeq) LWS token >mark %CSeqMethod
          | "Expires"i $!gxh HCOLON digit+ >{msg.Expires=0} @Expires
          | "Max-Forwards"i $!gxh HCOLON digit+ >{msg.MaxForwards=0} @MaxForwards
          | "Min-Expires"i $!gxh HCOLON digit+ >{msg.MinExpires=0} @MinExpires
-- 
2.43.0


From ddc3b9188a260a23b2c5bac6970034f5e0c50355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 30/47] fix: reject status codes below 100

Status 000 was taken for a request.
---
 sip/msg_parse.go | 2 +-
 sip/sip.rl       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 2a48c48..7f71a24 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -2091,7 +2091,7 @@ tr22:
 			goto _test_eof21
 		}
 	st_case_21:
-		if 48 <= data[p] && data[p] <= 57 {
+		if 49 <= data[p] && data[p] <= 57 {
 			goto tr24
 		}
 		goto st0
diff --git a/sip/sip.rl b/sip/sip.rl
index 5007d1f..7e8de70 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -547,7 +547,7 @@ header  := CRLF @break
 Method          = token >mark %Method;
 SIPVersionNo    = digit+ @VersionMajor "." digit+ @VersionMinor;
 RequestURI      = ^SP+ >mark %RequestURI;
-StatusCode      = ( digit @StatusCode ) {3};
+StatusCode      = ( [1-9] @StatusCode ) ( digit @StatusCode ) {2};
 ReasonPhrase    = reasonmc+ >start %ReasonPhrase;
 SIPVersion      = "SIP/" SIPVersionNo;
 Request         = Method SP RequestURI SP SIPVersion CRLF @goto_header;
-- 
2.43.0


From 0228e8199c1a2caa45bd437fecf0abac603c00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 31/47] fix: reject numbers that don't fit instead of wrapping
 them

Port 70000 was taken for 4464 and SIP version 258.0 for 2.0.
---
 sip/msg_parse.go | 831 ++++++++++++++++++++++++-----------------------
 sip/sip.rl       |  24 +-
 sip/uri_parse.go | 210 ++++++------
 sip/uri_parse.rl |   3 +-
 sip/util.go      |  18 +
 5 files changed, 565 insertions(+), 521 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 7f71a24..582588b 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1677,7 +1677,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		}
 		goto st0
 tr416:
-//line sip.rl:171
+//line sip.rl:174
 
 	p--
 
@@ -1769,7 +1769,7 @@ tr5:
 		}
 		goto st4
 tr7:
-//line sip.rl:124
+//line sip.rl:126
 
 	msg.Request, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -1824,7 +1824,8 @@ tr7:
 tr12:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	msg.VersionMajor = uint8(shift(int(msg.VersionMajor), data[p], 255, &err))
+	if err != nil { return nil, err }
 
 	goto st10
 	st10:
@@ -1832,7 +1833,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1827
+//line msg_parse.go:1828
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1850,9 +1851,10 @@ tr12:
 		}
 		goto st0
 tr14:
-//line sip.rl:120
+//line sip.rl:121
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	msg.VersionMinor = uint8(shift(int(msg.VersionMinor), data[p], 255, &err))
+	if err != nil { return nil, err }
 
 	goto st12
 	st12:
@@ -1860,7 +1862,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1855
+//line msg_parse.go:1857
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1876,7 +1878,7 @@ tr14:
 		}
 		goto st0
 tr42:
-//line sip.rl:133
+//line sip.rl:135
 
 	msg.Phrase = string(buf[0:amt])
 
@@ -1886,13 +1888,13 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1881
+//line msg_parse.go:1883
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st758
 	st758:
@@ -1900,7 +1902,7 @@ tr16:
 			goto _test_eof758
 		}
 	st_case_758:
-//line msg_parse.go:1895
+//line msg_parse.go:1897
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1913,7 +1915,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1908
+//line msg_parse.go:1910
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2042,7 +2044,8 @@ tr2:
 tr20:
 //line sip.rl:116
 
-	msg.VersionMajor = msg.VersionMajor * 10 + (data[p] - 0x30)
+	msg.VersionMajor = uint8(shift(int(msg.VersionMajor), data[p], 255, &err))
+	if err != nil { return nil, err }
 
 	goto st18
 	st18:
@@ -2050,7 +2053,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2045
+//line msg_parse.go:2048
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2068,9 +2071,10 @@ tr20:
 		}
 		goto st0
 tr22:
-//line sip.rl:120
+//line sip.rl:121
 
-	msg.VersionMinor = msg.VersionMinor * 10 + (data[p] - 0x30)
+	msg.VersionMinor = uint8(shift(int(msg.VersionMinor), data[p], 255, &err))
+	if err != nil { return nil, err }
 
 	goto st20
 	st20:
@@ -2078,7 +2082,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2073
+//line msg_parse.go:2077
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2096,7 +2100,7 @@ tr22:
 		}
 		goto st0
 tr24:
-//line sip.rl:129
+//line sip.rl:131
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2106,13 +2110,13 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2101
+//line msg_parse.go:2105
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
 		goto st0
 tr25:
-//line sip.rl:129
+//line sip.rl:131
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2122,13 +2126,13 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2117
+//line msg_parse.go:2121
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
 		goto st0
 tr26:
-//line sip.rl:129
+//line sip.rl:131
 
 	msg.Status = msg.Status * 10 + (int(data[p]) - 0x30)
 
@@ -2138,7 +2142,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2133
+//line msg_parse.go:2137
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2232,7 +2236,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2227
+//line msg_parse.go:2231
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2306,7 +2310,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2301
+//line msg_parse.go:2305
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2331,7 +2335,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2326
+//line msg_parse.go:2330
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2368,7 +2372,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2363
+//line msg_parse.go:2367
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2396,7 +2400,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2391
+//line msg_parse.go:2395
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2424,7 +2428,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2419
+//line msg_parse.go:2423
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2452,7 +2456,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2447
+//line msg_parse.go:2451
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2480,7 +2484,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2475
+//line msg_parse.go:2479
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2534,7 +2538,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2529
+//line msg_parse.go:2533
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2659,7 +2663,7 @@ tr45:
 		}
 		goto st0
 tr49:
-//line sip.rl:228
+//line sip.rl:232
 
 	ctype = string(data[mark:p])
 
@@ -2669,7 +2673,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2664
+//line msg_parse.go:2668
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2689,7 +2693,7 @@ tr49:
 		}
 		goto st0
 tr50:
-//line sip.rl:228
+//line sip.rl:232
 
 	ctype = string(data[mark:p])
 
@@ -2699,7 +2703,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2694
+//line msg_parse.go:2698
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2931,7 +2935,7 @@ tr50:
 		}
 		goto st0
 tr51:
-//line sip.rl:228
+//line sip.rl:232
 
 	ctype = string(data[mark:p])
 
@@ -2941,13 +2945,13 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2936
+//line msg_parse.go:2940
 		if data[p] == 10 {
 			goto tr65
 		}
 		goto st0
 tr65:
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st759
 	st759:
@@ -2955,10 +2959,10 @@ tr65:
 			goto _test_eof759
 		}
 	st_case_759:
-//line msg_parse.go:2950
+//line msg_parse.go:2954
 		goto st0
 tr52:
-//line sip.rl:228
+//line sip.rl:232
 
 	ctype = string(data[mark:p])
 
@@ -2968,7 +2972,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2963
+//line msg_parse.go:2967
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3071,7 +3075,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3066
+//line msg_parse.go:3070
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3127,7 +3131,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3122
+//line msg_parse.go:3126
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3159,7 +3163,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3154
+//line msg_parse.go:3158
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3196,7 +3200,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3191
+//line msg_parse.go:3195
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3224,7 +3228,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3219
+//line msg_parse.go:3223
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3252,7 +3256,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3247
+//line msg_parse.go:3251
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3280,7 +3284,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3275
+//line msg_parse.go:3279
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3308,7 +3312,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3303
+//line msg_parse.go:3307
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3336,7 +3340,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3331
+//line msg_parse.go:3335
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3353,7 +3357,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3348
+//line msg_parse.go:3352
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3577,7 +3581,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3572
+//line msg_parse.go:3576
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3628,7 +3632,7 @@ tr93:
 		}
 		goto st0
 tr94:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -3638,7 +3642,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3633
+//line msg_parse.go:3637
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3662,7 +3666,7 @@ tr94:
 		}
 		goto st0
 tr96:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -3672,7 +3676,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3667
+//line msg_parse.go:3671
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3700,17 +3704,17 @@ tr96:
 		}
 		goto st0
 tr106:
-//line sip.rl:167
+//line sip.rl:170
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:143
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:139
 
 	via = new(Via)
 
@@ -3719,11 +3723,11 @@ tr106:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:267
  {goto st103 } 
 	goto st760
 tr110:
-//line sip.rl:167
+//line sip.rl:170
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
@@ -3736,21 +3740,21 @@ tr110:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:268
  {goto st68 } 
 	goto st760
 tr122:
-//line sip.rl:167
+//line sip.rl:170
 
 	via.Param = &Param{name, string(buf[0:amt]), via.Param}
 
-//line sip.rl:141
+//line sip.rl:143
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st760
 	st760:
@@ -3758,7 +3762,7 @@ tr122:
 			goto _test_eof760
 		}
 	st_case_760:
-//line msg_parse.go:3753
+//line msg_parse.go:3757
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3794,7 +3798,7 @@ tr122:
 		}
 		goto tr106
 tr97:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -3804,7 +3808,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3799
+//line msg_parse.go:3803
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3865,7 +3869,7 @@ tr97:
 		}
 		goto tr110
 tr98:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -3875,7 +3879,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3870
+//line msg_parse.go:3874
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3938,7 +3942,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3933
+//line msg_parse.go:3937
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4051,7 +4055,7 @@ tr114:
 		}
 		goto st0
 tr99:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -4061,7 +4065,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4056
+//line msg_parse.go:4060
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4138,7 +4142,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4133
+//line msg_parse.go:4137
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4194,7 +4198,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4189
+//line msg_parse.go:4193
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4228,7 +4232,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4223
+//line msg_parse.go:4227
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4265,7 +4269,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4260
+//line msg_parse.go:4264
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4293,7 +4297,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4288
+//line msg_parse.go:4292
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4321,7 +4325,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4316
+//line msg_parse.go:4320
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4349,7 +4353,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4344
+//line msg_parse.go:4348
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4377,7 +4381,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4372
+//line msg_parse.go:4376
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4405,7 +4409,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4400
+//line msg_parse.go:4404
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4422,7 +4426,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4417
+//line msg_parse.go:4421
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4498,7 +4502,7 @@ tr141:
 		}
 		goto st0
 tr100:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -4508,7 +4512,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4503
+//line msg_parse.go:4507
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4592,7 +4596,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4587
+//line msg_parse.go:4591
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4637,7 +4641,7 @@ tr146:
 		}
 		goto st0
 tr147:
-//line sip.rl:147
+//line sip.rl:149
 
 	via.Protocol = string(data[mark:p])
 
@@ -4647,7 +4651,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4642
+//line msg_parse.go:4646
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4667,7 +4671,7 @@ tr147:
 		}
 		goto st0
 tr149:
-//line sip.rl:147
+//line sip.rl:149
 
 	via.Protocol = string(data[mark:p])
 
@@ -4677,7 +4681,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4672
+//line msg_parse.go:4676
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4735,7 +4739,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4730
+//line msg_parse.go:4734
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4780,7 +4784,7 @@ tr154:
 		}
 		goto st0
 tr156:
-//line sip.rl:151
+//line sip.rl:153
 
 	via.Version = string(data[mark:p])
 
@@ -4790,7 +4794,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4785
+//line msg_parse.go:4789
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4810,7 +4814,7 @@ tr156:
 		}
 		goto st0
 tr158:
-//line sip.rl:151
+//line sip.rl:153
 
 	via.Version = string(data[mark:p])
 
@@ -4820,7 +4824,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4815
+//line msg_parse.go:4819
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4878,7 +4882,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4873
+//line msg_parse.go:4877
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4926,7 +4930,7 @@ tr163:
 		}
 		goto st0
 tr165:
-//line sip.rl:155
+//line sip.rl:157
 
 	via.Transport = string(data[mark:p])
 
@@ -4936,7 +4940,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4931
+//line msg_parse.go:4935
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4983,7 +4987,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4978
+//line msg_parse.go:4982
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5026,7 +5030,7 @@ tr169:
 		}
 		goto st0
 tr172:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5036,7 +5040,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5031
+//line msg_parse.go:5035
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5060,7 +5064,7 @@ tr172:
 		}
 		goto st0
 tr173:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5070,7 +5074,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5065
+//line msg_parse.go:5069
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5098,13 +5102,13 @@ tr173:
 		}
 		goto st0
 tr184:
-//line sip.rl:141
+//line sip.rl:143
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:137
+//line sip.rl:139
 
 	via = new(Via)
 
@@ -5113,7 +5117,7 @@ tr184:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:267
  {goto st103 } 
 	goto st761
 tr193:
@@ -5126,17 +5130,17 @@ tr193:
 
 	amt = 0
 
-//line sip.rl:260
+//line sip.rl:268
  {goto st68 } 
 	goto st761
 tr199:
-//line sip.rl:141
+//line sip.rl:143
 
 	*viap = via
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st761
 	st761:
@@ -5144,7 +5148,7 @@ tr199:
 			goto _test_eof761
 		}
 	st_case_761:
-//line msg_parse.go:5139
+//line msg_parse.go:5143
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5180,7 +5184,7 @@ tr199:
 		}
 		goto tr184
 tr175:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5190,7 +5194,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5185
+//line msg_parse.go:5189
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5211,9 +5215,10 @@ tr175:
 		}
 		goto st0
 tr188:
-//line sip.rl:163
+//line sip.rl:165
 
-	via.Port = via.Port * 10 + (uint16(data[p]) - 0x30)
+	via.Port = uint16(shift(int(via.Port), data[p], 65535, &err))
+	if err != nil { return nil, err }
 
 	goto st119
 	st119:
@@ -5221,7 +5226,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5216
+//line msg_parse.go:5221
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5273,7 +5278,7 @@ tr188:
 		}
 		goto st0
 tr176:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5283,7 +5288,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5278
+//line msg_parse.go:5283
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5381,7 +5386,7 @@ tr176:
 		}
 		goto st0
 tr177:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5391,7 +5396,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5386
+//line msg_parse.go:5391
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5433,7 +5438,7 @@ tr177:
 		}
 		goto st0
 tr178:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5443,7 +5448,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5438
+//line msg_parse.go:5443
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5510,7 +5515,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5505
+//line msg_parse.go:5510
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5531,7 +5536,7 @@ tr204:
 		}
 		goto st0
 tr206:
-//line sip.rl:159
+//line sip.rl:161
 
 	via.Host = string(data[mark:p])
 
@@ -5541,7 +5546,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5536
+//line msg_parse.go:5541
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5567,7 +5572,7 @@ tr206:
 		}
 		goto st0
 tr167:
-//line sip.rl:155
+//line sip.rl:157
 
 	via.Transport = string(data[mark:p])
 
@@ -5577,7 +5582,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5572
+//line msg_parse.go:5577
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5689,7 +5694,7 @@ tr167:
 		}
 		goto st0
 tr159:
-//line sip.rl:151
+//line sip.rl:153
 
 	via.Version = string(data[mark:p])
 
@@ -5699,7 +5704,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5694
+//line msg_parse.go:5699
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5794,7 +5799,7 @@ tr159:
 		}
 		goto st0
 tr150:
-//line sip.rl:147
+//line sip.rl:149
 
 	via.Protocol = string(data[mark:p])
 
@@ -5804,7 +5809,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5799
+//line msg_parse.go:5804
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5888,7 +5893,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5883
+//line msg_parse.go:5888
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5939,7 +5944,7 @@ tr217:
 		}
 		goto st0
 tr218:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -5949,7 +5954,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5944
+//line msg_parse.go:5949
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5973,7 +5978,7 @@ tr218:
 		}
 		goto st0
 tr220:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -5983,7 +5988,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5978
+//line msg_parse.go:5983
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6011,11 +6016,11 @@ tr220:
 		}
 		goto st0
 tr230:
-//line sip.rl:210
+//line sip.rl:213
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -6026,11 +6031,11 @@ tr230:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st762
 tr234:
-//line sip.rl:210
+//line sip.rl:213
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
@@ -6039,21 +6044,21 @@ tr234:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st762
 tr246:
-//line sip.rl:210
+//line sip.rl:213
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st762
 	st762:
@@ -6061,7 +6066,7 @@ tr246:
 			goto _test_eof762
 		}
 	st_case_762:
-//line msg_parse.go:6056
+//line msg_parse.go:6061
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6097,7 +6102,7 @@ tr246:
 		}
 		goto tr230
 tr221:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -6107,7 +6112,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6102
+//line msg_parse.go:6107
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6168,7 +6173,7 @@ tr221:
 		}
 		goto tr234
 tr222:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -6178,7 +6183,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6173
+//line msg_parse.go:6178
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6241,7 +6246,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6236
+//line msg_parse.go:6241
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6354,7 +6359,7 @@ tr238:
 		}
 		goto st0
 tr223:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -6364,7 +6369,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6359
+//line msg_parse.go:6364
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6441,7 +6446,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6436
+//line msg_parse.go:6441
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6497,7 +6502,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6492
+//line msg_parse.go:6497
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6531,7 +6536,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6526
+//line msg_parse.go:6531
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6568,7 +6573,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6563
+//line msg_parse.go:6568
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6596,7 +6601,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6591
+//line msg_parse.go:6596
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6624,7 +6629,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6619
+//line msg_parse.go:6624
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6652,7 +6657,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6647
+//line msg_parse.go:6652
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6680,7 +6685,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6675
+//line msg_parse.go:6680
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6708,7 +6713,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6703
+//line msg_parse.go:6708
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6725,7 +6730,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6720
+//line msg_parse.go:6725
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6801,7 +6806,7 @@ tr265:
 		}
 		goto st0
 tr224:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -6811,7 +6816,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6806
+//line msg_parse.go:6811
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6902,7 +6907,7 @@ tr224:
 		}
 		goto st0
 tr329:
-//line sip.rl:193
+//line sip.rl:196
 
 	addr.Display = string(buf[0:amt])
 
@@ -6912,7 +6917,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6907
+//line msg_parse.go:6912
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6932,7 +6937,7 @@ tr329:
 		}
 		goto st0
 tr305:
-//line sip.rl:197
+//line sip.rl:200
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -6942,7 +6947,7 @@ tr305:
 }
 	goto st190
 tr330:
-//line sip.rl:193
+//line sip.rl:196
 
 	addr.Display = string(buf[0:amt])
 
@@ -6952,7 +6957,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6947
+//line msg_parse.go:6952
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6973,7 +6978,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6968
+//line msg_parse.go:6973
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7059,7 +7064,7 @@ tr275:
 		}
 		goto st0
 tr279:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -7070,7 +7075,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7065
+//line msg_parse.go:7070
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7125,7 +7130,7 @@ tr279:
 		}
 		goto st0
 tr285:
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -7136,7 +7141,7 @@ tr285:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st763
 tr289:
@@ -7145,17 +7150,17 @@ tr289:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st763
 tr293:
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st763
 	st763:
@@ -7163,7 +7168,7 @@ tr293:
 			goto _test_eof763
 		}
 	st_case_763:
-//line msg_parse.go:7158
+//line msg_parse.go:7163
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7357,7 +7362,7 @@ tr293:
 		}
 		goto st0
 tr310:
-//line sip.rl:197
+//line sip.rl:200
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7367,7 +7372,7 @@ tr310:
 }
 	goto st210
 tr331:
-//line sip.rl:193
+//line sip.rl:196
 
 	addr.Display = string(buf[0:amt])
 
@@ -7377,7 +7382,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7372
+//line msg_parse.go:7377
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7419,7 +7424,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7414
+//line msg_parse.go:7419
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7467,7 +7472,7 @@ tr271:
 		}
 		goto st0
 tr304:
-//line sip.rl:197
+//line sip.rl:200
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7481,7 +7486,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7476
+//line msg_parse.go:7481
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7531,7 +7536,7 @@ tr304:
 		}
 		goto st0
 tr306:
-//line sip.rl:197
+//line sip.rl:200
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7545,7 +7550,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7540
+//line msg_parse.go:7545
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7563,7 +7568,7 @@ tr306:
 		}
 		goto st0
 tr309:
-//line sip.rl:197
+//line sip.rl:200
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7577,7 +7582,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7572
+//line msg_parse.go:7577
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7637,7 +7642,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7632
+//line msg_parse.go:7637
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7705,7 +7710,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7700
+//line msg_parse.go:7705
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7761,7 +7766,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7756
+//line msg_parse.go:7761
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7791,7 +7796,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7786
+//line msg_parse.go:7791
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7828,7 +7833,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7823
+//line msg_parse.go:7828
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7856,7 +7861,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7851
+//line msg_parse.go:7856
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7884,7 +7889,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7879
+//line msg_parse.go:7884
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7912,7 +7917,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7907
+//line msg_parse.go:7912
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7940,7 +7945,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7935
+//line msg_parse.go:7940
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7968,7 +7973,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7963
+//line msg_parse.go:7968
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7985,7 +7990,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7980
+//line msg_parse.go:7985
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8116,7 +8121,7 @@ tr332:
 		}
 		goto st0
 tr336:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8127,7 +8132,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8122
+//line msg_parse.go:8127
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8180,7 +8185,7 @@ tr336:
 		}
 		goto st0
 tr345:
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8191,7 +8196,7 @@ tr345:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st764
 tr349:
@@ -8200,17 +8205,17 @@ tr349:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st764
 tr375:
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st764
 	st764:
@@ -8218,7 +8223,7 @@ tr375:
 			goto _test_eof764
 		}
 	st_case_764:
-//line msg_parse.go:8213
+//line msg_parse.go:8218
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8318,7 +8323,7 @@ tr375:
 		}
 		goto tr349
 tr340:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8329,7 +8334,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8324
+//line msg_parse.go:8329
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8363,7 +8368,7 @@ tr340:
 		}
 		goto st0
 tr337:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8374,7 +8379,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8369
+//line msg_parse.go:8374
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8429,7 +8434,7 @@ tr337:
 		}
 		goto st0
 tr355:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8440,7 +8445,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8435
+//line msg_parse.go:8440
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8472,7 +8477,7 @@ tr355:
 		}
 		goto st0
 tr361:
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8483,7 +8488,7 @@ tr361:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st765
 	st765:
@@ -8491,7 +8496,7 @@ tr361:
 			goto _test_eof765
 		}
 	st_case_765:
-//line msg_parse.go:8486
+//line msg_parse.go:8491
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8519,7 +8524,7 @@ tr361:
 		}
 		goto st0
 tr359:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8530,7 +8535,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8525
+//line msg_parse.go:8530
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8564,7 +8569,7 @@ tr359:
 		}
 		goto tr345
 tr356:
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8575,7 +8580,7 @@ tr356:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st766
 tr366:
@@ -8584,7 +8589,7 @@ tr366:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st766
 	st766:
@@ -8592,7 +8597,7 @@ tr366:
 			goto _test_eof766
 		}
 	st_case_766:
-//line msg_parse.go:8587
+//line msg_parse.go:8592
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8638,7 +8643,7 @@ tr366:
 		}
 		goto st0
 tr338:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8649,7 +8654,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8644
+//line msg_parse.go:8649
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8704,7 +8709,7 @@ tr338:
 		}
 		goto st0
 tr365:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8715,7 +8720,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8710
+//line msg_parse.go:8715
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8752,7 +8757,7 @@ tr371:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st767
 	st767:
@@ -8760,7 +8765,7 @@ tr371:
 			goto _test_eof767
 		}
 	st_case_767:
-//line msg_parse.go:8755
+//line msg_parse.go:8760
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8788,7 +8793,7 @@ tr371:
 		}
 		goto st0
 tr369:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8799,7 +8804,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8794
+//line msg_parse.go:8799
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8833,7 +8838,7 @@ tr369:
 		}
 		goto tr349
 tr367:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8843,7 +8848,7 @@ tr367:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st768
 	st768:
@@ -8851,7 +8856,7 @@ tr367:
 			goto _test_eof768
 		}
 	st_case_768:
-//line msg_parse.go:8846
+//line msg_parse.go:8851
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8906,12 +8911,12 @@ tr367:
 		}
 		goto st0
 tr357:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8922,7 +8927,7 @@ tr357:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st769
 	st769:
@@ -8930,7 +8935,7 @@ tr357:
 			goto _test_eof769
 		}
 	st_case_769:
-//line msg_parse.go:8925
+//line msg_parse.go:8930
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8985,12 +8990,12 @@ tr357:
 		}
 		goto st0
 tr358:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:214
+//line sip.rl:217
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -9001,11 +9006,11 @@ tr358:
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st770
 tr368:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9015,7 +9020,7 @@ tr368:
 	p--
 
 
-//line sip.rl:254
+//line sip.rl:262
  {goto st153 } 
 	goto st770
 	st770:
@@ -9023,13 +9028,13 @@ tr368:
 			goto _test_eof770
 		}
 	st_case_770:
-//line msg_parse.go:9018
+//line msg_parse.go:9023
 		if data[p] == 10 {
 			goto tr375
 		}
 		goto st0
 tr339:
-//line sip.rl:205
+//line sip.rl:208
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9040,7 +9045,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9035
+//line msg_parse.go:9040
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9102,7 +9107,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9097
+//line msg_parse.go:9102
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9203,7 +9208,7 @@ tr376:
 		}
 		goto st0
 tr377:
-//line sip.rl:189
+//line sip.rl:192
 
 	addr = new(Addr)
 
@@ -9212,11 +9217,11 @@ tr377:
 	p--
 
 
-//line sip.rl:253
+//line sip.rl:261
  {goto st188 } 
 	goto st771
 tr382:
-//line sip.rl:189
+//line sip.rl:192
 
 	addr = new(Addr)
 
@@ -9225,11 +9230,11 @@ tr382:
 	p = ( mark) - 1
 
 
-//line sip.rl:253
+//line sip.rl:261
  {goto st188 } 
 	goto st771
 tr386:
-//line sip.rl:189
+//line sip.rl:192
 
 	addr = new(Addr)
 
@@ -9238,7 +9243,7 @@ tr386:
 	p = ( mark) - 1
 
 
-//line sip.rl:255
+//line sip.rl:263
  {goto st229 } 
 	goto st771
 	st771:
@@ -9246,7 +9251,7 @@ tr386:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:9241
+//line msg_parse.go:9246
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9324,7 +9329,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9319
+//line msg_parse.go:9324
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9435,7 +9440,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9430
+//line msg_parse.go:9435
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9489,7 +9494,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9484
+//line msg_parse.go:9489
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9505,7 +9510,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9500
+//line msg_parse.go:9505
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9521,7 +9526,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9516
+//line msg_parse.go:9521
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9537,7 +9542,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9532
+//line msg_parse.go:9537
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9553,7 +9558,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9548
+//line msg_parse.go:9553
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9569,13 +9574,13 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9564
+//line msg_parse.go:9569
 		if data[p] == 10 {
 			goto tr403
 		}
 		goto st0
 tr403:
-//line sip.rl:180
+//line sip.rl:183
 {
 	b := data[mark:p - 1]
 	if value != nil {
@@ -9584,7 +9589,7 @@ tr403:
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
 }
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st772
 	st772:
@@ -9592,7 +9597,7 @@ tr403:
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:9587
+//line msg_parse.go:9592
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9605,7 +9610,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9600
+//line msg_parse.go:9605
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9705,7 +9710,7 @@ tr394:
 		}
 		goto st0
 tr406:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -9715,7 +9720,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9710
+//line msg_parse.go:9715
 		switch data[p] {
 		case 9:
 			goto st275
@@ -9726,7 +9731,7 @@ tr406:
 		}
 		goto st0
 tr407:
-//line sip.rl:176
+//line sip.rl:179
 
 	name = string(data[mark:p])
 
@@ -9736,7 +9741,7 @@ tr407:
 			goto _test_eof276
 		}
 	st_case_276:
-//line msg_parse.go:9731
+//line msg_parse.go:9736
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9764,14 +9769,14 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:532
+//line sip.rl:540
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:266
  {goto st263 } 
 	goto st773
 	st773:
@@ -9779,7 +9784,7 @@ value=nil
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:9774
+//line msg_parse.go:9779
 		goto st0
 	st277:
 		if p++; p == pe {
@@ -9877,7 +9882,7 @@ tr414:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9872
+//line msg_parse.go:9877
 		switch data[p] {
 		case 65:
 			goto st282
@@ -9980,147 +9985,147 @@ tr414:
 		}
 		goto tr416
 tr435:
-//line sip.rl:451
+//line sip.rl:459
 value=&msg.AcceptContact
 	goto st283
 tr450:
-//line sip.rl:450
+//line sip.rl:458
 value=&msg.Accept
 	goto st283
 tr469:
-//line sip.rl:452
+//line sip.rl:460
 value=&msg.AcceptEncoding
 	goto st283
 tr478:
-//line sip.rl:453
+//line sip.rl:461
 value=&msg.AcceptLanguage
 	goto st283
 tr489:
-//line sip.rl:456
+//line sip.rl:464
 value=&msg.AlertInfo
 	goto st283
 tr493:
-//line sip.rl:454
+//line sip.rl:462
 value=&msg.Allow
 	goto st283
 tr502:
-//line sip.rl:455
+//line sip.rl:463
 value=&msg.AllowEvents
 	goto st283
 tr522:
-//line sip.rl:457
+//line sip.rl:465
 value=&msg.AuthenticationInfo
 	goto st283
 tr532:
-//line sip.rl:458
+//line sip.rl:466
 value=&msg.Authorization
 	goto st283
 tr534:
-//line sip.rl:475
+//line sip.rl:483
 value=&msg.ReferredBy
 	goto st283
 tr564:
-//line sip.rl:462
+//line sip.rl:470
 value=&msg.CallInfo
 	goto st283
 tr597:
-//line sip.rl:459
+//line sip.rl:467
 value=&msg.ContentDisposition
 	goto st283
 tr606:
-//line sip.rl:461
+//line sip.rl:469
 value=&msg.ContentEncoding
 	goto st283
 tr616:
-//line sip.rl:460
+//line sip.rl:468
 value=&msg.ContentLanguage
 	goto st283
 tr651:
-//line sip.rl:463
+//line sip.rl:471
 value=&msg.Date
 	goto st283
 tr664:
-//line sip.rl:464
+//line sip.rl:472
 value=&msg.ErrorInfo
 	goto st283
 tr669:
-//line sip.rl:465
+//line sip.rl:473
 value=&msg.Event
 	goto st283
 tr698:
-//line sip.rl:466
+//line sip.rl:474
 value=&msg.InReplyTo
 	goto st283
 tr700:
-//line sip.rl:480
+//line sip.rl:488
 value=&msg.Supported
 	goto st283
 tr732:
-//line sip.rl:468
+//line sip.rl:476
 value=&msg.MIMEVersion
 	goto st283
 tr760:
-//line sip.rl:469
+//line sip.rl:477
 value=&msg.Organization
 	goto st283
 tr790:
-//line sip.rl:470
+//line sip.rl:478
 value=&msg.Priority
 	goto st283
 tr809:
-//line sip.rl:471
+//line sip.rl:479
 value=&msg.ProxyAuthenticate
 	goto st283
 tr819:
-//line sip.rl:472
+//line sip.rl:480
 value=&msg.ProxyAuthorization
 	goto st283
 tr827:
-//line sip.rl:473
+//line sip.rl:481
 value=&msg.ProxyRequire
 	goto st283
 tr829:
-//line sip.rl:474
+//line sip.rl:482
 value=&msg.ReferTo
 	goto st283
 tr879:
-//line sip.rl:467
+//line sip.rl:475
 value=&msg.ReplyTo
 	goto st283
 tr885:
-//line sip.rl:476
+//line sip.rl:484
 value=&msg.Require
 	goto st283
 tr895:
-//line sip.rl:477
+//line sip.rl:485
 value=&msg.RetryAfter
 	goto st283
 tr902:
-//line sip.rl:479
+//line sip.rl:487
 value=&msg.Subject
 	goto st283
 tr910:
-//line sip.rl:478
+//line sip.rl:486
 value=&msg.Server
 	goto st283
 tr934:
-//line sip.rl:481
+//line sip.rl:489
 value=&msg.Timestamp
 	goto st283
 tr947:
-//line sip.rl:482
+//line sip.rl:490
 value=&msg.Unsupported
 	goto st283
 tr957:
-//line sip.rl:483
+//line sip.rl:491
 value=&msg.UserAgent
 	goto st283
 tr974:
-//line sip.rl:484
+//line sip.rl:492
 value=&msg.Warning
 	goto st283
 tr990:
-//line sip.rl:485
+//line sip.rl:493
 value=&msg.WWWAuthenticate
 	goto st283
 	st283:
@@ -10128,7 +10133,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10123
+//line msg_parse.go:10128
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10139,147 +10144,147 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr436:
-//line sip.rl:451
+//line sip.rl:459
 value=&msg.AcceptContact
 	goto st284
 tr452:
-//line sip.rl:450
+//line sip.rl:458
 value=&msg.Accept
 	goto st284
 tr470:
-//line sip.rl:452
+//line sip.rl:460
 value=&msg.AcceptEncoding
 	goto st284
 tr479:
-//line sip.rl:453
+//line sip.rl:461
 value=&msg.AcceptLanguage
 	goto st284
 tr490:
-//line sip.rl:456
+//line sip.rl:464
 value=&msg.AlertInfo
 	goto st284
 tr495:
-//line sip.rl:454
+//line sip.rl:462
 value=&msg.Allow
 	goto st284
 tr503:
-//line sip.rl:455
+//line sip.rl:463
 value=&msg.AllowEvents
 	goto st284
 tr523:
-//line sip.rl:457
+//line sip.rl:465
 value=&msg.AuthenticationInfo
 	goto st284
 tr533:
-//line sip.rl:458
+//line sip.rl:466
 value=&msg.Authorization
 	goto st284
 tr535:
-//line sip.rl:475
+//line sip.rl:483
 value=&msg.ReferredBy
 	goto st284
 tr565:
-//line sip.rl:462
+//line sip.rl:470
 value=&msg.CallInfo
 	goto st284
 tr598:
-//line sip.rl:459
+//line sip.rl:467
 value=&msg.ContentDisposition
 	goto st284
 tr607:
-//line sip.rl:461
+//line sip.rl:469
 value=&msg.ContentEncoding
 	goto st284
 tr617:
-//line sip.rl:460
+//line sip.rl:468
 value=&msg.ContentLanguage
 	goto st284
 tr652:
-//line sip.rl:463
+//line sip.rl:471
 value=&msg.Date
 	goto st284
 tr665:
-//line sip.rl:464
+//line sip.rl:472
 value=&msg.ErrorInfo
 	goto st284
 tr670:
-//line sip.rl:465
+//line sip.rl:473
 value=&msg.Event
 	goto st284
 tr699:
-//line sip.rl:466
+//line sip.rl:474
 value=&msg.InReplyTo
 	goto st284
 tr701:
-//line sip.rl:480
+//line sip.rl:488
 value=&msg.Supported
 	goto st284
 tr733:
-//line sip.rl:468
+//line sip.rl:476
 value=&msg.MIMEVersion
 	goto st284
 tr761:
-//line sip.rl:469
+//line sip.rl:477
 value=&msg.Organization
 	goto st284
 tr791:
-//line sip.rl:470
+//line sip.rl:478
 value=&msg.Priority
 	goto st284
 tr810:
-//line sip.rl:471
+//line sip.rl:479
 value=&msg.ProxyAuthenticate
 	goto st284
 tr820:
-//line sip.rl:472
+//line sip.rl:480
 value=&msg.ProxyAuthorization
 	goto st284
 tr828:
-//line sip.rl:473
+//line sip.rl:481
 value=&msg.ProxyRequire
 	goto st284
 tr830:
-//line sip.rl:474
+//line sip.rl:482
 value=&msg.ReferTo
 	goto st284
 tr880:
-//line sip.rl:467
+//line sip.rl:475
 value=&msg.ReplyTo
 	goto st284
 tr886:
-//line sip.rl:476
+//line sip.rl:484
 value=&msg.Require
 	goto st284
 tr896:
-//line sip.rl:477
+//line sip.rl:485
 value=&msg.RetryAfter
 	goto st284
 tr903:
-//line sip.rl:479
+//line sip.rl:487
 value=&msg.Subject
 	goto st284
 tr911:
-//line sip.rl:478
+//line sip.rl:486
 value=&msg.Server
 	goto st284
 tr935:
-//line sip.rl:481
+//line sip.rl:489
 value=&msg.Timestamp
 	goto st284
 tr948:
-//line sip.rl:482
+//line sip.rl:490
 value=&msg.Unsupported
 	goto st284
 tr958:
-//line sip.rl:483
+//line sip.rl:491
 value=&msg.UserAgent
 	goto st284
 tr975:
-//line sip.rl:484
+//line sip.rl:492
 value=&msg.Warning
 	goto st284
 tr991:
-//line sip.rl:485
+//line sip.rl:493
 value=&msg.WWWAuthenticate
 	goto st284
 	st284:
@@ -10287,7 +10292,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10282
+//line msg_parse.go:10287
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10315,7 +10320,7 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr559:
-//line sip.rl:257
+//line sip.rl:265
  {goto st280 } 
 	goto st774
 tr442:
@@ -10324,7 +10329,7 @@ tr442:
 	p--
 
 
-//line sip.rl:258
+//line sip.rl:266
  {goto st263 } 
 	goto st774
 tr541:
@@ -10333,22 +10338,22 @@ tr541:
 	p--
 
 
-//line sip.rl:256
+//line sip.rl:264
  {goto st34 } 
 	goto st774
 tr576:
-//line sip.rl:534
+//line sip.rl:542
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:252
+//line sip.rl:260
  {goto st256 } 
 	goto st774
 tr962:
-//line sip.rl:137
+//line sip.rl:139
 
 	via = new(Via)
 
@@ -10357,7 +10362,7 @@ tr962:
 	p--
 
 
-//line sip.rl:259
+//line sip.rl:267
  {goto st103 } 
 	goto st774
 tr992:
@@ -10371,7 +10376,7 @@ tr992:
 			goto _test_eof774
 		}
 	st_case_774:
-//line msg_parse.go:10366
+//line msg_parse.go:10371
 		goto st0
 	st285:
 		if p++; p == pe {
@@ -11611,7 +11616,7 @@ tr553:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11606
+//line msg_parse.go:11611
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11750,13 +11755,13 @@ tr553:
 		}
 		goto st0
 tr557:
-//line sip.rl:220
+//line sip.rl:223
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
 tr643:
-//line sip.rl:236
+//line sip.rl:241
 
 	msg.CSeqMethod = string(data[mark:p])
 
@@ -11766,7 +11771,7 @@ tr643:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11761
+//line msg_parse.go:11766
 		if data[p] == 10 {
 			goto tr559
 		}
@@ -11955,31 +11960,31 @@ tr643:
 		}
 		goto tr416
 tr572:
-//line sip.rl:437
+//line sip.rl:445
 addrp=lastAddr(&msg.Contact)
 	goto st394
 tr683:
-//line sip.rl:438
+//line sip.rl:446
 addrp=lastAddr(&msg.From)
 	goto st394
 tr781:
-//line sip.rl:439
+//line sip.rl:447
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
 tr848:
-//line sip.rl:440
+//line sip.rl:448
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
 tr872:
-//line sip.rl:441
+//line sip.rl:449
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
 tr900:
-//line sip.rl:442
+//line sip.rl:450
 addrp=lastAddr(&msg.Route)
 	goto st394
 tr923:
-//line sip.rl:443
+//line sip.rl:451
 addrp=lastAddr(&msg.To)
 	goto st394
 	st394:
@@ -11987,7 +11992,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:11982
+//line msg_parse.go:11987
 		switch data[p] {
 		case 9:
 			goto st394
@@ -11998,31 +12003,31 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr573:
-//line sip.rl:437
+//line sip.rl:445
 addrp=lastAddr(&msg.Contact)
 	goto st395
 tr684:
-//line sip.rl:438
+//line sip.rl:446
 addrp=lastAddr(&msg.From)
 	goto st395
 tr782:
-//line sip.rl:439
+//line sip.rl:447
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
 tr849:
-//line sip.rl:440
+//line sip.rl:448
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
 tr873:
-//line sip.rl:441
+//line sip.rl:449
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
 tr901:
-//line sip.rl:442
+//line sip.rl:450
 addrp=lastAddr(&msg.Route)
 	goto st395
 tr924:
-//line sip.rl:443
+//line sip.rl:451
 addrp=lastAddr(&msg.To)
 	goto st395
 	st395:
@@ -12030,7 +12035,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:12025
+//line msg_parse.go:12030
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12582,17 +12587,19 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr623:
-//line sip.rl:493
+//line sip.rl:501
 clen=0
-//line sip.rl:224
+//line sip.rl:227
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	clen = shift(clen, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st437
 tr625:
-//line sip.rl:224
+//line sip.rl:227
 
-	clen = clen * 10 + (int(data[p]) - 0x30)
+	clen = shift(clen, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st437
 	st437:
@@ -12600,7 +12607,7 @@ tr625:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12595
+//line msg_parse.go:12602
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12778,17 +12785,19 @@ tr625:
 		}
 		goto st0
 tr636:
-//line sip.rl:494
+//line sip.rl:502
 msg.CSeq=0
-//line sip.rl:232
+//line sip.rl:236
 
-	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st450
 tr639:
-//line sip.rl:232
+//line sip.rl:236
 
-	msg.CSeq = msg.CSeq * 10 + (int(data[p]) - 0x30)
+	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st450
 	st450:
@@ -12796,7 +12805,7 @@ tr639:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12791
+//line msg_parse.go:12800
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12878,7 +12887,7 @@ tr641:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12873
+//line msg_parse.go:12882
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13366,17 +13375,19 @@ tr641:
 		}
 		goto st0
 tr678:
-//line sip.rl:495
+//line sip.rl:503
 msg.Expires=0
-//line sip.rl:240
+//line sip.rl:245
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st485
 tr680:
-//line sip.rl:240
+//line sip.rl:245
 
-	msg.Expires = msg.Expires * 10 + (int(data[p]) - 0x30)
+	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st485
 	st485:
@@ -13384,7 +13395,7 @@ tr680:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13379
+//line msg_parse.go:13390
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13831,17 +13842,19 @@ tr680:
 		}
 		goto st0
 tr716:
-//line sip.rl:496
+//line sip.rl:504
 msg.MaxForwards=0
-//line sip.rl:244
+//line sip.rl:250
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st519
 tr718:
-//line sip.rl:244
+//line sip.rl:250
 
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(data[p]) - 0x30)
+	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st519
 	st519:
@@ -13849,7 +13862,7 @@ tr718:
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13844
+//line msg_parse.go:13857
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14181,17 +14194,19 @@ tr718:
 		}
 		goto st0
 tr744:
-//line sip.rl:497
+//line sip.rl:505
 msg.MinExpires=0
-//line sip.rl:248
+//line sip.rl:255
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st545
 tr746:
-//line sip.rl:248
+//line sip.rl:255
 
-	msg.MinExpires = msg.MinExpires * 10 + (int(data[p]) - 0x30)
+	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
 
 	goto st545
 	st545:
@@ -14199,7 +14214,7 @@ tr746:
 			goto _test_eof545
 		}
 	st_case_545:
-//line msg_parse.go:14194
+//line msg_parse.go:14209
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17662,13 +17677,13 @@ tr746:
 	if p == eof {
 		switch cs {
 		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
-//line sip.rl:171
+//line sip.rl:174
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17663
+//line msg_parse.go:17678
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 7e8de70..05ea306 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -114,11 +114,13 @@ action Method {
 }
 
 action VersionMajor {
-	msg.VersionMajor = msg.VersionMajor * 10 + (fc - 0x30)
+	msg.VersionMajor = uint8(shift(int(msg.VersionMajor), fc, 255, &err))
+	if err != nil { return nil, err }
 }
 
 action VersionMinor {
-	msg.VersionMinor = msg.VersionMinor * 10 + (fc - 0x30)
+	msg.VersionMinor = uint8(shift(int(msg.VersionMinor), fc, 255, &err))
+	if err != nil { return nil, err }
 }
 
 action RequestURI {
@@ -161,7 +163,8 @@ action ViaHost {
 }
 
 action ViaPort {
-	via.Port = via.Port * 10 + (uint16(fc) - 0x30)
+	via.Port = uint16(shift(int(via.Port), fc, 65535, &err))
+	if err != nil { return nil, err }
 }
 
 action ViaParam {
@@ -222,7 +225,8 @@ action CallID {
 }
 
 action ContentLength {
-	clen = clen * 10 + (int(fc) - 0x30)
+	clen = shift(clen, fc, maxInt, &err)
+	if err != nil { return nil, err }
 }
 
 action ContentType {
@@ -230,7 +234,8 @@ action ContentType {
 }
 
 action CSeq {
-	msg.CSeq = msg.CSeq * 10 + (int(fc) - 0x30)
+	msg.CSeq = shift(msg.CSeq, fc, maxInt, &err)
+	if err != nil { return nil, err }
 }
 
 action CSeqMethod {
@@ -238,15 +243,18 @@ action CSeqMethod {
 }
 
 action Expires {
-	msg.Expires = msg.Expires * 10 + (int(fc) - 0x30)
+	msg.Expires = shift(msg.Expires, fc, maxInt, &err)
+	if err != nil { return nil, err }
 }
 
 action MaxForwards {
-	msg.MaxForwards = msg.MaxForwards * 10 + (int(fc) - 0x30)
+	msg.MaxForwards = shift(msg.MaxForwards, fc, maxInt, &err)
+	if err != nil { return nil, err }
 }
 
 action MinExpires {
-	msg.MinExpires = msg.MinExpires * 10 + (int(fc) - 0x30)
+	msg.MinExpires = shift(msg.MinExpires, fc, maxInt, &err)
+	if err != nil { return nil, err }
 }
 
 action goto_addr { fgoto addr; }
diff --git a/sip/uri_parse.go b/sip/uri_parse.go
index 6cd03bc..169c458 100644
--- a/sip/uri_parse.go
+++ b/sip/uri_parse.go
@@ -53,7 +53,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	var hex byte
 
 	
-//line uri_parse.rl:161
+//line uri_parse.rl:162
 
 
 	
@@ -62,7 +62,7 @@ func ParseURI(data []byte) (uri *URI, err error) {
 	cs = uri_start
 	}
 
-//line uri_parse.rl:164
+//line uri_parse.rl:165
 	if bytes.IndexByte(data, '@') == -1 {
 		cs = uri_en_uriSansUser;
 	} else {
@@ -214,7 +214,7 @@ tr0:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -225,7 +225,7 @@ tr0:
 		
 	goto st2
 tr2:
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -620,7 +620,7 @@ tr19:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -631,7 +631,7 @@ tr19:
 		
 	goto st45
 tr66:
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -694,7 +694,8 @@ tr67:
 tr21:
 //line uri_parse.rl:86
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			uri.Port = uint16(shift(int(uri.Port), data[p], 65535, &err))
+			if err != nil { return nil, err }
 		
 	goto st46
 	st46:
@@ -702,7 +703,7 @@ tr21:
 			goto _test_eof46
 		}
 	st_case_46:
-//line uri_parse.go:698
+//line uri_parse.go:699
 		switch data[p] {
 		case 59:
 			goto st13
@@ -720,23 +721,23 @@ tr68:
 		
 	goto st13
 tr74:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st13
 tr79:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -746,7 +747,7 @@ tr79:
 			goto _test_eof13
 		}
 	st_case_13:
-//line uri_parse.go:742
+//line uri_parse.go:743
 		switch data[p] {
 		case 33:
 			goto tr22
@@ -797,7 +798,7 @@ tr22:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -813,7 +814,7 @@ tr22:
 			goto _test_eof47
 		}
 	st_case_47:
-//line uri_parse.go:809
+//line uri_parse.go:810
 		switch data[p] {
 		case 33:
 			goto tr72
@@ -855,7 +856,7 @@ tr23:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -866,7 +867,7 @@ tr23:
 			goto _test_eof14
 		}
 	st_case_14:
-//line uri_parse.go:862
+//line uri_parse.go:863
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -891,7 +892,7 @@ tr24:
 			goto _test_eof15
 		}
 	st_case_15:
-//line uri_parse.go:887
+//line uri_parse.go:888
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -906,7 +907,7 @@ tr24:
 		}
 		goto st0
 tr75:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -917,7 +918,7 @@ tr75:
 			goto _test_eof16
 		}
 	st_case_16:
-//line uri_parse.go:913
+//line uri_parse.go:914
 		switch data[p] {
 		case 33:
 			goto tr26
@@ -979,7 +980,7 @@ tr29:
 			goto _test_eof48
 		}
 	st_case_48:
-//line uri_parse.go:975
+//line uri_parse.go:976
 		switch data[p] {
 		case 33:
 			goto tr77
@@ -1025,7 +1026,7 @@ tr27:
 			goto _test_eof17
 		}
 	st_case_17:
-//line uri_parse.go:1021
+//line uri_parse.go:1022
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1050,7 +1051,7 @@ tr28:
 			goto _test_eof18
 		}
 	st_case_18:
-//line uri_parse.go:1046
+//line uri_parse.go:1047
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1071,45 +1072,45 @@ tr69:
 		
 	goto st19
 tr76:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr80:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st19
 tr83:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:114
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st19
 tr87:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:114
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -1119,7 +1120,7 @@ tr87:
 			goto _test_eof19
 		}
 	st_case_19:
-//line uri_parse.go:1115
+//line uri_parse.go:1116
 		switch data[p] {
 		case 33:
 			goto tr30
@@ -1174,7 +1175,7 @@ tr30:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1190,7 +1191,7 @@ tr30:
 			goto _test_eof49
 		}
 	st_case_49:
-//line uri_parse.go:1186
+//line uri_parse.go:1187
 		switch data[p] {
 		case 33:
 			goto tr81
@@ -1232,7 +1233,7 @@ tr31:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1243,7 +1244,7 @@ tr31:
 			goto _test_eof20
 		}
 	st_case_20:
-//line uri_parse.go:1239
+//line uri_parse.go:1240
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1268,7 +1269,7 @@ tr32:
 			goto _test_eof21
 		}
 	st_case_21:
-//line uri_parse.go:1264
+//line uri_parse.go:1265
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1283,7 +1284,7 @@ tr32:
 		}
 		goto st0
 tr84:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1294,7 +1295,7 @@ tr84:
 			goto _test_eof22
 		}
 	st_case_22:
-//line uri_parse.go:1290
+//line uri_parse.go:1291
 		switch data[p] {
 		case 33:
 			goto tr34
@@ -1360,7 +1361,7 @@ tr37:
 			goto _test_eof50
 		}
 	st_case_50:
-//line uri_parse.go:1356
+//line uri_parse.go:1357
 		switch data[p] {
 		case 33:
 			goto tr85
@@ -1406,7 +1407,7 @@ tr35:
 			goto _test_eof23
 		}
 	st_case_23:
-//line uri_parse.go:1402
+//line uri_parse.go:1403
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1431,7 +1432,7 @@ tr36:
 			goto _test_eof24
 		}
 	st_case_24:
-//line uri_parse.go:1427
+//line uri_parse.go:1428
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1471,7 +1472,7 @@ tr38:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1482,7 +1483,7 @@ tr38:
 		
 	goto st26
 tr39:
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1497,7 +1498,7 @@ tr39:
 			goto _test_eof26
 		}
 	st_case_26:
-//line uri_parse.go:1493
+//line uri_parse.go:1494
 		switch data[p] {
 		case 46:
 			goto tr39
@@ -1528,7 +1529,7 @@ tr40:
 			goto _test_eof51
 		}
 	st_case_51:
-//line uri_parse.go:1524
+//line uri_parse.go:1525
 		switch data[p] {
 		case 58:
 			goto st12
@@ -1553,7 +1554,7 @@ tr41:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1564,7 +1565,7 @@ tr41:
 		
 	goto st28
 tr42:
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1579,7 +1580,7 @@ tr42:
 			goto _test_eof28
 		}
 	st_case_28:
-//line uri_parse.go:1575
+//line uri_parse.go:1576
 		switch data[p] {
 		case 43:
 			goto tr42
@@ -1615,7 +1616,7 @@ tr43:
 			goto _test_eof29
 		}
 	st_case_29:
-//line uri_parse.go:1611
+//line uri_parse.go:1612
 		switch data[p] {
 		case 43:
 			goto tr44
@@ -1645,7 +1646,7 @@ tr44:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1656,7 +1657,7 @@ tr44:
 		
 	goto st52
 tr89:
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -1671,7 +1672,7 @@ tr89:
 			goto _test_eof52
 		}
 	st_case_52:
-//line uri_parse.go:1667
+//line uri_parse.go:1668
 		switch data[p] {
 		case 43:
 			goto tr89
@@ -1711,7 +1712,7 @@ tr90:
 			goto _test_eof30
 		}
 	st_case_30:
-//line uri_parse.go:1707
+//line uri_parse.go:1708
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr46
 		}
@@ -1719,7 +1720,8 @@ tr90:
 tr46:
 //line uri_parse.rl:86
 
-			uri.Port = uri.Port * 10 + uint16(data[p] - 0x30)
+			uri.Port = uint16(shift(int(uri.Port), data[p], 65535, &err))
+			if err != nil { return nil, err }
 		
 	goto st53
 	st53:
@@ -1727,7 +1729,7 @@ tr46:
 			goto _test_eof53
 		}
 	st_case_53:
-//line uri_parse.go:1723
+//line uri_parse.go:1725
 		switch data[p] {
 		case 59:
 			goto st31
@@ -1745,23 +1747,23 @@ tr91:
 		
 	goto st31
 tr97:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st31
 tr102:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
@@ -1771,7 +1773,7 @@ tr102:
 			goto _test_eof31
 		}
 	st_case_31:
-//line uri_parse.go:1767
+//line uri_parse.go:1769
 		switch data[p] {
 		case 33:
 			goto tr47
@@ -1822,7 +1824,7 @@ tr47:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1838,7 +1840,7 @@ tr47:
 			goto _test_eof54
 		}
 	st_case_54:
-//line uri_parse.go:1834
+//line uri_parse.go:1836
 		switch data[p] {
 		case 33:
 			goto tr95
@@ -1880,7 +1882,7 @@ tr48:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -1891,7 +1893,7 @@ tr48:
 			goto _test_eof32
 		}
 	st_case_32:
-//line uri_parse.go:1887
+//line uri_parse.go:1889
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1916,7 +1918,7 @@ tr49:
 			goto _test_eof33
 		}
 	st_case_33:
-//line uri_parse.go:1912
+//line uri_parse.go:1914
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -1931,7 +1933,7 @@ tr49:
 		}
 		goto st0
 tr98:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -1942,7 +1944,7 @@ tr98:
 			goto _test_eof34
 		}
 	st_case_34:
-//line uri_parse.go:1938
+//line uri_parse.go:1940
 		switch data[p] {
 		case 33:
 			goto tr51
@@ -2004,7 +2006,7 @@ tr54:
 			goto _test_eof55
 		}
 	st_case_55:
-//line uri_parse.go:2000
+//line uri_parse.go:2002
 		switch data[p] {
 		case 33:
 			goto tr100
@@ -2050,7 +2052,7 @@ tr52:
 			goto _test_eof35
 		}
 	st_case_35:
-//line uri_parse.go:2046
+//line uri_parse.go:2048
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2075,7 +2077,7 @@ tr53:
 			goto _test_eof36
 		}
 	st_case_36:
-//line uri_parse.go:2071
+//line uri_parse.go:2073
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2096,45 +2098,45 @@ tr92:
 		
 	goto st37
 tr99:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr103:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 	goto st37
 tr106:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:114
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 	goto st37
 tr110:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:114
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
@@ -2144,7 +2146,7 @@ tr110:
 			goto _test_eof37
 		}
 	st_case_37:
-//line uri_parse.go:2140
+//line uri_parse.go:2142
 		switch data[p] {
 		case 33:
 			goto tr55
@@ -2199,7 +2201,7 @@ tr55:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2215,7 +2217,7 @@ tr55:
 			goto _test_eof56
 		}
 	st_case_56:
-//line uri_parse.go:2211
+//line uri_parse.go:2213
 		switch data[p] {
 		case 33:
 			goto tr104
@@ -2257,7 +2259,7 @@ tr56:
 
 			amt = 0
 		
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
@@ -2268,7 +2270,7 @@ tr56:
 			goto _test_eof38
 		}
 	st_case_38:
-//line uri_parse.go:2264
+//line uri_parse.go:2266
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2293,7 +2295,7 @@ tr57:
 			goto _test_eof39
 		}
 	st_case_39:
-//line uri_parse.go:2289
+//line uri_parse.go:2291
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2308,7 +2310,7 @@ tr57:
 		}
 		goto st0
 tr107:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
@@ -2319,7 +2321,7 @@ tr107:
 			goto _test_eof40
 		}
 	st_case_40:
-//line uri_parse.go:2315
+//line uri_parse.go:2317
 		switch data[p] {
 		case 33:
 			goto tr59
@@ -2385,7 +2387,7 @@ tr62:
 			goto _test_eof57
 		}
 	st_case_57:
-//line uri_parse.go:2381
+//line uri_parse.go:2383
 		switch data[p] {
 		case 33:
 			goto tr108
@@ -2431,7 +2433,7 @@ tr60:
 			goto _test_eof41
 		}
 	st_case_41:
-//line uri_parse.go:2427
+//line uri_parse.go:2429
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2456,7 +2458,7 @@ tr61:
 			goto _test_eof42
 		}
 	st_case_42:
-//line uri_parse.go:2452
+//line uri_parse.go:2454
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2496,7 +2498,7 @@ tr63:
 
 			amt = 0
 		
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2507,7 +2509,7 @@ tr63:
 		
 	goto st44
 tr64:
-//line uri_parse.rl:100
+//line uri_parse.rl:101
 
 			if 'A' <= data[p] && data[p] <= 'Z' {
 				buf[amt] = data[p] + 0x20
@@ -2522,7 +2524,7 @@ tr64:
 			goto _test_eof44
 		}
 	st_case_44:
-//line uri_parse.go:2518
+//line uri_parse.go:2520
 		switch data[p] {
 		case 46:
 			goto tr64
@@ -2553,7 +2555,7 @@ tr65:
 			goto _test_eof58
 		}
 	st_case_58:
-//line uri_parse.go:2549
+//line uri_parse.go:2551
 		switch data[p] {
 		case 58:
 			goto st30
@@ -2630,53 +2632,53 @@ tr65:
 			uri.Host = string(buf[0:amt])
 		
 		case 47, 54:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 49, 56:
-//line uri_parse.rl:90
+//line uri_parse.rl:91
 
 			b1 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:114
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
 		case 48, 55:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:109
+//line uri_parse.rl:110
 
 			uri.Param = &URIParam{b1, b2, uri.Param}
 		
 		case 50, 57:
-//line uri_parse.rl:95
+//line uri_parse.rl:96
 
 			b2 = string(buf[0:amt])
 			amt = 0
 		
-//line uri_parse.rl:113
+//line uri_parse.rl:114
 
 			uri.Header = &URIHeader{b1, b2, uri.Header}
 		
-//line uri_parse.go:2665
+//line uri_parse.go:2667
 		}
 	}
 
 	_out: {}
 	}
 
-//line uri_parse.rl:170
+//line uri_parse.rl:171
 
 	if cs < uri_first_final {
 		if p == pe {
diff --git a/sip/uri_parse.rl b/sip/uri_parse.rl
index b885453..5a4d09d 100644
--- a/sip/uri_parse.rl
+++ b/sip/uri_parse.rl
@@ -84,7 +84,8 @@ func ParseURI(data []byte) (uri *URI, err error) {
 		}
 
 		action port {
-			uri.Port = uri.Port * 10 + uint16(fc - 0x30)
+			uri.Port = uint16(shift(int(uri.Port), fc, 65535, &err))
+			if err != nil { return nil, err }
 		}
 
 		action b1 {
diff --git a/sip/util.go b/sip/util.go
index ffc91c9..8fcd06b 100644
--- a/sip/util.go
+++ b/sip/util.go
@@ -14,6 +14,14 @@
 
 package sip
 
+import (
+	"errors"
+)
+
+const maxInt = int(^uint(0) >> 1)
+
+var errNumberTooBig = errors.New("Number too big in SIP message")
+
 func unhex(b byte) byte {
 	switch {
 	case '0' <= b && b <= '9':
@@ -25,3 +33,13 @@ func unhex(b byte) byte {
 	}
 	return 0
 }
+
+// shift appends a decimal digit to n, or sets err if that exceeds max.
+func shift(n int, digit byte, max int, err *error) int {
+	d := int(digit) - '0'
+	if n > (max-d)/10 {
+		*err = errNumberTooBig
+		return n
+	}
+	return n*10 + d
+}
-- 
2.43.0


From b401473e5b35b115d08e12bc806978a2644ce687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 32/47] fix: don't write an empty Content-Type header

It doesn't parse.
---
 sip/msg.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sip/msg.go b/sip/msg.go
index c04fc4b..164297d 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -455,9 +455,11 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 	msg.XHeader.Append(b)
 
 	if msg.Payload != nil {
-		b.WriteString("Content-Type: ")
-		b.WriteString(msg.Payload.ContentType())
-		b.WriteString("\r\n")
+		if ctype := msg.Payload.ContentType(); ctype != "" {
+			b.WriteString("Content-Type: ")
+			b.WriteString(ctype)
+			b.WriteString("\r\n")
+		}
 		payload := msg.Payload.Data()
 		b.WriteString("Content-Length: ")
 		b.WriteString(strconv.Itoa(len(payload)))
-- 
2.43.0


From 00c0176724f5cb129b93dfbdbeed48dc18eeb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 33/47] fix: an empty datagram must not crash the receiver

---
 dialog/receiver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index ae315df..a7e2c21 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -35,7 +35,8 @@ func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
 			break
 		}
 		ts := time.Now()
-		packet := append([]byte(nil), buf[0:amt]...) // Msg keeps slices of it.
+		packet := make([]byte, amt) // Msg keeps slices of it.
+		copy(packet, buf)
 		if *tracing {
 			trace("recv", packet, addr)
 		}
-- 
2.43.0


From 2cce5e1c7acd960bbec18f35af6268aa9e0d1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:44 +0000
Subject: [PATCH 34/47] fix: accept a body that starts with whitespace

---
 sip/msg_parse.go | 4927 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    2 +-
 2 files changed, 2461 insertions(+), 2468 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 582588b..e0e8f69 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -684,14 +684,14 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_280
 	case 281:
 		goto st_case_281
+	case 774:
+		goto st_case_774
 	case 282:
 		goto st_case_282
 	case 283:
 		goto st_case_283
 	case 284:
 		goto st_case_284
-	case 774:
-		goto st_case_774
 	case 285:
 		goto st_case_285
 	case 286:
@@ -1676,7 +1676,7 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr416:
+tr417:
 //line sip.rl:174
 
 	p--
@@ -9824,49 +9824,110 @@ value=nil
 			goto _test_eof280
 		}
 	st_case_280:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
+		switch data[p] {
+		case 13:
+			goto st281
 		case 33:
-			goto tr414
+			goto tr415
 		case 37:
-			goto tr414
+			goto tr415
 		case 39:
-			goto tr414
+			goto tr415
 		case 126:
-			goto tr414
-		case 269:
-			goto st757
+			goto tr415
 		}
 		switch {
-		case _widec < 48:
+		case data[p] < 48:
 			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto tr414
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr415
 				}
-			case _widec >= 42:
-				goto tr414
+			case data[p] >= 42:
+				goto tr415
 			}
-		case _widec > 57:
+		case data[p] > 57:
 			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto tr414
+			case data[p] > 90:
+				if 95 <= data[p] && data[p] <= 122 {
+					goto tr415
 				}
-			case _widec >= 65:
-				goto tr414
+			case data[p] >= 65:
+				goto tr415
 			}
 		default:
-			goto tr414
+			goto tr415
+		}
+		goto st0
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		if data[p] == 10 {
+			goto tr416
+		}
+		goto st0
+tr560:
+//line sip.rl:265
+ {goto st280 } 
+	goto st774
+tr416:
+//line sip.rl:76
+
+	{p++; cs = 774; goto _out }
+
+	goto st774
+tr443:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:266
+ {goto st263 } 
+	goto st774
+tr542:
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:264
+ {goto st34 } 
+	goto st774
+tr577:
+//line sip.rl:542
+value=nil
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:260
+ {goto st256 } 
+	goto st774
+tr963:
+//line sip.rl:139
+
+	via = new(Via)
+
+//line sip.rl:72
+
+	p--
+
+
+//line sip.rl:267
+ {goto st103 } 
+	goto st774
+	st774:
+		if p++; p == pe {
+			goto _test_eof774
 		}
+	st_case_774:
+//line msg_parse.go:9920
 		goto st0
-tr414:
+tr415:
 //line sip.rl:80
 
 	mark = p
@@ -9876,423 +9937,423 @@ tr414:
 	p--
 
 
-	goto st281
-	st281:
+	goto st282
+	st282:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof282
 		}
-	st_case_281:
-//line msg_parse.go:9877
+	st_case_282:
+//line msg_parse.go:9938
 		switch data[p] {
 		case 65:
-			goto st282
+			goto st283
 		case 66:
-			goto st363
-		case 67:
 			goto st364
+		case 67:
+			goto st365
 		case 68:
-			goto st459
+			goto st460
 		case 69:
-			goto st463
+			goto st464
 		case 70:
-			goto st489
+			goto st490
 		case 73:
-			goto st493
+			goto st494
 		case 75:
-			goto st504
+			goto st505
 		case 76:
-			goto st434
+			goto st435
 		case 77:
-			goto st505
+			goto st506
 		case 79:
-			goto st549
+			goto st550
 		case 80:
-			goto st561
+			goto st562
 		case 82:
-			goto st619
+			goto st620
 		case 83:
-			goto st679
+			goto st680
 		case 84:
-			goto st697
+			goto st698
 		case 85:
-			goto st707
+			goto st708
 		case 86:
-			goto st727
+			goto st728
 		case 87:
-			goto st735
+			goto st736
 		case 97:
-			goto st282
+			goto st283
 		case 98:
-			goto st363
-		case 99:
 			goto st364
+		case 99:
+			goto st365
 		case 100:
-			goto st459
+			goto st460
 		case 101:
-			goto st463
+			goto st464
 		case 102:
-			goto st489
+			goto st490
 		case 105:
-			goto st493
+			goto st494
 		case 107:
-			goto st504
+			goto st505
 		case 108:
-			goto st434
+			goto st435
 		case 109:
-			goto st505
+			goto st506
 		case 111:
-			goto st549
+			goto st550
 		case 112:
-			goto st561
+			goto st562
 		case 114:
-			goto st619
+			goto st620
 		case 115:
-			goto st679
+			goto st680
 		case 116:
-			goto st697
+			goto st698
 		case 117:
-			goto st707
+			goto st708
 		case 118:
-			goto st727
+			goto st728
 		case 119:
-			goto st735
+			goto st736
 		}
-		goto tr416
-	st282:
+		goto tr417
+	st283:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof283
 		}
-	st_case_282:
+	st_case_283:
 		switch data[p] {
 		case 9:
-			goto tr435
+			goto tr436
 		case 32:
-			goto tr435
-		case 58:
 			goto tr436
+		case 58:
+			goto tr437
 		case 67:
-			goto st288
+			goto st289
 		case 76:
-			goto st317
+			goto st318
 		case 85:
-			goto st336
+			goto st337
 		case 99:
-			goto st288
+			goto st289
 		case 108:
-			goto st317
+			goto st318
 		case 117:
-			goto st336
+			goto st337
 		}
-		goto tr416
-tr435:
+		goto tr417
+tr436:
 //line sip.rl:459
 value=&msg.AcceptContact
-	goto st283
-tr450:
+	goto st284
+tr451:
 //line sip.rl:458
 value=&msg.Accept
-	goto st283
-tr469:
+	goto st284
+tr470:
 //line sip.rl:460
 value=&msg.AcceptEncoding
-	goto st283
-tr478:
+	goto st284
+tr479:
 //line sip.rl:461
 value=&msg.AcceptLanguage
-	goto st283
-tr489:
+	goto st284
+tr490:
 //line sip.rl:464
 value=&msg.AlertInfo
-	goto st283
-tr493:
+	goto st284
+tr494:
 //line sip.rl:462
 value=&msg.Allow
-	goto st283
-tr502:
+	goto st284
+tr503:
 //line sip.rl:463
 value=&msg.AllowEvents
-	goto st283
-tr522:
+	goto st284
+tr523:
 //line sip.rl:465
 value=&msg.AuthenticationInfo
-	goto st283
-tr532:
+	goto st284
+tr533:
 //line sip.rl:466
 value=&msg.Authorization
-	goto st283
-tr534:
+	goto st284
+tr535:
 //line sip.rl:483
 value=&msg.ReferredBy
-	goto st283
-tr564:
+	goto st284
+tr565:
 //line sip.rl:470
 value=&msg.CallInfo
-	goto st283
-tr597:
+	goto st284
+tr598:
 //line sip.rl:467
 value=&msg.ContentDisposition
-	goto st283
-tr606:
+	goto st284
+tr607:
 //line sip.rl:469
 value=&msg.ContentEncoding
-	goto st283
-tr616:
+	goto st284
+tr617:
 //line sip.rl:468
 value=&msg.ContentLanguage
-	goto st283
-tr651:
+	goto st284
+tr652:
 //line sip.rl:471
 value=&msg.Date
-	goto st283
-tr664:
+	goto st284
+tr665:
 //line sip.rl:472
 value=&msg.ErrorInfo
-	goto st283
-tr669:
+	goto st284
+tr670:
 //line sip.rl:473
 value=&msg.Event
-	goto st283
-tr698:
+	goto st284
+tr699:
 //line sip.rl:474
 value=&msg.InReplyTo
-	goto st283
-tr700:
+	goto st284
+tr701:
 //line sip.rl:488
 value=&msg.Supported
-	goto st283
-tr732:
+	goto st284
+tr733:
 //line sip.rl:476
 value=&msg.MIMEVersion
-	goto st283
-tr760:
+	goto st284
+tr761:
 //line sip.rl:477
 value=&msg.Organization
-	goto st283
-tr790:
+	goto st284
+tr791:
 //line sip.rl:478
 value=&msg.Priority
-	goto st283
-tr809:
+	goto st284
+tr810:
 //line sip.rl:479
 value=&msg.ProxyAuthenticate
-	goto st283
-tr819:
+	goto st284
+tr820:
 //line sip.rl:480
 value=&msg.ProxyAuthorization
-	goto st283
-tr827:
+	goto st284
+tr828:
 //line sip.rl:481
 value=&msg.ProxyRequire
-	goto st283
-tr829:
+	goto st284
+tr830:
 //line sip.rl:482
 value=&msg.ReferTo
-	goto st283
-tr879:
+	goto st284
+tr880:
 //line sip.rl:475
 value=&msg.ReplyTo
-	goto st283
-tr885:
+	goto st284
+tr886:
 //line sip.rl:484
 value=&msg.Require
-	goto st283
-tr895:
+	goto st284
+tr896:
 //line sip.rl:485
 value=&msg.RetryAfter
-	goto st283
-tr902:
+	goto st284
+tr903:
 //line sip.rl:487
 value=&msg.Subject
-	goto st283
-tr910:
+	goto st284
+tr911:
 //line sip.rl:486
 value=&msg.Server
-	goto st283
-tr934:
+	goto st284
+tr935:
 //line sip.rl:489
 value=&msg.Timestamp
-	goto st283
-tr947:
-//line sip.rl:490
+	goto st284
+tr948:
+//line sip.rl:490
 value=&msg.Unsupported
-	goto st283
-tr957:
+	goto st284
+tr958:
 //line sip.rl:491
 value=&msg.UserAgent
-	goto st283
-tr974:
+	goto st284
+tr975:
 //line sip.rl:492
 value=&msg.Warning
-	goto st283
-tr990:
+	goto st284
+tr991:
 //line sip.rl:493
 value=&msg.WWWAuthenticate
-	goto st283
-	st283:
+	goto st284
+	st284:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof284
 		}
-	st_case_283:
-//line msg_parse.go:10128
+	st_case_284:
+//line msg_parse.go:10189
 		switch data[p] {
 		case 9:
-			goto st283
+			goto st284
 		case 32:
-			goto st283
-		case 58:
 			goto st284
+		case 58:
+			goto st285
 		}
 		goto st0
-tr436:
+tr437:
 //line sip.rl:459
 value=&msg.AcceptContact
-	goto st284
-tr452:
+	goto st285
+tr453:
 //line sip.rl:458
 value=&msg.Accept
-	goto st284
-tr470:
+	goto st285
+tr471:
 //line sip.rl:460
 value=&msg.AcceptEncoding
-	goto st284
-tr479:
+	goto st285
+tr480:
 //line sip.rl:461
 value=&msg.AcceptLanguage
-	goto st284
-tr490:
+	goto st285
+tr491:
 //line sip.rl:464
 value=&msg.AlertInfo
-	goto st284
-tr495:
+	goto st285
+tr496:
 //line sip.rl:462
 value=&msg.Allow
-	goto st284
-tr503:
+	goto st285
+tr504:
 //line sip.rl:463
 value=&msg.AllowEvents
-	goto st284
-tr523:
+	goto st285
+tr524:
 //line sip.rl:465
 value=&msg.AuthenticationInfo
-	goto st284
-tr533:
+	goto st285
+tr534:
 //line sip.rl:466
 value=&msg.Authorization
-	goto st284
-tr535:
+	goto st285
+tr536:
 //line sip.rl:483
 value=&msg.ReferredBy
-	goto st284
-tr565:
+	goto st285
+tr566:
 //line sip.rl:470
 value=&msg.CallInfo
-	goto st284
-tr598:
+	goto st285
+tr599:
 //line sip.rl:467
 value=&msg.ContentDisposition
-	goto st284
-tr607:
+	goto st285
+tr608:
 //line sip.rl:469
 value=&msg.ContentEncoding
-	goto st284
-tr617:
+	goto st285
+tr618:
 //line sip.rl:468
 value=&msg.ContentLanguage
-	goto st284
-tr652:
+	goto st285
+tr653:
 //line sip.rl:471
 value=&msg.Date
-	goto st284
-tr665:
+	goto st285
+tr666:
 //line sip.rl:472
 value=&msg.ErrorInfo
-	goto st284
-tr670:
+	goto st285
+tr671:
 //line sip.rl:473
 value=&msg.Event
-	goto st284
-tr699:
+	goto st285
+tr700:
 //line sip.rl:474
 value=&msg.InReplyTo
-	goto st284
-tr701:
+	goto st285
+tr702:
 //line sip.rl:488
 value=&msg.Supported
-	goto st284
-tr733:
+	goto st285
+tr734:
 //line sip.rl:476
 value=&msg.MIMEVersion
-	goto st284
-tr761:
+	goto st285
+tr762:
 //line sip.rl:477
 value=&msg.Organization
-	goto st284
-tr791:
+	goto st285
+tr792:
 //line sip.rl:478
 value=&msg.Priority
-	goto st284
-tr810:
+	goto st285
+tr811:
 //line sip.rl:479
 value=&msg.ProxyAuthenticate
-	goto st284
-tr820:
+	goto st285
+tr821:
 //line sip.rl:480
 value=&msg.ProxyAuthorization
-	goto st284
-tr828:
+	goto st285
+tr829:
 //line sip.rl:481
 value=&msg.ProxyRequire
-	goto st284
-tr830:
+	goto st285
+tr831:
 //line sip.rl:482
 value=&msg.ReferTo
-	goto st284
-tr880:
+	goto st285
+tr881:
 //line sip.rl:475
 value=&msg.ReplyTo
-	goto st284
-tr886:
+	goto st285
+tr887:
 //line sip.rl:484
 value=&msg.Require
-	goto st284
-tr896:
+	goto st285
+tr897:
 //line sip.rl:485
 value=&msg.RetryAfter
-	goto st284
-tr903:
+	goto st285
+tr904:
 //line sip.rl:487
 value=&msg.Subject
-	goto st284
-tr911:
+	goto st285
+tr912:
 //line sip.rl:486
 value=&msg.Server
-	goto st284
-tr935:
+	goto st285
+tr936:
 //line sip.rl:489
 value=&msg.Timestamp
-	goto st284
-tr948:
+	goto st285
+tr949:
 //line sip.rl:490
 value=&msg.Unsupported
-	goto st284
-tr958:
+	goto st285
+tr959:
 //line sip.rl:491
 value=&msg.UserAgent
-	goto st284
-tr975:
+	goto st285
+tr976:
 //line sip.rl:492
 value=&msg.Warning
-	goto st284
-tr991:
+	goto st285
+tr992:
 //line sip.rl:493
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st285
+	st285:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof285
 		}
-	st_case_284:
-//line msg_parse.go:10287
+	st_case_285:
+//line msg_parse.go:10348
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10302,89 +10363,21 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st284
+			goto st285
 		case 32:
-			goto st284
+			goto st285
 		case 269:
-			goto tr442
+			goto tr443
 		case 525:
-			goto st285
+			goto st286
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr442
+				goto tr443
 			}
 		default:
-			goto tr442
-		}
-		goto st0
-tr559:
-//line sip.rl:265
- {goto st280 } 
-	goto st774
-tr442:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:266
- {goto st263 } 
-	goto st774
-tr541:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:264
- {goto st34 } 
-	goto st774
-tr576:
-//line sip.rl:542
-value=nil
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:260
- {goto st256 } 
-	goto st774
-tr962:
-//line sip.rl:139
-
-	via = new(Via)
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:267
- {goto st103 } 
-	goto st774
-tr992:
-//line sip.rl:76
-
-	{p++; cs = 774; goto _out }
-
-	goto st774
-	st774:
-		if p++; p == pe {
-			goto _test_eof774
-		}
-	st_case_774:
-//line msg_parse.go:10371
-		goto st0
-	st285:
-		if p++; p == pe {
-			goto _test_eof285
-		}
-	st_case_285:
-		if data[p] == 10 {
-			goto st286
+			goto tr443
 		}
 		goto st0
 	st286:
@@ -10392,10 +10385,7 @@ tr992:
 			goto _test_eof286
 		}
 	st_case_286:
-		switch data[p] {
-		case 9:
-			goto st287
-		case 32:
+		if data[p] == 10 {
 			goto st287
 		}
 		goto st0
@@ -10406,943 +10396,941 @@ tr992:
 	st_case_287:
 		switch data[p] {
 		case 9:
-			goto st287
+			goto st288
 		case 32:
-			goto st287
+			goto st288
 		}
-		goto tr442
+		goto st0
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 67:
-			goto st289
-		case 99:
-			goto st289
+		case 9:
+			goto st288
+		case 32:
+			goto st288
 		}
-		goto tr416
+		goto tr443
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 69:
+		case 67:
 			goto st290
-		case 101:
+		case 99:
 			goto st290
 		}
-		goto tr416
+		goto tr417
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st291
-		case 112:
+		case 101:
 			goto st291
 		}
-		goto tr416
+		goto tr417
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st292
-		case 116:
+		case 112:
 			goto st292
 		}
-		goto tr416
+		goto tr417
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 9:
-			goto tr450
-		case 32:
-			goto tr450
-		case 45:
+		case 84:
+			goto st293
+		case 116:
 			goto st293
-		case 58:
-			goto tr452
 		}
-		goto tr416
+		goto tr417
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 67:
-			goto st294
-		case 69:
-			goto st301
-		case 76:
-			goto st309
-		case 99:
+		case 9:
+			goto tr451
+		case 32:
+			goto tr451
+		case 45:
 			goto st294
-		case 101:
-			goto st301
-		case 108:
-			goto st309
+		case 58:
+			goto tr453
 		}
-		goto tr416
+		goto tr417
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st295
-		case 111:
+		case 69:
+			goto st302
+		case 76:
+			goto st310
+		case 99:
 			goto st295
+		case 101:
+			goto st302
+		case 108:
+			goto st310
 		}
-		goto tr416
+		goto tr417
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st296
-		case 110:
+		case 111:
 			goto st296
 		}
-		goto tr416
+		goto tr417
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st297
-		case 116:
+		case 110:
 			goto st297
 		}
-		goto tr416
+		goto tr417
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st298
-		case 97:
+		case 116:
 			goto st298
 		}
-		goto tr416
+		goto tr417
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st299
-		case 99:
+		case 97:
 			goto st299
 		}
-		goto tr416
+		goto tr417
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st300
-		case 116:
+		case 99:
 			goto st300
 		}
-		goto tr416
+		goto tr417
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 9:
-			goto tr435
-		case 32:
-			goto tr435
-		case 58:
-			goto tr436
+		case 84:
+			goto st301
+		case 116:
+			goto st301
 		}
-		goto tr416
+		goto tr417
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 78:
-			goto st302
-		case 110:
-			goto st302
+		case 9:
+			goto tr436
+		case 32:
+			goto tr436
+		case 58:
+			goto tr437
 		}
-		goto tr416
+		goto tr417
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st303
-		case 99:
+		case 110:
 			goto st303
 		}
-		goto tr416
+		goto tr417
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st304
-		case 111:
+		case 99:
 			goto st304
 		}
-		goto tr416
+		goto tr417
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st305
-		case 100:
+		case 111:
 			goto st305
 		}
-		goto tr416
+		goto tr417
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st306
-		case 105:
+		case 100:
 			goto st306
 		}
-		goto tr416
+		goto tr417
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st307
-		case 110:
+		case 105:
 			goto st307
 		}
-		goto tr416
+		goto tr417
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st308
-		case 103:
+		case 110:
 			goto st308
 		}
-		goto tr416
+		goto tr417
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 9:
-			goto tr469
-		case 32:
-			goto tr469
-		case 58:
-			goto tr470
+		case 71:
+			goto st309
+		case 103:
+			goto st309
 		}
-		goto tr416
+		goto tr417
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 65:
-			goto st310
-		case 97:
-			goto st310
+		case 9:
+			goto tr470
+		case 32:
+			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr416
+		goto tr417
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st311
-		case 110:
+		case 97:
 			goto st311
 		}
-		goto tr416
+		goto tr417
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st312
-		case 103:
+		case 110:
 			goto st312
 		}
-		goto tr416
+		goto tr417
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st313
-		case 117:
+		case 103:
 			goto st313
 		}
-		goto tr416
+		goto tr417
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st314
-		case 97:
+		case 117:
 			goto st314
 		}
-		goto tr416
+		goto tr417
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st315
-		case 103:
+		case 97:
 			goto st315
 		}
-		goto tr416
+		goto tr417
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st316
-		case 101:
+		case 103:
 			goto st316
 		}
-		goto tr416
+		goto tr417
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 9:
-			goto tr478
-		case 32:
-			goto tr478
-		case 58:
-			goto tr479
+		case 69:
+			goto st317
+		case 101:
+			goto st317
 		}
-		goto tr416
+		goto tr417
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 69:
-			goto st318
-		case 76:
-			goto st326
-		case 101:
-			goto st318
-		case 108:
-			goto st326
+		case 9:
+			goto tr479
+		case 32:
+			goto tr479
+		case 58:
+			goto tr480
 		}
-		goto tr416
+		goto tr417
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st319
-		case 114:
+		case 76:
+			goto st327
+		case 101:
 			goto st319
+		case 108:
+			goto st327
 		}
-		goto tr416
+		goto tr417
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st320
-		case 116:
+		case 114:
 			goto st320
 		}
-		goto tr416
+		goto tr417
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st321
+		case 116:
 			goto st321
 		}
-		goto tr416
+		goto tr417
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
-		switch data[p] {
-		case 73:
-			goto st322
-		case 105:
+		if data[p] == 45 {
 			goto st322
 		}
-		goto tr416
+		goto tr417
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
 		}
 	st_case_322:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st323
-		case 110:
+		case 105:
 			goto st323
 		}
-		goto tr416
+		goto tr417
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st324
-		case 102:
+		case 110:
 			goto st324
 		}
-		goto tr416
+		goto tr417
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st325
-		case 111:
+		case 102:
 			goto st325
 		}
-		goto tr416
+		goto tr417
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
 		}
 	st_case_325:
 		switch data[p] {
-		case 9:
-			goto tr489
-		case 32:
-			goto tr489
-		case 58:
-			goto tr490
+		case 79:
+			goto st326
+		case 111:
+			goto st326
 		}
-		goto tr416
+		goto tr417
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 79:
-			goto st327
-		case 111:
-			goto st327
+		case 9:
+			goto tr490
+		case 32:
+			goto tr490
+		case 58:
+			goto tr491
 		}
-		goto tr416
+		goto tr417
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 87:
+		case 79:
 			goto st328
-		case 119:
+		case 111:
 			goto st328
 		}
-		goto tr416
+		goto tr417
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 9:
-			goto tr493
-		case 32:
-			goto tr493
-		case 45:
+		case 87:
+			goto st329
+		case 119:
 			goto st329
-		case 58:
-			goto tr495
 		}
-		goto tr416
+		goto tr417
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 69:
-			goto st330
-		case 101:
+		case 9:
+			goto tr494
+		case 32:
+			goto tr494
+		case 45:
 			goto st330
+		case 58:
+			goto tr496
 		}
-		goto tr416
+		goto tr417
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st331
-		case 118:
+		case 101:
 			goto st331
 		}
-		goto tr416
+		goto tr417
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st332
-		case 101:
+		case 118:
 			goto st332
 		}
-		goto tr416
+		goto tr417
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st333
-		case 110:
+		case 101:
 			goto st333
 		}
-		goto tr416
+		goto tr417
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st334
-		case 116:
+		case 110:
 			goto st334
 		}
-		goto tr416
+		goto tr417
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st335
-		case 115:
+		case 116:
 			goto st335
 		}
-		goto tr416
+		goto tr417
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 9:
-			goto tr502
-		case 32:
-			goto tr502
-		case 58:
-			goto tr503
+		case 83:
+			goto st336
+		case 115:
+			goto st336
 		}
-		goto tr416
+		goto tr417
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 84:
-			goto st337
-		case 116:
-			goto st337
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr416
+		goto tr417
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st338
-		case 104:
+		case 116:
 			goto st338
 		}
-		goto tr416
+		goto tr417
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st339
-		case 79:
-			goto st354
-		case 101:
+		case 104:
 			goto st339
-		case 111:
-			goto st354
 		}
-		goto tr416
+		goto tr417
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st340
-		case 110:
+		case 79:
+			goto st355
+		case 101:
 			goto st340
+		case 111:
+			goto st355
 		}
-		goto tr416
+		goto tr417
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st341
-		case 116:
+		case 110:
 			goto st341
 		}
-		goto tr416
+		goto tr417
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st342
-		case 105:
+		case 116:
 			goto st342
 		}
-		goto tr416
+		goto tr417
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st343
-		case 99:
+		case 105:
 			goto st343
 		}
-		goto tr416
+		goto tr417
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st344
-		case 97:
+		case 99:
 			goto st344
 		}
-		goto tr416
+		goto tr417
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st345
-		case 116:
+		case 97:
 			goto st345
 		}
-		goto tr416
+		goto tr417
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
 		}
 	st_case_345:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st346
-		case 105:
+		case 116:
 			goto st346
 		}
-		goto tr416
+		goto tr417
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st347
-		case 111:
+		case 105:
 			goto st347
 		}
-		goto tr416
+		goto tr417
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st348
-		case 110:
+		case 111:
 			goto st348
 		}
-		goto tr416
+		goto tr417
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
-		if data[p] == 45 {
+		switch data[p] {
+		case 78:
+			goto st349
+		case 110:
 			goto st349
 		}
-		goto tr416
+		goto tr417
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
 		}
 	st_case_349:
-		switch data[p] {
-		case 73:
-			goto st350
-		case 105:
+		if data[p] == 45 {
 			goto st350
 		}
-		goto tr416
+		goto tr417
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st351
-		case 110:
+		case 105:
 			goto st351
 		}
-		goto tr416
+		goto tr417
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st352
-		case 102:
+		case 110:
 			goto st352
 		}
-		goto tr416
+		goto tr417
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st353
-		case 111:
+		case 102:
 			goto st353
 		}
-		goto tr416
+		goto tr417
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
 		}
 	st_case_353:
 		switch data[p] {
-		case 9:
-			goto tr522
-		case 32:
-			goto tr522
-		case 58:
-			goto tr523
+		case 79:
+			goto st354
+		case 111:
+			goto st354
 		}
-		goto tr416
+		goto tr417
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
 		}
 	st_case_354:
 		switch data[p] {
-		case 82:
-			goto st355
-		case 114:
-			goto st355
+		case 9:
+			goto tr523
+		case 32:
+			goto tr523
+		case 58:
+			goto tr524
 		}
-		goto tr416
+		goto tr417
 	st355:
 		if p++; p == pe {
 			goto _test_eof355
 		}
 	st_case_355:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st356
-		case 105:
+		case 114:
 			goto st356
 		}
-		goto tr416
+		goto tr417
 	st356:
 		if p++; p == pe {
 			goto _test_eof356
 		}
 	st_case_356:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st357
-		case 122:
+		case 105:
 			goto st357
 		}
-		goto tr416
+		goto tr417
 	st357:
 		if p++; p == pe {
 			goto _test_eof357
 		}
 	st_case_357:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st358
-		case 97:
+		case 122:
 			goto st358
 		}
-		goto tr416
+		goto tr417
 	st358:
 		if p++; p == pe {
 			goto _test_eof358
 		}
 	st_case_358:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st359
-		case 116:
+		case 97:
 			goto st359
 		}
-		goto tr416
+		goto tr417
 	st359:
 		if p++; p == pe {
 			goto _test_eof359
 		}
 	st_case_359:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st360
-		case 105:
+		case 116:
 			goto st360
 		}
-		goto tr416
+		goto tr417
 	st360:
 		if p++; p == pe {
 			goto _test_eof360
 		}
 	st_case_360:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st361
-		case 111:
+		case 105:
 			goto st361
 		}
-		goto tr416
+		goto tr417
 	st361:
 		if p++; p == pe {
 			goto _test_eof361
 		}
 	st_case_361:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st362
-		case 110:
+		case 111:
 			goto st362
 		}
-		goto tr416
+		goto tr417
 	st362:
 		if p++; p == pe {
 			goto _test_eof362
 		}
 	st_case_362:
 		switch data[p] {
-		case 9:
-			goto tr532
-		case 32:
-			goto tr532
-		case 58:
-			goto tr533
+		case 78:
+			goto st363
+		case 110:
+			goto st363
 		}
-		goto tr416
+		goto tr417
 	st363:
 		if p++; p == pe {
 			goto _test_eof363
@@ -11350,13 +11338,13 @@ tr992:
 	st_case_363:
 		switch data[p] {
 		case 9:
-			goto tr534
+			goto tr533
 		case 32:
-			goto tr534
+			goto tr533
 		case 58:
-			goto tr535
+			goto tr534
 		}
-		goto tr416
+		goto tr417
 	st364:
 		if p++; p == pe {
 			goto _test_eof364
@@ -11364,44 +11352,58 @@ tr992:
 	st_case_364:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto tr535
 		case 32:
-			goto st365
+			goto tr535
 		case 58:
+			goto tr536
+		}
+		goto tr417
+	st365:
+		if p++; p == pe {
+			goto _test_eof365
+		}
+	st_case_365:
+		switch data[p] {
+		case 9:
+			goto st366
+		case 32:
 			goto st366
+		case 58:
+			goto st367
 		case 65:
-			goto st370
+			goto st371
 		case 79:
-			goto st388
+			goto st389
 		case 83:
-			goto st445
+			goto st446
 		case 97:
-			goto st370
+			goto st371
 		case 111:
-			goto st388
+			goto st389
 		case 115:
-			goto st445
+			goto st446
 		}
-		goto tr416
-	st365:
+		goto tr417
+	st366:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof366
 		}
-	st_case_365:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st366
 		case 32:
-			goto st365
-		case 58:
 			goto st366
+		case 58:
+			goto st367
 		}
 		goto st0
-	st366:
+	st367:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof367
 		}
-	st_case_366:
+	st_case_367:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11411,30 +11413,21 @@ tr992:
 		}
 		switch _widec {
 		case 9:
-			goto st366
+			goto st367
 		case 32:
-			goto st366
+			goto st367
 		case 269:
-			goto tr541
+			goto tr542
 		case 525:
-			goto st367
+			goto st368
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr541
+				goto tr542
 			}
 		default:
-			goto tr541
-		}
-		goto st0
-	st367:
-		if p++; p == pe {
-			goto _test_eof367
-		}
-	st_case_367:
-		if data[p] == 10 {
-			goto st368
+			goto tr542
 		}
 		goto st0
 	st368:
@@ -11442,10 +11435,7 @@ tr992:
 			goto _test_eof368
 		}
 	st_case_368:
-		switch data[p] {
-		case 9:
-			goto st369
-		case 32:
+		if data[p] == 10 {
 			goto st369
 		}
 		goto st0
@@ -11456,23 +11446,23 @@ tr992:
 	st_case_369:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st370
 		case 32:
-			goto st369
+			goto st370
 		}
-		goto tr541
+		goto st0
 	st370:
 		if p++; p == pe {
 			goto _test_eof370
 		}
 	st_case_370:
 		switch data[p] {
-		case 76:
-			goto st371
-		case 108:
-			goto st371
+		case 9:
+			goto st370
+		case 32:
+			goto st370
 		}
-		goto tr416
+		goto tr542
 	st371:
 		if p++; p == pe {
 			goto _test_eof371
@@ -11484,58 +11474,56 @@ tr992:
 		case 108:
 			goto st372
 		}
-		goto tr416
+		goto tr417
 	st372:
 		if p++; p == pe {
 			goto _test_eof372
 		}
 	st_case_372:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st373
+		case 108:
 			goto st373
 		}
-		goto tr416
+		goto tr417
 	st373:
 		if p++; p == pe {
 			goto _test_eof373
 		}
 	st_case_373:
-		switch data[p] {
-		case 73:
-			goto st374
-		case 105:
+		if data[p] == 45 {
 			goto st374
 		}
-		goto tr416
+		goto tr417
 	st374:
 		if p++; p == pe {
 			goto _test_eof374
 		}
 	st_case_374:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st375
-		case 78:
-			goto st385
-		case 100:
+		case 105:
 			goto st375
-		case 110:
-			goto st385
 		}
-		goto tr416
+		goto tr417
 	st375:
 		if p++; p == pe {
 			goto _test_eof375
 		}
 	st_case_375:
 		switch data[p] {
-		case 9:
+		case 68:
 			goto st376
-		case 32:
+		case 78:
+			goto st386
+		case 100:
 			goto st376
-		case 58:
-			goto st377
+		case 110:
+			goto st386
 		}
-		goto tr416
+		goto tr417
 	st376:
 		if p++; p == pe {
 			goto _test_eof376
@@ -11543,18 +11531,32 @@ tr992:
 	st_case_376:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st377
 		case 32:
-			goto st376
-		case 58:
 			goto st377
+		case 58:
+			goto st378
 		}
-		goto st0
+		goto tr417
 	st377:
 		if p++; p == pe {
 			goto _test_eof377
 		}
 	st_case_377:
+		switch data[p] {
+		case 9:
+			goto st377
+		case 32:
+			goto st377
+		case 58:
+			goto st378
+		}
+		goto st0
+	st378:
+		if p++; p == pe {
+			goto _test_eof378
+		}
+	st_case_378:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11564,59 +11566,59 @@ tr992:
 		}
 		switch _widec {
 		case 9:
-			goto st377
+			goto st378
 		case 32:
-			goto st377
+			goto st378
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		case 525:
-			goto st382
+			goto st383
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
-tr553:
+tr554:
 //line sip.rl:80
 
 	mark = p
 
-	goto st378
-	st378:
+	goto st379
+	st379:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof379
 		}
-	st_case_378:
-//line msg_parse.go:11611
+	st_case_379:
+//line msg_parse.go:11613
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11626,88 +11628,88 @@ tr553:
 		}
 		switch _widec {
 		case 37:
-			goto st378
+			goto st379
 		case 60:
-			goto st378
-		case 64:
 			goto st379
+		case 64:
+			goto st380
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st378
+					goto st379
 				}
 			case _widec >= 33:
-				goto st378
+				goto st379
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st378
+					goto st379
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st378
+					goto st379
 				}
 			default:
-				goto st378
+				goto st379
 			}
 		default:
-			goto st378
+			goto st379
 		}
 		goto st0
-	st379:
+	st380:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof380
 		}
-	st_case_379:
+	st_case_380:
 		switch data[p] {
 		case 37:
-			goto st380
+			goto st381
 		case 60:
-			goto st380
+			goto st381
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st380
+					goto st381
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st380
+					goto st381
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		default:
-			goto st380
+			goto st381
 		}
 		goto st0
-	st380:
+	st381:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof381
 		}
-	st_case_380:
+	st_case_381:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11717,72 +11719,63 @@ tr553:
 		}
 		switch _widec {
 		case 37:
-			goto st380
+			goto st381
 		case 60:
-			goto st380
+			goto st381
 		case 269:
-			goto tr557
+			goto tr558
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st380
+					goto st381
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st380
+					goto st381
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st380
+					goto st381
 				}
 			default:
-				goto st380
+				goto st381
 			}
 		default:
-			goto st380
+			goto st381
 		}
 		goto st0
-tr557:
+tr558:
 //line sip.rl:223
 
 	msg.CallID = string(data[mark:p])
 
-	goto st381
-tr643:
+	goto st382
+tr644:
 //line sip.rl:241
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st381
-	st381:
-		if p++; p == pe {
-			goto _test_eof381
-		}
-	st_case_381:
-//line msg_parse.go:11766
-		if data[p] == 10 {
-			goto tr559
-		}
-		goto st0
+	goto st382
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
+//line msg_parse.go:11768
 		if data[p] == 10 {
-			goto st383
+			goto tr560
 		}
 		goto st0
 	st383:
@@ -11790,10 +11783,7 @@ tr643:
 			goto _test_eof383
 		}
 	st_case_383:
-		switch data[p] {
-		case 9:
-			goto st384
-		case 32:
+		if data[p] == 10 {
 			goto st384
 		}
 		goto st0
@@ -11804,238 +11794,250 @@ tr643:
 	st_case_384:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st385
 		case 32:
-			goto st384
+			goto st385
+		}
+		goto st0
+	st385:
+		if p++; p == pe {
+			goto _test_eof385
+		}
+	st_case_385:
+		switch data[p] {
+		case 9:
+			goto st385
+		case 32:
+			goto st385
 		case 37:
-			goto tr553
+			goto tr554
 		case 60:
-			goto tr553
+			goto tr554
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr553
+					goto tr554
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr553
+					goto tr554
 				}
 			default:
-				goto tr553
+				goto tr554
 			}
 		default:
-			goto tr553
+			goto tr554
 		}
 		goto st0
-	st385:
-		if p++; p == pe {
-			goto _test_eof385
-		}
-	st_case_385:
-		switch data[p] {
-		case 70:
-			goto st386
-		case 102:
-			goto st386
-		}
-		goto tr416
 	st386:
 		if p++; p == pe {
 			goto _test_eof386
 		}
 	st_case_386:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st387
-		case 111:
+		case 102:
 			goto st387
 		}
-		goto tr416
+		goto tr417
 	st387:
 		if p++; p == pe {
 			goto _test_eof387
 		}
 	st_case_387:
 		switch data[p] {
-		case 9:
-			goto tr564
-		case 32:
-			goto tr564
-		case 58:
-			goto tr565
+		case 79:
+			goto st388
+		case 111:
+			goto st388
 		}
-		goto tr416
+		goto tr417
 	st388:
 		if p++; p == pe {
 			goto _test_eof388
 		}
 	st_case_388:
 		switch data[p] {
-		case 78:
-			goto st389
-		case 110:
-			goto st389
+		case 9:
+			goto tr565
+		case 32:
+			goto tr565
+		case 58:
+			goto tr566
 		}
-		goto tr416
+		goto tr417
 	st389:
 		if p++; p == pe {
 			goto _test_eof389
 		}
 	st_case_389:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st390
-		case 116:
+		case 110:
 			goto st390
 		}
-		goto tr416
+		goto tr417
 	st390:
 		if p++; p == pe {
 			goto _test_eof390
 		}
 	st_case_390:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st391
-		case 69:
-			goto st399
-		case 97:
+		case 116:
 			goto st391
-		case 101:
-			goto st399
 		}
-		goto tr416
+		goto tr417
 	st391:
 		if p++; p == pe {
 			goto _test_eof391
 		}
 	st_case_391:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st392
-		case 99:
+		case 69:
+			goto st400
+		case 97:
 			goto st392
+		case 101:
+			goto st400
 		}
-		goto tr416
+		goto tr417
 	st392:
 		if p++; p == pe {
 			goto _test_eof392
 		}
 	st_case_392:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st393
-		case 116:
+		case 99:
 			goto st393
 		}
-		goto tr416
+		goto tr417
 	st393:
 		if p++; p == pe {
 			goto _test_eof393
 		}
 	st_case_393:
+		switch data[p] {
+		case 84:
+			goto st394
+		case 116:
+			goto st394
+		}
+		goto tr417
+	st394:
+		if p++; p == pe {
+			goto _test_eof394
+		}
+	st_case_394:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr573
 		case 32:
-			goto tr572
-		case 58:
 			goto tr573
+		case 58:
+			goto tr574
 		}
-		goto tr416
-tr572:
+		goto tr417
+tr573:
 //line sip.rl:445
 addrp=lastAddr(&msg.Contact)
-	goto st394
-tr683:
+	goto st395
+tr684:
 //line sip.rl:446
 addrp=lastAddr(&msg.From)
-	goto st394
-tr781:
+	goto st395
+tr782:
 //line sip.rl:447
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st394
-tr848:
+	goto st395
+tr849:
 //line sip.rl:448
 addrp=lastAddr(&msg.RecordRoute)
-	goto st394
-tr872:
+	goto st395
+tr873:
 //line sip.rl:449
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st394
-tr900:
+	goto st395
+tr901:
 //line sip.rl:450
 addrp=lastAddr(&msg.Route)
-	goto st394
-tr923:
+	goto st395
+tr924:
 //line sip.rl:451
 addrp=lastAddr(&msg.To)
-	goto st394
-	st394:
+	goto st395
+	st395:
 		if p++; p == pe {
-			goto _test_eof394
+			goto _test_eof395
 		}
-	st_case_394:
-//line msg_parse.go:11987
+	st_case_395:
+//line msg_parse.go:11989
 		switch data[p] {
 		case 9:
-			goto st394
-		case 32:
-			goto st394
-		case 58:
 			goto st395
+		case 32:
+			goto st395
+		case 58:
+			goto st396
 		}
 		goto st0
-tr573:
+tr574:
 //line sip.rl:445
 addrp=lastAddr(&msg.Contact)
-	goto st395
-tr684:
+	goto st396
+tr685:
 //line sip.rl:446
 addrp=lastAddr(&msg.From)
-	goto st395
-tr782:
+	goto st396
+tr783:
 //line sip.rl:447
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
-tr849:
+	goto st396
+tr850:
 //line sip.rl:448
 addrp=lastAddr(&msg.RecordRoute)
-	goto st395
-tr873:
+	goto st396
+tr874:
 //line sip.rl:449
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
-tr901:
+	goto st396
+tr902:
 //line sip.rl:450
 addrp=lastAddr(&msg.Route)
-	goto st395
-tr924:
+	goto st396
+tr925:
 //line sip.rl:451
 addrp=lastAddr(&msg.To)
-	goto st395
-	st395:
+	goto st396
+	st396:
 		if p++; p == pe {
-			goto _test_eof395
+			goto _test_eof396
 		}
-	st_case_395:
-//line msg_parse.go:12030
+	st_case_396:
+//line msg_parse.go:12032
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12045,30 +12047,21 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st395
+			goto st396
 		case 32:
-			goto st395
+			goto st396
 		case 269:
-			goto tr576
+			goto tr577
 		case 525:
-			goto st396
+			goto st397
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr576
+				goto tr577
 			}
 		default:
-			goto tr576
-		}
-		goto st0
-	st396:
-		if p++; p == pe {
-			goto _test_eof396
-		}
-	st_case_396:
-		if data[p] == 10 {
-			goto st397
+			goto tr577
 		}
 		goto st0
 	st397:
@@ -12076,10 +12069,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof397
 		}
 	st_case_397:
-		switch data[p] {
-		case 9:
-			goto st398
-		case 32:
+		if data[p] == 10 {
 			goto st398
 		}
 		goto st0
@@ -12090,464 +12080,462 @@ addrp=lastAddr(&msg.To)
 	st_case_398:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st399
 		case 32:
-			goto st398
+			goto st399
 		}
-		goto tr576
+		goto st0
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
 		}
 	st_case_399:
 		switch data[p] {
-		case 78:
-			goto st400
-		case 110:
-			goto st400
+		case 9:
+			goto st399
+		case 32:
+			goto st399
 		}
-		goto tr416
+		goto tr577
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st401
-		case 116:
+		case 110:
 			goto st401
 		}
-		goto tr416
+		goto tr417
 	st401:
 		if p++; p == pe {
 			goto _test_eof401
 		}
 	st_case_401:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st402
+		case 116:
 			goto st402
 		}
-		goto tr416
+		goto tr417
 	st402:
 		if p++; p == pe {
 			goto _test_eof402
 		}
 	st_case_402:
-		switch data[p] {
-		case 68:
-			goto st403
-		case 69:
-			goto st414
-		case 76:
-			goto st422
-		case 84:
-			goto st441
-		case 100:
+		if data[p] == 45 {
 			goto st403
-		case 101:
-			goto st414
-		case 108:
-			goto st422
-		case 116:
-			goto st441
 		}
-		goto tr416
+		goto tr417
 	st403:
 		if p++; p == pe {
 			goto _test_eof403
 		}
 	st_case_403:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st404
-		case 105:
+		case 69:
+			goto st415
+		case 76:
+			goto st423
+		case 84:
+			goto st442
+		case 100:
 			goto st404
+		case 101:
+			goto st415
+		case 108:
+			goto st423
+		case 116:
+			goto st442
 		}
-		goto tr416
+		goto tr417
 	st404:
 		if p++; p == pe {
 			goto _test_eof404
 		}
 	st_case_404:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st405
-		case 115:
+		case 105:
 			goto st405
 		}
-		goto tr416
+		goto tr417
 	st405:
 		if p++; p == pe {
 			goto _test_eof405
 		}
 	st_case_405:
 		switch data[p] {
-		case 80:
+		case 83:
 			goto st406
-		case 112:
+		case 115:
 			goto st406
 		}
-		goto tr416
+		goto tr417
 	st406:
 		if p++; p == pe {
 			goto _test_eof406
 		}
 	st_case_406:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st407
-		case 111:
+		case 112:
 			goto st407
 		}
-		goto tr416
+		goto tr417
 	st407:
 		if p++; p == pe {
 			goto _test_eof407
 		}
 	st_case_407:
 		switch data[p] {
-		case 83:
+		case 79:
 			goto st408
-		case 115:
+		case 111:
 			goto st408
 		}
-		goto tr416
+		goto tr417
 	st408:
 		if p++; p == pe {
 			goto _test_eof408
 		}
 	st_case_408:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st409
-		case 105:
+		case 115:
 			goto st409
 		}
-		goto tr416
+		goto tr417
 	st409:
 		if p++; p == pe {
 			goto _test_eof409
 		}
 	st_case_409:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st410
-		case 116:
+		case 105:
 			goto st410
 		}
-		goto tr416
+		goto tr417
 	st410:
 		if p++; p == pe {
 			goto _test_eof410
 		}
 	st_case_410:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st411
-		case 105:
+		case 116:
 			goto st411
 		}
-		goto tr416
+		goto tr417
 	st411:
 		if p++; p == pe {
 			goto _test_eof411
 		}
 	st_case_411:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st412
-		case 111:
+		case 105:
 			goto st412
 		}
-		goto tr416
+		goto tr417
 	st412:
 		if p++; p == pe {
 			goto _test_eof412
 		}
 	st_case_412:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st413
-		case 110:
+		case 111:
 			goto st413
 		}
-		goto tr416
+		goto tr417
 	st413:
 		if p++; p == pe {
 			goto _test_eof413
 		}
 	st_case_413:
 		switch data[p] {
-		case 9:
-			goto tr597
-		case 32:
-			goto tr597
-		case 58:
-			goto tr598
+		case 78:
+			goto st414
+		case 110:
+			goto st414
 		}
-		goto tr416
+		goto tr417
 	st414:
 		if p++; p == pe {
 			goto _test_eof414
 		}
 	st_case_414:
 		switch data[p] {
-		case 78:
-			goto st415
-		case 110:
-			goto st415
+		case 9:
+			goto tr598
+		case 32:
+			goto tr598
+		case 58:
+			goto tr599
 		}
-		goto tr416
+		goto tr417
 	st415:
 		if p++; p == pe {
 			goto _test_eof415
 		}
 	st_case_415:
 		switch data[p] {
-		case 67:
+		case 78:
 			goto st416
-		case 99:
+		case 110:
 			goto st416
 		}
-		goto tr416
+		goto tr417
 	st416:
 		if p++; p == pe {
 			goto _test_eof416
 		}
 	st_case_416:
 		switch data[p] {
-		case 79:
+		case 67:
 			goto st417
-		case 111:
+		case 99:
 			goto st417
 		}
-		goto tr416
+		goto tr417
 	st417:
 		if p++; p == pe {
 			goto _test_eof417
 		}
 	st_case_417:
 		switch data[p] {
-		case 68:
+		case 79:
 			goto st418
-		case 100:
+		case 111:
 			goto st418
 		}
-		goto tr416
+		goto tr417
 	st418:
 		if p++; p == pe {
 			goto _test_eof418
 		}
 	st_case_418:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st419
-		case 105:
+		case 100:
 			goto st419
 		}
-		goto tr416
+		goto tr417
 	st419:
 		if p++; p == pe {
 			goto _test_eof419
 		}
 	st_case_419:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st420
-		case 110:
+		case 105:
 			goto st420
 		}
-		goto tr416
+		goto tr417
 	st420:
 		if p++; p == pe {
 			goto _test_eof420
 		}
 	st_case_420:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st421
-		case 103:
+		case 110:
 			goto st421
 		}
-		goto tr416
+		goto tr417
 	st421:
 		if p++; p == pe {
 			goto _test_eof421
 		}
 	st_case_421:
 		switch data[p] {
-		case 9:
-			goto tr606
-		case 32:
-			goto tr606
-		case 58:
-			goto tr607
+		case 71:
+			goto st422
+		case 103:
+			goto st422
 		}
-		goto tr416
+		goto tr417
 	st422:
 		if p++; p == pe {
 			goto _test_eof422
 		}
 	st_case_422:
 		switch data[p] {
-		case 65:
-			goto st423
-		case 69:
-			goto st430
-		case 97:
-			goto st423
-		case 101:
-			goto st430
+		case 9:
+			goto tr607
+		case 32:
+			goto tr607
+		case 58:
+			goto tr608
 		}
-		goto tr416
+		goto tr417
 	st423:
 		if p++; p == pe {
 			goto _test_eof423
 		}
 	st_case_423:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st424
-		case 110:
+		case 69:
+			goto st431
+		case 97:
 			goto st424
+		case 101:
+			goto st431
 		}
-		goto tr416
+		goto tr417
 	st424:
 		if p++; p == pe {
 			goto _test_eof424
 		}
 	st_case_424:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st425
-		case 103:
+		case 110:
 			goto st425
 		}
-		goto tr416
+		goto tr417
 	st425:
 		if p++; p == pe {
 			goto _test_eof425
 		}
 	st_case_425:
 		switch data[p] {
-		case 85:
+		case 71:
 			goto st426
-		case 117:
+		case 103:
 			goto st426
 		}
-		goto tr416
+		goto tr417
 	st426:
 		if p++; p == pe {
 			goto _test_eof426
 		}
 	st_case_426:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st427
-		case 97:
+		case 117:
 			goto st427
 		}
-		goto tr416
+		goto tr417
 	st427:
 		if p++; p == pe {
 			goto _test_eof427
 		}
 	st_case_427:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st428
-		case 103:
+		case 97:
 			goto st428
 		}
-		goto tr416
+		goto tr417
 	st428:
 		if p++; p == pe {
 			goto _test_eof428
 		}
 	st_case_428:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st429
-		case 101:
+		case 103:
 			goto st429
 		}
-		goto tr416
+		goto tr417
 	st429:
 		if p++; p == pe {
 			goto _test_eof429
 		}
 	st_case_429:
 		switch data[p] {
-		case 9:
-			goto tr616
-		case 32:
-			goto tr616
-		case 58:
-			goto tr617
+		case 69:
+			goto st430
+		case 101:
+			goto st430
 		}
-		goto tr416
+		goto tr417
 	st430:
 		if p++; p == pe {
 			goto _test_eof430
 		}
 	st_case_430:
 		switch data[p] {
-		case 78:
-			goto st431
-		case 110:
-			goto st431
+		case 9:
+			goto tr617
+		case 32:
+			goto tr617
+		case 58:
+			goto tr618
 		}
-		goto tr416
+		goto tr417
 	st431:
 		if p++; p == pe {
 			goto _test_eof431
 		}
 	st_case_431:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st432
-		case 103:
+		case 110:
 			goto st432
 		}
-		goto tr416
+		goto tr417
 	st432:
 		if p++; p == pe {
 			goto _test_eof432
 		}
 	st_case_432:
 		switch data[p] {
-		case 84:
+		case 71:
 			goto st433
-		case 116:
+		case 103:
 			goto st433
 		}
-		goto tr416
+		goto tr417
 	st433:
 		if p++; p == pe {
 			goto _test_eof433
 		}
 	st_case_433:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st434
-		case 104:
+		case 116:
 			goto st434
 		}
-		goto tr416
+		goto tr417
 	st434:
 		if p++; p == pe {
 			goto _test_eof434
 		}
 	st_case_434:
 		switch data[p] {
-		case 9:
+		case 72:
 			goto st435
-		case 32:
+		case 104:
 			goto st435
-		case 58:
-			goto st436
 		}
-		goto tr416
+		goto tr417
 	st435:
 		if p++; p == pe {
 			goto _test_eof435
@@ -12555,18 +12543,32 @@ addrp=lastAddr(&msg.To)
 	st_case_435:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st436
 		case 32:
-			goto st435
-		case 58:
 			goto st436
+		case 58:
+			goto st437
 		}
-		goto st0
+		goto tr417
 	st436:
 		if p++; p == pe {
 			goto _test_eof436
 		}
 	st_case_436:
+		switch data[p] {
+		case 9:
+			goto st436
+		case 32:
+			goto st436
+		case 58:
+			goto st437
+		}
+		goto st0
+	st437:
+		if p++; p == pe {
+			goto _test_eof437
+		}
+	st_case_437:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12576,17 +12578,17 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st436
+			goto st437
 		case 32:
-			goto st436
+			goto st437
 		case 525:
-			goto st438
+			goto st439
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr623
+			goto tr624
 		}
 		goto st0
-tr623:
+tr624:
 //line sip.rl:501
 clen=0
 //line sip.rl:227
@@ -12594,20 +12596,20 @@ clen=0
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st437
-tr625:
+	goto st438
+tr626:
 //line sip.rl:227
 
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st437
-	st437:
+	goto st438
+	st438:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof438
 		}
-	st_case_437:
-//line msg_parse.go:12602
+	st_case_438:
+//line msg_parse.go:12604
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12616,19 +12618,10 @@ tr625:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr625
-		}
-		goto st0
-	st438:
-		if p++; p == pe {
-			goto _test_eof438
-		}
-	st_case_438:
-		if data[p] == 10 {
-			goto st439
+			goto tr626
 		}
 		goto st0
 	st439:
@@ -12636,10 +12629,7 @@ tr625:
 			goto _test_eof439
 		}
 	st_case_439:
-		switch data[p] {
-		case 9:
-			goto st440
-		case 32:
+		if data[p] == 10 {
 			goto st440
 		}
 		goto st0
@@ -12650,12 +12640,9 @@ tr625:
 	st_case_440:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st441
 		case 32:
-			goto st440
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr623
+			goto st441
 		}
 		goto st0
 	st441:
@@ -12664,88 +12651,89 @@ tr625:
 		}
 	st_case_441:
 		switch data[p] {
-		case 89:
-			goto st442
-		case 121:
-			goto st442
+		case 9:
+			goto st441
+		case 32:
+			goto st441
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr624
 		}
-		goto tr416
+		goto st0
 	st442:
 		if p++; p == pe {
 			goto _test_eof442
 		}
 	st_case_442:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st443
-		case 112:
+		case 121:
 			goto st443
 		}
-		goto tr416
+		goto tr417
 	st443:
 		if p++; p == pe {
 			goto _test_eof443
 		}
 	st_case_443:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st444
-		case 101:
+		case 112:
 			goto st444
 		}
-		goto tr416
+		goto tr417
 	st444:
 		if p++; p == pe {
 			goto _test_eof444
 		}
 	st_case_444:
 		switch data[p] {
-		case 9:
-			goto st365
-		case 32:
-			goto st365
-		case 58:
-			goto st366
+		case 69:
+			goto st445
+		case 101:
+			goto st445
 		}
-		goto tr416
+		goto tr417
 	st445:
 		if p++; p == pe {
 			goto _test_eof445
 		}
 	st_case_445:
 		switch data[p] {
-		case 69:
-			goto st446
-		case 101:
-			goto st446
+		case 9:
+			goto st366
+		case 32:
+			goto st366
+		case 58:
+			goto st367
 		}
-		goto tr416
+		goto tr417
 	st446:
 		if p++; p == pe {
 			goto _test_eof446
 		}
 	st_case_446:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st447
-		case 113:
+		case 101:
 			goto st447
 		}
-		goto tr416
+		goto tr417
 	st447:
 		if p++; p == pe {
 			goto _test_eof447
 		}
 	st_case_447:
 		switch data[p] {
-		case 9:
+		case 81:
 			goto st448
-		case 32:
+		case 113:
 			goto st448
-		case 58:
-			goto st449
 		}
-		goto tr416
+		goto tr417
 	st448:
 		if p++; p == pe {
 			goto _test_eof448
@@ -12753,18 +12741,32 @@ tr625:
 	st_case_448:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st449
 		case 32:
-			goto st448
-		case 58:
 			goto st449
+		case 58:
+			goto st450
 		}
-		goto st0
+		goto tr417
 	st449:
 		if p++; p == pe {
 			goto _test_eof449
 		}
 	st_case_449:
+		switch data[p] {
+		case 9:
+			goto st449
+		case 32:
+			goto st449
+		case 58:
+			goto st450
+		}
+		goto st0
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12774,17 +12776,17 @@ tr625:
 		}
 		switch _widec {
 		case 9:
-			goto st449
+			goto st450
 		case 32:
-			goto st449
+			goto st450
 		case 525:
-			goto st456
+			goto st457
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr636
+			goto tr637
 		}
 		goto st0
-tr636:
+tr637:
 //line sip.rl:502
 msg.CSeq=0
 //line sip.rl:236
@@ -12792,20 +12794,20 @@ msg.CSeq=0
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st450
-tr639:
+	goto st451
+tr640:
 //line sip.rl:236
 
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st450
-	st450:
+	goto st451
+	st451:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof451
 		}
-	st_case_450:
-//line msg_parse.go:12800
+	st_case_451:
+//line msg_parse.go:12802
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12815,21 +12817,21 @@ tr639:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st452
 		case 32:
-			goto st451
+			goto st452
 		case 525:
-			goto st453
+			goto st454
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr639
+			goto tr640
 		}
 		goto st0
-	st451:
+	st452:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof452
 		}
-	st_case_451:
+	st_case_452:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12839,55 +12841,55 @@ tr639:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st452
 		case 32:
-			goto st451
+			goto st452
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		case 525:
-			goto st453
+			goto st454
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 42:
-				goto tr641
+				goto tr642
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case _widec >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
+			goto tr642
 		}
 		goto st0
-tr641:
+tr642:
 //line sip.rl:80
 
 	mark = p
 
-	goto st452
-	st452:
+	goto st453
+	st453:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof453
 		}
-	st_case_452:
-//line msg_parse.go:12882
+	st_case_453:
+//line msg_parse.go:12884
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12897,109 +12899,100 @@ tr641:
 		}
 		switch _widec {
 		case 33:
-			goto st452
+			goto st453
 		case 37:
-			goto st452
+			goto st453
 		case 39:
-			goto st452
+			goto st453
 		case 126:
-			goto st452
+			goto st453
 		case 269:
-			goto tr643
+			goto tr644
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st452
+					goto st453
 				}
 			case _widec >= 42:
-				goto st452
+				goto st453
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st452
+					goto st453
 				}
 			case _widec >= 65:
-				goto st452
+				goto st453
 			}
 		default:
-			goto st452
+			goto st453
 		}
 		goto st0
-	st453:
+	st454:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof454
 		}
-	st_case_453:
+	st_case_454:
 		if data[p] == 10 {
-			goto st454
+			goto st455
 		}
 		goto st0
-	st454:
+	st455:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof455
 		}
-	st_case_454:
+	st_case_455:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st456
 		case 32:
-			goto st455
+			goto st456
 		}
 		goto st0
-	st455:
+	st456:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof456
 		}
-	st_case_455:
+	st_case_456:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st456
 		case 32:
-			goto st455
+			goto st456
 		case 33:
-			goto tr641
+			goto tr642
 		case 37:
-			goto tr641
+			goto tr642
 		case 39:
-			goto tr641
+			goto tr642
 		case 126:
-			goto tr641
+			goto tr642
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 42:
-				goto tr641
+				goto tr642
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr641
+					goto tr642
 				}
 			case data[p] >= 65:
-				goto tr641
+				goto tr642
 			}
 		default:
-			goto tr641
-		}
-		goto st0
-	st456:
-		if p++; p == pe {
-			goto _test_eof456
-		}
-	st_case_456:
-		if data[p] == 10 {
-			goto st457
+			goto tr642
 		}
 		goto st0
 	st457:
@@ -13007,10 +13000,7 @@ tr641:
 			goto _test_eof457
 		}
 	st_case_457:
-		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
+		if data[p] == 10 {
 			goto st458
 		}
 		goto st0
@@ -13021,12 +13011,9 @@ tr641:
 	st_case_458:
 		switch data[p] {
 		case 9:
-			goto st458
+			goto st459
 		case 32:
-			goto st458
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr636
+			goto st459
 		}
 		goto st0
 	st459:
@@ -13035,307 +13022,308 @@ tr641:
 		}
 	st_case_459:
 		switch data[p] {
-		case 65:
-			goto st460
-		case 97:
-			goto st460
+		case 9:
+			goto st459
+		case 32:
+			goto st459
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr637
 		}
-		goto tr416
+		goto st0
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st461
-		case 116:
+		case 97:
 			goto st461
 		}
-		goto tr416
+		goto tr417
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st462
-		case 101:
+		case 116:
 			goto st462
 		}
-		goto tr416
+		goto tr417
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
 		}
 	st_case_462:
 		switch data[p] {
-		case 9:
-			goto tr651
-		case 32:
-			goto tr651
-		case 58:
-			goto tr652
+		case 69:
+			goto st463
+		case 101:
+			goto st463
 		}
-		goto tr416
+		goto tr417
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
 		}
-	st_case_463:
-		switch data[p] {
-		case 9:
-			goto tr606
-		case 32:
-			goto tr606
-		case 58:
-			goto tr607
-		case 82:
-			goto st464
-		case 86:
-			goto st473
-		case 88:
-			goto st477
-		case 114:
-			goto st464
-		case 118:
-			goto st473
-		case 120:
-			goto st477
-		}
-		goto tr416
+	st_case_463:
+		switch data[p] {
+		case 9:
+			goto tr652
+		case 32:
+			goto tr652
+		case 58:
+			goto tr653
+		}
+		goto tr417
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
+		case 9:
+			goto tr607
+		case 32:
+			goto tr607
+		case 58:
+			goto tr608
 		case 82:
 			goto st465
+		case 86:
+			goto st474
+		case 88:
+			goto st478
 		case 114:
 			goto st465
+		case 118:
+			goto st474
+		case 120:
+			goto st478
 		}
-		goto tr416
+		goto tr417
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st466
-		case 111:
+		case 114:
 			goto st466
 		}
-		goto tr416
+		goto tr417
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st467
-		case 114:
+		case 111:
 			goto st467
 		}
-		goto tr416
+		goto tr417
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st468
+		case 114:
 			goto st468
 		}
-		goto tr416
+		goto tr417
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
 		}
 	st_case_468:
-		switch data[p] {
-		case 73:
-			goto st469
-		case 105:
+		if data[p] == 45 {
 			goto st469
 		}
-		goto tr416
+		goto tr417
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st470
-		case 110:
+		case 105:
 			goto st470
 		}
-		goto tr416
+		goto tr417
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st471
-		case 102:
+		case 110:
 			goto st471
 		}
-		goto tr416
+		goto tr417
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st472
-		case 111:
+		case 102:
 			goto st472
 		}
-		goto tr416
+		goto tr417
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
 		}
 	st_case_472:
 		switch data[p] {
-		case 9:
-			goto tr664
-		case 32:
-			goto tr664
-		case 58:
-			goto tr665
+		case 79:
+			goto st473
+		case 111:
+			goto st473
 		}
-		goto tr416
+		goto tr417
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
 		}
 	st_case_473:
 		switch data[p] {
-		case 69:
-			goto st474
-		case 101:
-			goto st474
+		case 9:
+			goto tr665
+		case 32:
+			goto tr665
+		case 58:
+			goto tr666
 		}
-		goto tr416
+		goto tr417
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st475
-		case 110:
+		case 101:
 			goto st475
 		}
-		goto tr416
+		goto tr417
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st476
-		case 116:
+		case 110:
 			goto st476
 		}
-		goto tr416
+		goto tr417
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
 		switch data[p] {
-		case 9:
-			goto tr669
-		case 32:
-			goto tr669
-		case 58:
-			goto tr670
+		case 84:
+			goto st477
+		case 116:
+			goto st477
 		}
-		goto tr416
+		goto tr417
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
 		switch data[p] {
-		case 80:
-			goto st478
-		case 112:
-			goto st478
+		case 9:
+			goto tr670
+		case 32:
+			goto tr670
+		case 58:
+			goto tr671
 		}
-		goto tr416
+		goto tr417
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st479
-		case 105:
+		case 112:
 			goto st479
 		}
-		goto tr416
+		goto tr417
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st480
-		case 114:
+		case 105:
 			goto st480
 		}
-		goto tr416
+		goto tr417
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st481
-		case 101:
+		case 114:
 			goto st481
 		}
-		goto tr416
+		goto tr417
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st482
-		case 115:
+		case 101:
 			goto st482
 		}
-		goto tr416
+		goto tr417
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
 		}
 	st_case_482:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st483
-		case 32:
+		case 115:
 			goto st483
-		case 58:
-			goto st484
 		}
-		goto tr416
+		goto tr417
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13343,18 +13331,32 @@ tr641:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto st484
 		case 32:
-			goto st483
-		case 58:
 			goto st484
+		case 58:
+			goto st485
 		}
-		goto st0
+		goto tr417
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
+		switch data[p] {
+		case 9:
+			goto st484
+		case 32:
+			goto st484
+		case 58:
+			goto st485
+		}
+		goto st0
+	st485:
+		if p++; p == pe {
+			goto _test_eof485
+		}
+	st_case_485:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13364,17 +13366,17 @@ tr641:
 		}
 		switch _widec {
 		case 9:
-			goto st484
+			goto st485
 		case 32:
-			goto st484
+			goto st485
 		case 525:
-			goto st486
+			goto st487
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr678
+			goto tr679
 		}
 		goto st0
-tr678:
+tr679:
 //line sip.rl:503
 msg.Expires=0
 //line sip.rl:245
@@ -13382,20 +13384,20 @@ msg.Expires=0
 	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st485
-tr680:
+	goto st486
+tr681:
 //line sip.rl:245
 
 	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st485
-	st485:
+	goto st486
+	st486:
 		if p++; p == pe {
-			goto _test_eof485
+			goto _test_eof486
 		}
-	st_case_485:
-//line msg_parse.go:13390
+	st_case_486:
+//line msg_parse.go:13392
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13404,19 +13406,10 @@ tr680:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr680
-		}
-		goto st0
-	st486:
-		if p++; p == pe {
-			goto _test_eof486
-		}
-	st_case_486:
-		if data[p] == 10 {
-			goto st487
+			goto tr681
 		}
 		goto st0
 	st487:
@@ -13424,10 +13417,7 @@ tr680:
 			goto _test_eof487
 		}
 	st_case_487:
-		switch data[p] {
-		case 9:
-			goto st488
-		case 32:
+		if data[p] == 10 {
 			goto st488
 		}
 		goto st0
@@ -13438,12 +13428,9 @@ tr680:
 	st_case_488:
 		switch data[p] {
 		case 9:
-			goto st488
+			goto st489
 		case 32:
-			goto st488
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr678
+			goto st489
 		}
 		goto st0
 	st489:
@@ -13453,55 +13440,56 @@ tr680:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto tr683
+			goto st489
 		case 32:
-			goto tr683
-		case 58:
-			goto tr684
-		case 82:
-			goto st490
-		case 114:
-			goto st490
+			goto st489
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr679
 		}
-		goto tr416
+		goto st0
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 79:
+		case 9:
+			goto tr684
+		case 32:
+			goto tr684
+		case 58:
+			goto tr685
+		case 82:
 			goto st491
-		case 111:
+		case 114:
 			goto st491
 		}
-		goto tr416
+		goto tr417
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
 		switch data[p] {
-		case 77:
+		case 79:
 			goto st492
-		case 109:
+		case 111:
 			goto st492
 		}
-		goto tr416
+		goto tr417
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 9:
-			goto tr683
-		case 32:
-			goto tr683
-		case 58:
-			goto tr684
+		case 77:
+			goto st493
+		case 109:
+			goto st493
 		}
-		goto tr416
+		goto tr417
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13509,133 +13497,133 @@ tr680:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto tr684
 		case 32:
-			goto st376
+			goto tr684
 		case 58:
-			goto st377
-		case 78:
-			goto st494
-		case 110:
-			goto st494
+			goto tr685
 		}
-		goto tr416
+		goto tr417
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
 		}
 	st_case_494:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st377
+		case 32:
+			goto st377
+		case 58:
+			goto st378
+		case 78:
+			goto st495
+		case 110:
 			goto st495
 		}
-		goto tr416
+		goto tr417
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
-		switch data[p] {
-		case 82:
-			goto st496
-		case 114:
+		if data[p] == 45 {
 			goto st496
 		}
-		goto tr416
+		goto tr417
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st497
-		case 101:
+		case 114:
 			goto st497
 		}
-		goto tr416
+		goto tr417
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st498
-		case 112:
+		case 101:
 			goto st498
 		}
-		goto tr416
+		goto tr417
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
 		switch data[p] {
-		case 76:
+		case 80:
 			goto st499
-		case 108:
+		case 112:
 			goto st499
 		}
-		goto tr416
+		goto tr417
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st500
-		case 121:
+		case 108:
 			goto st500
 		}
-		goto tr416
+		goto tr417
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st501
+		case 121:
 			goto st501
 		}
-		goto tr416
+		goto tr417
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
-		switch data[p] {
-		case 84:
-			goto st502
-		case 116:
+		if data[p] == 45 {
 			goto st502
 		}
-		goto tr416
+		goto tr417
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st503
-		case 111:
+		case 116:
 			goto st503
 		}
-		goto tr416
+		goto tr417
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 9:
-			goto tr698
-		case 32:
-			goto tr698
-		case 58:
-			goto tr699
+		case 79:
+			goto st504
+		case 111:
+			goto st504
 		}
-		goto tr416
+		goto tr417
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
@@ -13643,13 +13631,13 @@ tr680:
 	st_case_504:
 		switch data[p] {
 		case 9:
-			goto tr700
+			goto tr699
 		case 32:
-			goto tr700
+			goto tr699
 		case 58:
-			goto tr701
+			goto tr700
 		}
-		goto tr416
+		goto tr417
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
@@ -13657,152 +13645,152 @@ tr680:
 	st_case_505:
 		switch data[p] {
 		case 9:
-			goto tr572
+			goto tr701
 		case 32:
-			goto tr572
+			goto tr701
 		case 58:
-			goto tr573
-		case 65:
-			goto st506
-		case 73:
-			goto st523
-		case 97:
-			goto st506
-		case 105:
-			goto st523
+			goto tr702
 		}
-		goto tr416
+		goto tr417
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 88:
+		case 9:
+			goto tr573
+		case 32:
+			goto tr573
+		case 58:
+			goto tr574
+		case 65:
 			goto st507
-		case 120:
+		case 73:
+			goto st524
+		case 97:
 			goto st507
+		case 105:
+			goto st524
 		}
-		goto tr416
+		goto tr417
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		if data[p] == 45 {
+		switch data[p] {
+		case 88:
+			goto st508
+		case 120:
 			goto st508
 		}
-		goto tr416
+		goto tr417
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		switch data[p] {
-		case 70:
-			goto st509
-		case 102:
+		if data[p] == 45 {
 			goto st509
 		}
-		goto tr416
+		goto tr417
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
 		switch data[p] {
-		case 79:
+		case 70:
 			goto st510
-		case 111:
+		case 102:
 			goto st510
 		}
-		goto tr416
+		goto tr417
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st511
-		case 114:
+		case 111:
 			goto st511
 		}
-		goto tr416
+		goto tr417
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 87:
+		case 82:
 			goto st512
-		case 119:
+		case 114:
 			goto st512
 		}
-		goto tr416
+		goto tr417
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 65:
+		case 87:
 			goto st513
-		case 97:
+		case 119:
 			goto st513
 		}
-		goto tr416
+		goto tr417
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st514
-		case 114:
+		case 97:
 			goto st514
 		}
-		goto tr416
+		goto tr417
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st515
-		case 100:
+		case 114:
 			goto st515
 		}
-		goto tr416
+		goto tr417
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
 		switch data[p] {
-		case 83:
+		case 68:
 			goto st516
-		case 115:
+		case 100:
 			goto st516
 		}
-		goto tr416
+		goto tr417
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st517
-		case 32:
+		case 115:
 			goto st517
-		case 58:
-			goto st518
 		}
-		goto tr416
+		goto tr417
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
@@ -13810,18 +13798,32 @@ tr680:
 	st_case_517:
 		switch data[p] {
 		case 9:
-			goto st517
+			goto st518
 		case 32:
-			goto st517
-		case 58:
 			goto st518
+		case 58:
+			goto st519
 		}
-		goto st0
+		goto tr417
 	st518:
 		if p++; p == pe {
 			goto _test_eof518
 		}
 	st_case_518:
+		switch data[p] {
+		case 9:
+			goto st518
+		case 32:
+			goto st518
+		case 58:
+			goto st519
+		}
+		goto st0
+	st519:
+		if p++; p == pe {
+			goto _test_eof519
+		}
+	st_case_519:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13831,17 +13833,17 @@ tr680:
 		}
 		switch _widec {
 		case 9:
-			goto st518
+			goto st519
 		case 32:
-			goto st518
+			goto st519
 		case 525:
-			goto st520
+			goto st521
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr716
+			goto tr717
 		}
 		goto st0
-tr716:
+tr717:
 //line sip.rl:504
 msg.MaxForwards=0
 //line sip.rl:250
@@ -13849,20 +13851,20 @@ msg.MaxForwards=0
 	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st519
-tr718:
+	goto st520
+tr719:
 //line sip.rl:250
 
 	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st519
-	st519:
+	goto st520
+	st520:
 		if p++; p == pe {
-			goto _test_eof519
+			goto _test_eof520
 		}
-	st_case_519:
-//line msg_parse.go:13857
+	st_case_520:
+//line msg_parse.go:13859
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13871,19 +13873,10 @@ tr718:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr718
-		}
-		goto st0
-	st520:
-		if p++; p == pe {
-			goto _test_eof520
-		}
-	st_case_520:
-		if data[p] == 10 {
-			goto st521
+			goto tr719
 		}
 		goto st0
 	st521:
@@ -13891,10 +13884,7 @@ tr718:
 			goto _test_eof521
 		}
 	st_case_521:
-		switch data[p] {
-		case 9:
-			goto st522
-		case 32:
+		if data[p] == 10 {
 			goto st522
 		}
 		goto st0
@@ -13905,12 +13895,9 @@ tr718:
 	st_case_522:
 		switch data[p] {
 		case 9:
-			goto st522
+			goto st523
 		case 32:
-			goto st522
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr716
+			goto st523
 		}
 		goto st0
 	st523:
@@ -13919,242 +13906,243 @@ tr718:
 		}
 	st_case_523:
 		switch data[p] {
-		case 77:
-			goto st524
-		case 78:
-			goto st534
-		case 109:
-			goto st524
-		case 110:
-			goto st534
+		case 9:
+			goto st523
+		case 32:
+			goto st523
 		}
-		goto tr416
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr717
+		}
+		goto st0
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st525
-		case 101:
+		case 78:
+			goto st535
+		case 109:
 			goto st525
+		case 110:
+			goto st535
 		}
-		goto tr416
+		goto tr417
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st526
+		case 101:
 			goto st526
 		}
-		goto tr416
+		goto tr417
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
-		switch data[p] {
-		case 86:
-			goto st527
-		case 118:
+		if data[p] == 45 {
 			goto st527
 		}
-		goto tr416
+		goto tr417
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st528
-		case 101:
+		case 118:
 			goto st528
 		}
-		goto tr416
+		goto tr417
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st529
-		case 114:
+		case 101:
 			goto st529
 		}
-		goto tr416
+		goto tr417
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st530
-		case 115:
+		case 114:
 			goto st530
 		}
-		goto tr416
+		goto tr417
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st531
-		case 105:
+		case 115:
 			goto st531
 		}
-		goto tr416
+		goto tr417
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st532
-		case 111:
+		case 105:
 			goto st532
 		}
-		goto tr416
+		goto tr417
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st533
-		case 110:
+		case 111:
 			goto st533
 		}
-		goto tr416
+		goto tr417
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
 		}
 	st_case_533:
 		switch data[p] {
-		case 9:
-			goto tr732
-		case 32:
-			goto tr732
-		case 58:
-			goto tr733
+		case 78:
+			goto st534
+		case 110:
+			goto st534
 		}
-		goto tr416
+		goto tr417
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
 		}
 	st_case_534:
-		if data[p] == 45 {
-			goto st535
+		switch data[p] {
+		case 9:
+			goto tr733
+		case 32:
+			goto tr733
+		case 58:
+			goto tr734
 		}
-		goto tr416
+		goto tr417
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
-		switch data[p] {
-		case 69:
-			goto st536
-		case 101:
+		if data[p] == 45 {
 			goto st536
 		}
-		goto tr416
+		goto tr417
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
 		switch data[p] {
-		case 88:
+		case 69:
 			goto st537
-		case 120:
+		case 101:
 			goto st537
 		}
-		goto tr416
+		goto tr417
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
 		switch data[p] {
-		case 80:
+		case 88:
 			goto st538
-		case 112:
+		case 120:
 			goto st538
 		}
-		goto tr416
+		goto tr417
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 73:
+		case 80:
 			goto st539
-		case 105:
+		case 112:
 			goto st539
 		}
-		goto tr416
+		goto tr417
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st540
-		case 114:
+		case 105:
 			goto st540
 		}
-		goto tr416
+		goto tr417
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st541
-		case 101:
+		case 114:
 			goto st541
 		}
-		goto tr416
+		goto tr417
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st542
-		case 115:
+		case 101:
 			goto st542
 		}
-		goto tr416
+		goto tr417
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 9:
+		case 83:
 			goto st543
-		case 32:
+		case 115:
 			goto st543
-		case 58:
-			goto st544
 		}
-		goto tr416
+		goto tr417
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
@@ -14162,18 +14150,32 @@ tr718:
 	st_case_543:
 		switch data[p] {
 		case 9:
-			goto st543
+			goto st544
 		case 32:
-			goto st543
-		case 58:
 			goto st544
+		case 58:
+			goto st545
 		}
-		goto st0
+		goto tr417
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
+		switch data[p] {
+		case 9:
+			goto st544
+		case 32:
+			goto st544
+		case 58:
+			goto st545
+		}
+		goto st0
+	st545:
+		if p++; p == pe {
+			goto _test_eof545
+		}
+	st_case_545:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14183,17 +14185,17 @@ tr718:
 		}
 		switch _widec {
 		case 9:
-			goto st544
+			goto st545
 		case 32:
-			goto st544
+			goto st545
 		case 525:
-			goto st546
+			goto st547
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr744
+			goto tr745
 		}
 		goto st0
-tr744:
+tr745:
 //line sip.rl:505
 msg.MinExpires=0
 //line sip.rl:255
@@ -14201,20 +14203,20 @@ msg.MinExpires=0
 	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st545
-tr746:
+	goto st546
+tr747:
 //line sip.rl:255
 
 	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st545
-	st545:
+	goto st546
+	st546:
 		if p++; p == pe {
-			goto _test_eof545
+			goto _test_eof546
 		}
-	st_case_545:
-//line msg_parse.go:14209
+	st_case_546:
+//line msg_parse.go:14211
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14223,19 +14225,10 @@ tr746:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st382
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr746
-		}
-		goto st0
-	st546:
-		if p++; p == pe {
-			goto _test_eof546
-		}
-	st_case_546:
-		if data[p] == 10 {
-			goto st547
+			goto tr747
 		}
 		goto st0
 	st547:
@@ -14243,10 +14236,7 @@ tr746:
 			goto _test_eof547
 		}
 	st_case_547:
-		switch data[p] {
-		case 9:
-			goto st548
-		case 32:
+		if data[p] == 10 {
 			goto st548
 		}
 		goto st0
@@ -14257,12 +14247,9 @@ tr746:
 	st_case_548:
 		switch data[p] {
 		case 9:
-			goto st548
+			goto st549
 		case 32:
-			goto st548
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr744
+			goto st549
 		}
 		goto st0
 	st549:
@@ -14272,189 +14259,192 @@ tr746:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto tr669
+			goto st549
 		case 32:
-			goto tr669
-		case 58:
-			goto tr670
-		case 82:
-			goto st550
-		case 114:
-			goto st550
+			goto st549
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr745
 		}
-		goto tr416
+		goto st0
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 71:
+		case 9:
+			goto tr670
+		case 32:
+			goto tr670
+		case 58:
+			goto tr671
+		case 82:
 			goto st551
-		case 103:
+		case 114:
 			goto st551
 		}
-		goto tr416
+		goto tr417
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st552
-		case 97:
+		case 103:
 			goto st552
 		}
-		goto tr416
+		goto tr417
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st553
-		case 110:
+		case 97:
 			goto st553
 		}
-		goto tr416
+		goto tr417
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st554
-		case 105:
+		case 110:
 			goto st554
 		}
-		goto tr416
+		goto tr417
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st555
-		case 122:
+		case 105:
 			goto st555
 		}
-		goto tr416
+		goto tr417
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st556
-		case 97:
+		case 122:
 			goto st556
 		}
-		goto tr416
+		goto tr417
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st557
-		case 116:
+		case 97:
 			goto st557
 		}
-		goto tr416
+		goto tr417
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st558
-		case 105:
+		case 116:
 			goto st558
 		}
-		goto tr416
+		goto tr417
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st559
-		case 111:
+		case 105:
 			goto st559
 		}
-		goto tr416
+		goto tr417
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st560
-		case 110:
+		case 111:
 			goto st560
 		}
-		goto tr416
+		goto tr417
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
 		switch data[p] {
-		case 9:
-			goto tr760
-		case 32:
-			goto tr760
-		case 58:
-			goto tr761
+		case 78:
+			goto st561
+		case 110:
+			goto st561
 		}
-		goto tr416
+		goto tr417
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
 		switch data[p] {
-		case 45:
-			goto st562
-		case 82:
-			goto st580
-		case 114:
-			goto st580
+		case 9:
+			goto tr761
+		case 32:
+			goto tr761
+		case 58:
+			goto tr762
 		}
-		goto tr416
+		goto tr417
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 65:
-			goto st563
-		case 97:
+		case 45:
 			goto st563
+		case 82:
+			goto st581
+		case 114:
+			goto st581
 		}
-		goto tr416
+		goto tr417
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st564
-		case 115:
+		case 97:
 			goto st564
 		}
-		goto tr416
+		goto tr417
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
@@ -14466,671 +14456,669 @@ tr746:
 		case 115:
 			goto st565
 		}
-		goto tr416
+		goto tr417
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st566
-		case 101:
+		case 115:
 			goto st566
 		}
-		goto tr416
+		goto tr417
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st567
-		case 114:
+		case 101:
 			goto st567
 		}
-		goto tr416
+		goto tr417
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
 		}
 	st_case_567:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st568
-		case 116:
+		case 114:
 			goto st568
 		}
-		goto tr416
+		goto tr417
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st569
-		case 101:
+		case 116:
 			goto st569
 		}
-		goto tr416
+		goto tr417
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st570
-		case 100:
+		case 101:
 			goto st570
 		}
-		goto tr416
+		goto tr417
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st571
+		case 100:
 			goto st571
 		}
-		goto tr416
+		goto tr417
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
-		switch data[p] {
-		case 73:
-			goto st572
-		case 105:
+		if data[p] == 45 {
 			goto st572
 		}
-		goto tr416
+		goto tr417
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st573
-		case 100:
+		case 105:
 			goto st573
 		}
-		goto tr416
+		goto tr417
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st574
-		case 101:
+		case 100:
 			goto st574
 		}
-		goto tr416
+		goto tr417
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st575
-		case 110:
+		case 101:
 			goto st575
 		}
-		goto tr416
+		goto tr417
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st576
-		case 116:
+		case 110:
 			goto st576
 		}
-		goto tr416
+		goto tr417
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st577
-		case 105:
+		case 116:
 			goto st577
 		}
-		goto tr416
+		goto tr417
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st578
-		case 116:
+		case 105:
 			goto st578
 		}
-		goto tr416
+		goto tr417
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
 		}
 	st_case_578:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st579
-		case 121:
+		case 116:
 			goto st579
 		}
-		goto tr416
+		goto tr417
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
 		switch data[p] {
-		case 9:
-			goto tr781
-		case 32:
-			goto tr781
-		case 58:
-			goto tr782
+		case 89:
+			goto st580
+		case 121:
+			goto st580
 		}
-		goto tr416
+		goto tr417
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
 		switch data[p] {
-		case 73:
-			goto st581
-		case 79:
-			goto st587
-		case 105:
-			goto st581
-		case 111:
-			goto st587
+		case 9:
+			goto tr782
+		case 32:
+			goto tr782
+		case 58:
+			goto tr783
 		}
-		goto tr416
+		goto tr417
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
+		case 73:
+			goto st582
 		case 79:
+			goto st588
+		case 105:
 			goto st582
 		case 111:
-			goto st582
+			goto st588
 		}
-		goto tr416
+		goto tr417
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st583
-		case 114:
+		case 111:
 			goto st583
 		}
-		goto tr416
+		goto tr417
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st584
-		case 105:
+		case 114:
 			goto st584
 		}
-		goto tr416
+		goto tr417
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st585
-		case 116:
+		case 105:
 			goto st585
 		}
-		goto tr416
+		goto tr417
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st586
-		case 121:
+		case 116:
 			goto st586
 		}
-		goto tr416
+		goto tr417
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 9:
-			goto tr790
-		case 32:
-			goto tr790
-		case 58:
-			goto tr791
+		case 89:
+			goto st587
+		case 121:
+			goto st587
 		}
-		goto tr416
+		goto tr417
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 88:
-			goto st588
-		case 120:
-			goto st588
+		case 9:
+			goto tr791
+		case 32:
+			goto tr791
+		case 58:
+			goto tr792
 		}
-		goto tr416
+		goto tr417
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 89:
+		case 88:
 			goto st589
-		case 121:
+		case 120:
 			goto st589
 		}
-		goto tr416
+		goto tr417
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st590
+		case 121:
 			goto st590
 		}
-		goto tr416
+		goto tr417
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
-		switch data[p] {
-		case 65:
-			goto st591
-		case 82:
-			goto st612
-		case 97:
+		if data[p] == 45 {
 			goto st591
-		case 114:
-			goto st612
 		}
-		goto tr416
+		goto tr417
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st592
-		case 117:
+		case 82:
+			goto st613
+		case 97:
 			goto st592
+		case 114:
+			goto st613
 		}
-		goto tr416
+		goto tr417
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st593
-		case 116:
+		case 117:
 			goto st593
 		}
-		goto tr416
+		goto tr417
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st594
-		case 104:
+		case 116:
 			goto st594
 		}
-		goto tr416
+		goto tr417
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st595
-		case 79:
-			goto st603
-		case 101:
+		case 104:
 			goto st595
-		case 111:
-			goto st603
 		}
-		goto tr416
+		goto tr417
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st596
-		case 110:
+		case 79:
+			goto st604
+		case 101:
 			goto st596
+		case 111:
+			goto st604
 		}
-		goto tr416
+		goto tr417
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st597
-		case 116:
+		case 110:
 			goto st597
 		}
-		goto tr416
+		goto tr417
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st598
-		case 105:
+		case 116:
 			goto st598
 		}
-		goto tr416
+		goto tr417
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st599
-		case 99:
+		case 105:
 			goto st599
 		}
-		goto tr416
+		goto tr417
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st600
-		case 97:
+		case 99:
 			goto st600
 		}
-		goto tr416
+		goto tr417
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st601
-		case 116:
+		case 97:
 			goto st601
 		}
-		goto tr416
+		goto tr417
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st602
-		case 101:
+		case 116:
 			goto st602
 		}
-		goto tr416
+		goto tr417
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 9:
-			goto tr809
-		case 32:
-			goto tr809
-		case 58:
-			goto tr810
+		case 69:
+			goto st603
+		case 101:
+			goto st603
 		}
-		goto tr416
+		goto tr417
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 82:
-			goto st604
-		case 114:
-			goto st604
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
-		goto tr416
+		goto tr417
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st605
-		case 105:
+		case 114:
 			goto st605
 		}
-		goto tr416
+		goto tr417
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st606
-		case 122:
+		case 105:
 			goto st606
 		}
-		goto tr416
+		goto tr417
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 65:
+		case 90:
 			goto st607
-		case 97:
+		case 122:
 			goto st607
 		}
-		goto tr416
+		goto tr417
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st608
-		case 116:
+		case 97:
 			goto st608
 		}
-		goto tr416
+		goto tr417
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st609
-		case 105:
+		case 116:
 			goto st609
 		}
-		goto tr416
+		goto tr417
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st610
-		case 111:
+		case 105:
 			goto st610
 		}
-		goto tr416
+		goto tr417
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st611
-		case 110:
+		case 111:
 			goto st611
 		}
-		goto tr416
+		goto tr417
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 9:
-			goto tr819
-		case 32:
-			goto tr819
-		case 58:
-			goto tr820
+		case 78:
+			goto st612
+		case 110:
+			goto st612
 		}
-		goto tr416
+		goto tr417
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 69:
-			goto st613
-		case 101:
-			goto st613
+		case 9:
+			goto tr820
+		case 32:
+			goto tr820
+		case 58:
+			goto tr821
 		}
-		goto tr416
+		goto tr417
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 81:
+		case 69:
 			goto st614
-		case 113:
+		case 101:
 			goto st614
 		}
-		goto tr416
+		goto tr417
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
 		switch data[p] {
-		case 85:
+		case 81:
 			goto st615
-		case 117:
+		case 113:
 			goto st615
 		}
-		goto tr416
+		goto tr417
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st616
-		case 105:
+		case 117:
 			goto st616
 		}
-		goto tr416
+		goto tr417
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st617
-		case 114:
+		case 105:
 			goto st617
 		}
-		goto tr416
+		goto tr417
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st618
-		case 101:
+		case 114:
 			goto st618
 		}
-		goto tr416
+		goto tr417
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 9:
-			goto tr827
-		case 32:
-			goto tr827
-		case 58:
-			goto tr828
+		case 69:
+			goto st619
+		case 101:
+			goto st619
 		}
-		goto tr416
+		goto tr417
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
@@ -15138,747 +15126,747 @@ tr746:
 	st_case_619:
 		switch data[p] {
 		case 9:
-			goto tr829
+			goto tr828
 		case 32:
-			goto tr829
+			goto tr828
 		case 58:
+			goto tr829
+		}
+		goto tr417
+	st620:
+		if p++; p == pe {
+			goto _test_eof620
+		}
+	st_case_620:
+		switch data[p] {
+		case 9:
 			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		case 69:
-			goto st620
+			goto st621
 		case 79:
-			goto st675
+			goto st676
 		case 101:
-			goto st620
+			goto st621
 		case 111:
-			goto st675
+			goto st676
 		}
-		goto tr416
-	st620:
+		goto tr417
+	st621:
 		if p++; p == pe {
-			goto _test_eof620
+			goto _test_eof621
 		}
-	st_case_620:
+	st_case_621:
 		switch data[p] {
 		case 67:
-			goto st621
+			goto st622
 		case 70:
-			goto st631
+			goto st632
 		case 77:
-			goto st642
+			goto st643
 		case 80:
-			goto st655
+			goto st656
 		case 81:
-			goto st661
+			goto st662
 		case 84:
-			goto st666
+			goto st667
 		case 99:
-			goto st621
+			goto st622
 		case 102:
-			goto st631
+			goto st632
 		case 109:
-			goto st642
+			goto st643
 		case 112:
-			goto st655
+			goto st656
 		case 113:
-			goto st661
+			goto st662
 		case 116:
-			goto st666
-		}
-		goto tr416
-	st621:
-		if p++; p == pe {
-			goto _test_eof621
-		}
-	st_case_621:
-		switch data[p] {
-		case 79:
-			goto st622
-		case 111:
-			goto st622
+			goto st667
 		}
-		goto tr416
+		goto tr417
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
 		}
 	st_case_622:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st623
-		case 114:
+		case 111:
 			goto st623
 		}
-		goto tr416
+		goto tr417
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st624
-		case 100:
+		case 114:
 			goto st624
 		}
-		goto tr416
+		goto tr417
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st625
+		case 100:
 			goto st625
 		}
-		goto tr416
+		goto tr417
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
-		switch data[p] {
-		case 82:
-			goto st626
-		case 114:
+		if data[p] == 45 {
 			goto st626
 		}
-		goto tr416
+		goto tr417
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st627
-		case 111:
+		case 114:
 			goto st627
 		}
-		goto tr416
+		goto tr417
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 85:
+		case 79:
 			goto st628
-		case 117:
+		case 111:
 			goto st628
 		}
-		goto tr416
+		goto tr417
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st629
-		case 116:
+		case 117:
 			goto st629
 		}
-		goto tr416
+		goto tr417
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st630
-		case 101:
+		case 116:
 			goto st630
 		}
-		goto tr416
+		goto tr417
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
 		switch data[p] {
-		case 9:
-			goto tr848
-		case 32:
-			goto tr848
-		case 58:
-			goto tr849
+		case 69:
+			goto st631
+		case 101:
+			goto st631
 		}
-		goto tr416
+		goto tr417
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
-	st_case_631:
-		switch data[p] {
-		case 69:
-			goto st632
-		case 101:
-			goto st632
+	st_case_631:
+		switch data[p] {
+		case 9:
+			goto tr849
+		case 32:
+			goto tr849
+		case 58:
+			goto tr850
 		}
-		goto tr416
+		goto tr417
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st633
-		case 114:
+		case 101:
 			goto st633
 		}
-		goto tr416
+		goto tr417
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 45:
-			goto st634
 		case 82:
-			goto st637
+			goto st634
 		case 114:
-			goto st637
+			goto st634
 		}
-		goto tr416
+		goto tr417
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 84:
-			goto st635
-		case 116:
+		case 45:
 			goto st635
+		case 82:
+			goto st638
+		case 114:
+			goto st638
 		}
-		goto tr416
+		goto tr417
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st636
-		case 111:
+		case 116:
 			goto st636
 		}
-		goto tr416
+		goto tr417
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
 		switch data[p] {
-		case 9:
-			goto tr829
-		case 32:
-			goto tr829
-		case 58:
-			goto tr830
+		case 79:
+			goto st637
+		case 111:
+			goto st637
 		}
-		goto tr416
+		goto tr417
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 69:
-			goto st638
-		case 101:
-			goto st638
+		case 9:
+			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		}
-		goto tr416
+		goto tr417
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st639
-		case 100:
+		case 101:
 			goto st639
 		}
-		goto tr416
+		goto tr417
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st640
+		case 100:
 			goto st640
 		}
-		goto tr416
+		goto tr417
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
-		switch data[p] {
-		case 66:
-			goto st641
-		case 98:
+		if data[p] == 45 {
 			goto st641
 		}
-		goto tr416
+		goto tr417
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
 		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		case 66:
+			goto st642
+		case 98:
+			goto st642
 		}
-		goto tr416
+		goto tr417
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
 		switch data[p] {
-		case 79:
-			goto st643
-		case 111:
-			goto st643
+		case 89:
+			goto st364
+		case 121:
+			goto st364
 		}
-		goto tr416
+		goto tr417
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st644
-		case 116:
+		case 111:
 			goto st644
 		}
-		goto tr416
+		goto tr417
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st645
-		case 101:
+		case 116:
 			goto st645
 		}
-		goto tr416
+		goto tr417
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st646
+		case 101:
 			goto st646
 		}
-		goto tr416
+		goto tr417
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
-		switch data[p] {
-		case 80:
-			goto st647
-		case 112:
+		if data[p] == 45 {
 			goto st647
 		}
-		goto tr416
+		goto tr417
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
 		switch data[p] {
-		case 65:
+		case 80:
 			goto st648
-		case 97:
+		case 112:
 			goto st648
 		}
-		goto tr416
+		goto tr417
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st649
-		case 114:
+		case 97:
 			goto st649
 		}
-		goto tr416
+		goto tr417
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st650
-		case 116:
+		case 114:
 			goto st650
 		}
-		goto tr416
+		goto tr417
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 89:
+		case 84:
 			goto st651
-		case 121:
+		case 116:
 			goto st651
 		}
-		goto tr416
+		goto tr417
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st652
+		case 121:
 			goto st652
 		}
-		goto tr416
+		goto tr417
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
 		}
 	st_case_652:
-		switch data[p] {
-		case 73:
-			goto st653
-		case 105:
+		if data[p] == 45 {
 			goto st653
 		}
-		goto tr416
+		goto tr417
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st654
-		case 100:
+		case 105:
 			goto st654
 		}
-		goto tr416
+		goto tr417
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 9:
-			goto tr872
-		case 32:
-			goto tr872
-		case 58:
-			goto tr873
+		case 68:
+			goto st655
+		case 100:
+			goto st655
 		}
-		goto tr416
+		goto tr417
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 76:
-			goto st656
-		case 108:
-			goto st656
+		case 9:
+			goto tr873
+		case 32:
+			goto tr873
+		case 58:
+			goto tr874
 		}
-		goto tr416
+		goto tr417
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 89:
+		case 76:
 			goto st657
-		case 121:
+		case 108:
 			goto st657
 		}
-		goto tr416
+		goto tr417
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st658
+		case 121:
 			goto st658
 		}
-		goto tr416
+		goto tr417
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		switch data[p] {
-		case 84:
-			goto st659
-		case 116:
+		if data[p] == 45 {
 			goto st659
 		}
-		goto tr416
+		goto tr417
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st660
-		case 111:
+		case 116:
 			goto st660
 		}
-		goto tr416
+		goto tr417
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 9:
-			goto tr879
-		case 32:
-			goto tr879
-		case 58:
-			goto tr880
+		case 79:
+			goto st661
+		case 111:
+			goto st661
 		}
-		goto tr416
+		goto tr417
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 85:
-			goto st662
-		case 117:
-			goto st662
+		case 9:
+			goto tr880
+		case 32:
+			goto tr880
+		case 58:
+			goto tr881
 		}
-		goto tr416
+		goto tr417
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st663
-		case 105:
+		case 117:
 			goto st663
 		}
-		goto tr416
+		goto tr417
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
 		}
 	st_case_663:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st664
-		case 114:
+		case 105:
 			goto st664
 		}
-		goto tr416
+		goto tr417
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st665
-		case 101:
+		case 114:
 			goto st665
 		}
-		goto tr416
+		goto tr417
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 9:
-			goto tr885
-		case 32:
-			goto tr885
-		case 58:
-			goto tr886
+		case 69:
+			goto st666
+		case 101:
+			goto st666
 		}
-		goto tr416
+		goto tr417
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 82:
-			goto st667
-		case 114:
-			goto st667
+		case 9:
+			goto tr886
+		case 32:
+			goto tr886
+		case 58:
+			goto tr887
 		}
-		goto tr416
+		goto tr417
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st668
-		case 121:
+		case 114:
 			goto st668
 		}
-		goto tr416
+		goto tr417
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st669
+		case 121:
 			goto st669
 		}
-		goto tr416
+		goto tr417
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
-		switch data[p] {
-		case 65:
-			goto st670
-		case 97:
+		if data[p] == 45 {
 			goto st670
 		}
-		goto tr416
+		goto tr417
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 70:
+		case 65:
 			goto st671
-		case 102:
+		case 97:
 			goto st671
 		}
-		goto tr416
+		goto tr417
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st672
-		case 116:
+		case 102:
 			goto st672
 		}
-		goto tr416
+		goto tr417
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
 		}
 	st_case_672:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st673
-		case 101:
+		case 116:
 			goto st673
 		}
-		goto tr416
+		goto tr417
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
 		}
 	st_case_673:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st674
-		case 114:
+		case 101:
 			goto st674
 		}
-		goto tr416
+		goto tr417
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
 		}
 	st_case_674:
 		switch data[p] {
-		case 9:
-			goto tr895
-		case 32:
-			goto tr895
-		case 58:
-			goto tr896
+		case 82:
+			goto st675
+		case 114:
+			goto st675
 		}
-		goto tr416
+		goto tr417
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
 		switch data[p] {
-		case 85:
-			goto st676
-		case 117:
-			goto st676
+		case 9:
+			goto tr896
+		case 32:
+			goto tr896
+		case 58:
+			goto tr897
 		}
-		goto tr416
+		goto tr417
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st677
-		case 116:
+		case 117:
 			goto st677
 		}
-		goto tr416
+		goto tr417
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
 		}
 	st_case_677:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st678
-		case 101:
+		case 116:
 			goto st678
 		}
-		goto tr416
+		goto tr417
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 9:
-			goto tr900
-		case 32:
-			goto tr900
-		case 58:
-			goto tr901
+		case 69:
+			goto st679
+		case 101:
+			goto st679
 		}
-		goto tr416
+		goto tr417
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
@@ -15886,353 +15874,353 @@ tr746:
 	st_case_679:
 		switch data[p] {
 		case 9:
-			goto tr902
+			goto tr901
 		case 32:
-			goto tr902
+			goto tr901
 		case 58:
-			goto tr903
-		case 69:
-			goto st680
-		case 85:
-			goto st685
-		case 101:
-			goto st680
-		case 117:
-			goto st685
+			goto tr902
 		}
-		goto tr416
+		goto tr417
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
+		case 69:
 			goto st681
-		case 114:
+		case 85:
+			goto st686
+		case 101:
 			goto st681
+		case 117:
+			goto st686
 		}
-		goto tr416
+		goto tr417
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 86:
+		case 82:
 			goto st682
-		case 118:
+		case 114:
 			goto st682
 		}
-		goto tr416
+		goto tr417
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st683
-		case 101:
+		case 118:
 			goto st683
 		}
-		goto tr416
+		goto tr417
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
 		}
 	st_case_683:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st684
-		case 114:
+		case 101:
 			goto st684
 		}
-		goto tr416
+		goto tr417
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 9:
-			goto tr910
-		case 32:
-			goto tr910
-		case 58:
-			goto tr911
+		case 82:
+			goto st685
+		case 114:
+			goto st685
 		}
-		goto tr416
+		goto tr417
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 66:
-			goto st686
-		case 80:
-			goto st691
-		case 98:
-			goto st686
-		case 112:
-			goto st691
+		case 9:
+			goto tr911
+		case 32:
+			goto tr911
+		case 58:
+			goto tr912
 		}
-		goto tr416
+		goto tr417
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 74:
+		case 66:
 			goto st687
-		case 106:
+		case 80:
+			goto st692
+		case 98:
 			goto st687
+		case 112:
+			goto st692
 		}
-		goto tr416
+		goto tr417
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 69:
+		case 74:
 			goto st688
-		case 101:
+		case 106:
 			goto st688
 		}
-		goto tr416
+		goto tr417
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st689
-		case 99:
+		case 101:
 			goto st689
 		}
-		goto tr416
+		goto tr417
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 84:
+		case 67:
 			goto st690
-		case 116:
+		case 99:
 			goto st690
 		}
-		goto tr416
+		goto tr417
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 9:
-			goto tr902
-		case 32:
-			goto tr902
-		case 58:
-			goto tr903
+		case 84:
+			goto st691
+		case 116:
+			goto st691
 		}
-		goto tr416
+		goto tr417
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 80:
-			goto st692
-		case 112:
-			goto st692
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
 		}
-		goto tr416
+		goto tr417
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st693
-		case 111:
+		case 112:
 			goto st693
 		}
-		goto tr416
+		goto tr417
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st694
-		case 114:
+		case 111:
 			goto st694
 		}
-		goto tr416
+		goto tr417
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st695
-		case 116:
+		case 114:
 			goto st695
 		}
-		goto tr416
+		goto tr417
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st696
-		case 101:
+		case 116:
 			goto st696
 		}
-		goto tr416
+		goto tr417
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 69:
+			goto st697
+		case 101:
+			goto st697
 		}
-		goto tr416
+		goto tr417
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
 		}
 	st_case_697:
 		switch data[p] {
-		case 9:
-			goto tr923
-		case 32:
-			goto tr923
-		case 58:
-			goto tr924
-		case 73:
-			goto st698
-		case 79:
-			goto st706
-		case 105:
-			goto st698
-		case 111:
-			goto st706
+		case 68:
+			goto st505
+		case 100:
+			goto st505
 		}
-		goto tr416
+		goto tr417
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
-		case 77:
+		case 9:
+			goto tr924
+		case 32:
+			goto tr924
+		case 58:
+			goto tr925
+		case 73:
 			goto st699
-		case 109:
+		case 79:
+			goto st707
+		case 105:
 			goto st699
+		case 111:
+			goto st707
 		}
-		goto tr416
+		goto tr417
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 69:
+		case 77:
 			goto st700
-		case 101:
+		case 109:
 			goto st700
 		}
-		goto tr416
+		goto tr417
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st701
-		case 115:
+		case 101:
 			goto st701
 		}
-		goto tr416
+		goto tr417
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st702
-		case 116:
+		case 115:
 			goto st702
 		}
-		goto tr416
+		goto tr417
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st703
-		case 97:
+		case 116:
 			goto st703
 		}
-		goto tr416
+		goto tr417
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 77:
+		case 65:
 			goto st704
-		case 109:
+		case 97:
 			goto st704
 		}
-		goto tr416
+		goto tr417
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 80:
+		case 77:
 			goto st705
-		case 112:
+		case 109:
 			goto st705
 		}
-		goto tr416
+		goto tr417
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 9:
-			goto tr934
-		case 32:
-			goto tr934
-		case 58:
-			goto tr935
+		case 80:
+			goto st706
+		case 112:
+			goto st706
 		}
-		goto tr416
+		goto tr417
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
@@ -16240,13 +16228,13 @@ tr746:
 	st_case_706:
 		switch data[p] {
 		case 9:
-			goto tr923
+			goto tr935
 		case 32:
-			goto tr923
+			goto tr935
 		case 58:
-			goto tr924
+			goto tr936
 		}
-		goto tr416
+		goto tr417
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
@@ -16254,57 +16242,59 @@ tr746:
 	st_case_707:
 		switch data[p] {
 		case 9:
-			goto tr502
+			goto tr924
 		case 32:
-			goto tr502
+			goto tr924
 		case 58:
-			goto tr503
-		case 78:
-			goto st708
-		case 83:
-			goto st718
-		case 110:
-			goto st708
-		case 115:
-			goto st718
+			goto tr925
 		}
-		goto tr416
+		goto tr417
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
+		case 78:
+			goto st709
 		case 83:
+			goto st719
+		case 110:
 			goto st709
 		case 115:
-			goto st709
+			goto st719
 		}
-		goto tr416
+		goto tr417
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 85:
+		case 83:
 			goto st710
-		case 117:
+		case 115:
 			goto st710
 		}
-		goto tr416
+		goto tr417
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
 		switch data[p] {
-		case 80:
+		case 85:
 			goto st711
-		case 112:
+		case 117:
 			goto st711
 		}
-		goto tr416
+		goto tr417
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
@@ -16316,188 +16306,186 @@ tr746:
 		case 112:
 			goto st712
 		}
-		goto tr416
+		goto tr417
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 79:
+		case 80:
 			goto st713
-		case 111:
+		case 112:
 			goto st713
 		}
-		goto tr416
+		goto tr417
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st714
-		case 114:
+		case 111:
 			goto st714
 		}
-		goto tr416
+		goto tr417
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st715
-		case 116:
+		case 114:
 			goto st715
 		}
-		goto tr416
+		goto tr417
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st716
-		case 101:
+		case 116:
 			goto st716
 		}
-		goto tr416
+		goto tr417
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st717
-		case 100:
+		case 101:
 			goto st717
 		}
-		goto tr416
+		goto tr417
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
 		}
 	st_case_717:
-		switch data[p] {
-		case 9:
-			goto tr947
-		case 32:
-			goto tr947
-		case 58:
-			goto tr948
+		switch data[p] {
+		case 68:
+			goto st718
+		case 100:
+			goto st718
 		}
-		goto tr416
+		goto tr417
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
 		}
 	st_case_718:
 		switch data[p] {
-		case 69:
-			goto st719
-		case 101:
-			goto st719
+		case 9:
+			goto tr948
+		case 32:
+			goto tr948
+		case 58:
+			goto tr949
 		}
-		goto tr416
+		goto tr417
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st720
-		case 114:
+		case 101:
 			goto st720
 		}
-		goto tr416
+		goto tr417
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st721
+		case 114:
 			goto st721
 		}
-		goto tr416
+		goto tr417
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
-		switch data[p] {
-		case 65:
-			goto st722
-		case 97:
+		if data[p] == 45 {
 			goto st722
 		}
-		goto tr416
+		goto tr417
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st723
-		case 103:
+		case 97:
 			goto st723
 		}
-		goto tr416
+		goto tr417
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st724
-		case 101:
+		case 103:
 			goto st724
 		}
-		goto tr416
+		goto tr417
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st725
-		case 110:
+		case 101:
 			goto st725
 		}
-		goto tr416
+		goto tr417
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st726
-		case 116:
+		case 110:
 			goto st726
 		}
-		goto tr416
+		goto tr417
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 9:
-			goto tr957
-		case 32:
-			goto tr957
-		case 58:
-			goto tr958
+		case 84:
+			goto st727
+		case 116:
+			goto st727
 		}
-		goto tr416
+		goto tr417
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
@@ -16505,17 +16493,13 @@ tr746:
 	st_case_727:
 		switch data[p] {
 		case 9:
-			goto st728
+			goto tr958
 		case 32:
-			goto st728
+			goto tr958
 		case 58:
-			goto st729
-		case 73:
-			goto st733
-		case 105:
-			goto st733
+			goto tr959
 		}
-		goto tr416
+		goto tr417
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
@@ -16523,18 +16507,36 @@ tr746:
 	st_case_728:
 		switch data[p] {
 		case 9:
-			goto st728
+			goto st729
 		case 32:
-			goto st728
-		case 58:
 			goto st729
+		case 58:
+			goto st730
+		case 73:
+			goto st734
+		case 105:
+			goto st734
 		}
-		goto st0
+		goto tr417
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
+		switch data[p] {
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 58:
+			goto st730
+		}
+		goto st0
+	st730:
+		if p++; p == pe {
+			goto _test_eof730
+		}
+	st_case_730:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -16544,30 +16546,21 @@ tr746:
 		}
 		switch _widec {
 		case 9:
-			goto st729
+			goto st730
 		case 32:
-			goto st729
+			goto st730
 		case 269:
-			goto tr962
+			goto tr963
 		case 525:
-			goto st730
+			goto st731
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr962
+				goto tr963
 			}
 		default:
-			goto tr962
-		}
-		goto st0
-	st730:
-		if p++; p == pe {
-			goto _test_eof730
-		}
-	st_case_730:
-		if data[p] == 10 {
-			goto st731
+			goto tr963
 		}
 		goto st0
 	st731:
@@ -16575,10 +16568,7 @@ tr746:
 			goto _test_eof731
 		}
 	st_case_731:
-		switch data[p] {
-		case 9:
-			goto st732
-		case 32:
+		if data[p] == 10 {
 			goto st732
 		}
 		goto st0
@@ -16589,315 +16579,318 @@ tr746:
 	st_case_732:
 		switch data[p] {
 		case 9:
-			goto st732
+			goto st733
 		case 32:
-			goto st732
+			goto st733
 		}
-		goto tr962
+		goto st0
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 65:
-			goto st734
-		case 97:
-			goto st734
+		case 9:
+			goto st733
+		case 32:
+			goto st733
 		}
-		goto tr416
+		goto tr963
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
 		switch data[p] {
-		case 9:
-			goto st728
-		case 32:
-			goto st728
-		case 58:
-			goto st729
+		case 65:
+			goto st735
+		case 97:
+			goto st735
 		}
-		goto tr416
+		goto tr417
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 65:
-			goto st736
-		case 87:
-			goto st742
-		case 97:
-			goto st736
-		case 119:
-			goto st742
+		case 9:
+			goto st729
+		case 32:
+			goto st729
+		case 58:
+			goto st730
 		}
-		goto tr416
+		goto tr417
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 82:
+		case 65:
 			goto st737
-		case 114:
+		case 87:
+			goto st743
+		case 97:
 			goto st737
+		case 119:
+			goto st743
 		}
-		goto tr416
+		goto tr417
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st738
-		case 110:
+		case 114:
 			goto st738
 		}
-		goto tr416
+		goto tr417
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st739
-		case 105:
+		case 110:
 			goto st739
 		}
-		goto tr416
+		goto tr417
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
 		}
 	st_case_739:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st740
-		case 110:
+		case 105:
 			goto st740
 		}
-		goto tr416
+		goto tr417
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 71:
+		case 78:
 			goto st741
-		case 103:
+		case 110:
 			goto st741
 		}
-		goto tr416
+		goto tr417
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 9:
-			goto tr974
-		case 32:
-			goto tr974
-		case 58:
-			goto tr975
+		case 71:
+			goto st742
+		case 103:
+			goto st742
 		}
-		goto tr416
+		goto tr417
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 87:
-			goto st743
-		case 119:
-			goto st743
+		case 9:
+			goto tr975
+		case 32:
+			goto tr975
+		case 58:
+			goto tr976
 		}
-		goto tr416
+		goto tr417
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
-		if data[p] == 45 {
+		switch data[p] {
+		case 87:
+			goto st744
+		case 119:
 			goto st744
 		}
-		goto tr416
+		goto tr417
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
-		switch data[p] {
-		case 65:
-			goto st745
-		case 97:
+		if data[p] == 45 {
 			goto st745
 		}
-		goto tr416
+		goto tr417
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st746
-		case 117:
+		case 97:
 			goto st746
 		}
-		goto tr416
+		goto tr417
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
 		switch data[p] {
-		case 84:
+		case 85:
 			goto st747
-		case 116:
+		case 117:
 			goto st747
 		}
-		goto tr416
+		goto tr417
 	st747:
 		if p++; p == pe {
 			goto _test_eof747
 		}
 	st_case_747:
 		switch data[p] {
-		case 72:
+		case 84:
 			goto st748
-		case 104:
+		case 116:
 			goto st748
 		}
-		goto tr416
+		goto tr417
 	st748:
 		if p++; p == pe {
 			goto _test_eof748
 		}
 	st_case_748:
 		switch data[p] {
-		case 69:
+		case 72:
 			goto st749
-		case 101:
+		case 104:
 			goto st749
 		}
-		goto tr416
+		goto tr417
 	st749:
 		if p++; p == pe {
 			goto _test_eof749
 		}
 	st_case_749:
 		switch data[p] {
-		case 78:
+		case 69:
 			goto st750
-		case 110:
+		case 101:
 			goto st750
 		}
-		goto tr416
+		goto tr417
 	st750:
 		if p++; p == pe {
 			goto _test_eof750
 		}
 	st_case_750:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st751
-		case 116:
+		case 110:
 			goto st751
 		}
-		goto tr416
+		goto tr417
 	st751:
 		if p++; p == pe {
 			goto _test_eof751
 		}
 	st_case_751:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st752
-		case 105:
+		case 116:
 			goto st752
 		}
-		goto tr416
+		goto tr417
 	st752:
 		if p++; p == pe {
 			goto _test_eof752
 		}
 	st_case_752:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st753
-		case 99:
+		case 105:
 			goto st753
 		}
-		goto tr416
+		goto tr417
 	st753:
 		if p++; p == pe {
 			goto _test_eof753
 		}
 	st_case_753:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st754
-		case 97:
+		case 99:
 			goto st754
 		}
-		goto tr416
+		goto tr417
 	st754:
 		if p++; p == pe {
 			goto _test_eof754
 		}
 	st_case_754:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st755
-		case 116:
+		case 97:
 			goto st755
 		}
-		goto tr416
+		goto tr417
 	st755:
 		if p++; p == pe {
 			goto _test_eof755
 		}
 	st_case_755:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st756
-		case 101:
+		case 116:
 			goto st756
 		}
-		goto tr416
+		goto tr417
 	st756:
 		if p++; p == pe {
 			goto _test_eof756
 		}
 	st_case_756:
 		switch data[p] {
-		case 9:
-			goto tr990
-		case 32:
-			goto tr990
-		case 58:
-			goto tr991
+		case 69:
+			goto st757
+		case 101:
+			goto st757
 		}
-		goto tr416
+		goto tr417
 	st757:
 		if p++; p == pe {
 			goto _test_eof757
 		}
 	st_case_757:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto tr991
+		case 32:
+			goto tr991
+		case 58:
 			goto tr992
 		}
-		goto st0
+		goto tr417
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -17195,10 +17188,10 @@ tr746:
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
+	_test_eof774: cs = 774; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
 	_test_eof285: cs = 285; goto _test_eof
 	_test_eof286: cs = 286; goto _test_eof
 	_test_eof287: cs = 287; goto _test_eof
@@ -17676,14 +17669,14 @@ tr746:
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
+		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757:
 //line sip.rl:174
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17678
+//line msg_parse.go:17671
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 05ea306..366d714 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -543,7 +543,7 @@ sheader  = cheader <: CRLF @goto_header
          | sname $!gxh HCOLON <: any @hold @goto_value
          | ("Via"i | "v"i) $!gxh HCOLON <: any @ViaNew @hold @goto_via
          | ("Content-Type"i | "c"i) $!gxh HCOLON <: any @hold @goto_ctype;
-header  := CRLF @break
+header  := CR LF @break
          | tokenc @mark @hold sheader;
 
 # Start Line Parsing
-- 
2.43.0


From fb64d09abedec11f895ca2802a1626cfab8cd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 35/47] fix: accept extension headers that begin like a known
 header

---
 sip/msg_parse.go | 4303 +++++++++++++++++++++++-----------------------
 sip/sip.rl       |    5 +-
 2 files changed, 2134 insertions(+), 2174 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index e0e8f69..c895d2a 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 758
+const msg_first_final int = 757
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -42,7 +42,7 @@ const msg_en_addr_uri int = 229
 const msg_en_addr int = 256
 const msg_en_value int = 263
 const msg_en_xheader int = 273
-const msg_en_header int = 280
+const msg_en_header int = 279
 const msg_en_main int = 1
 
 
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 758:
-		goto st_case_758
+	case 757:
+		goto st_case_757
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 759:
-		goto st_case_759
+	case 758:
+		goto st_case_758
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 760:
-		goto st_case_760
+	case 759:
+		goto st_case_759
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 761:
-		goto st_case_761
+	case 760:
+		goto st_case_760
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 762:
-		goto st_case_762
+	case 761:
+		goto st_case_761
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 763:
-		goto st_case_763
+	case 762:
+		goto st_case_762
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 764:
-		goto st_case_764
+	case 763:
+		goto st_case_763
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,34 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 765:
-		goto st_case_765
+	case 764:
+		goto st_case_764
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
 	case 249:
 		goto st_case_249
-	case 766:
-		goto st_case_766
+	case 765:
+		goto st_case_765
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 767:
-		goto st_case_767
+	case 766:
+		goto st_case_766
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
+	case 767:
+		goto st_case_767
 	case 768:
 		goto st_case_768
 	case 769:
 		goto st_case_769
-	case 770:
-		goto st_case_770
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,8 +632,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 771:
-		goto st_case_771
+	case 770:
+		goto st_case_770
 	case 259:
 		goto st_case_259
 	case 260:
@@ -658,8 +658,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 772:
-		goto st_case_772
+	case 771:
+		goto st_case_771
 	case 271:
 		goto st_case_271
 	case 272:
@@ -670,10 +670,10 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_274
 	case 275:
 		goto st_case_275
+	case 772:
+		goto st_case_772
 	case 276:
 		goto st_case_276
-	case 773:
-		goto st_case_773
 	case 277:
 		goto st_case_277
 	case 278:
@@ -682,10 +682,10 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_279
 	case 280:
 		goto st_case_280
+	case 773:
+		goto st_case_773
 	case 281:
 		goto st_case_281
-	case 774:
-		goto st_case_774
 	case 282:
 		goto st_case_282
 	case 283:
@@ -1636,8 +1636,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_755
 	case 756:
 		goto st_case_756
-	case 757:
-		goto st_case_757
 	}
 	goto st_out
 	st_case_1:
@@ -1684,7 +1682,7 @@ tr417:
 	{goto st273 }
 
 	goto st0
-//line msg_parse.go:1679
+//line msg_parse.go:1677
 st_case_0:
 	st0:
 		cs = 0
@@ -1700,7 +1698,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1695
+//line msg_parse.go:1693
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1747,7 +1745,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1742
+//line msg_parse.go:1740
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1763,7 +1761,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1758
+//line msg_parse.go:1756
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1780,7 +1778,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1775
+//line msg_parse.go:1773
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1833,7 +1831,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1828
+//line msg_parse.go:1826
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1862,7 +1860,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1857
+//line msg_parse.go:1855
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1888,21 +1886,21 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1883
+//line msg_parse.go:1881
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
 //line sip.rl:265
- {goto st280 } 
-	goto st758
-	st758:
+ {goto st279 } 
+	goto st757
+	st757:
 		if p++; p == pe {
-			goto _test_eof758
+			goto _test_eof757
 		}
-	st_case_758:
-//line msg_parse.go:1897
+	st_case_757:
+//line msg_parse.go:1895
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1915,7 +1913,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1910
+//line msg_parse.go:1908
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2053,7 +2051,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2048
+//line msg_parse.go:2046
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2082,7 +2080,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2077
+//line msg_parse.go:2075
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2110,7 +2108,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2105
+//line msg_parse.go:2103
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2126,7 +2124,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2121
+//line msg_parse.go:2119
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2142,7 +2140,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2137
+//line msg_parse.go:2135
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2236,7 +2234,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2231
+//line msg_parse.go:2229
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2310,7 +2308,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2305
+//line msg_parse.go:2303
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2335,7 +2333,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2330
+//line msg_parse.go:2328
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2372,7 +2370,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2367
+//line msg_parse.go:2365
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2400,7 +2398,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2395
+//line msg_parse.go:2393
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2428,7 +2426,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2423
+//line msg_parse.go:2421
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2456,7 +2454,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2451
+//line msg_parse.go:2449
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2484,7 +2482,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2479
+//line msg_parse.go:2477
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2538,7 +2536,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2533
+//line msg_parse.go:2531
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2673,7 +2671,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2668
+//line msg_parse.go:2666
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2703,7 +2701,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2698
+//line msg_parse.go:2696
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2945,21 +2943,21 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2940
+//line msg_parse.go:2938
 		if data[p] == 10 {
 			goto tr65
 		}
 		goto st0
 tr65:
 //line sip.rl:265
- {goto st280 } 
-	goto st759
-	st759:
+ {goto st279 } 
+	goto st758
+	st758:
 		if p++; p == pe {
-			goto _test_eof759
+			goto _test_eof758
 		}
-	st_case_759:
-//line msg_parse.go:2954
+	st_case_758:
+//line msg_parse.go:2952
 		goto st0
 tr52:
 //line sip.rl:232
@@ -2972,7 +2970,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2967
+//line msg_parse.go:2965
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3075,7 +3073,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3070
+//line msg_parse.go:3068
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3131,7 +3129,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3126
+//line msg_parse.go:3124
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3163,7 +3161,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3158
+//line msg_parse.go:3156
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3200,7 +3198,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3195
+//line msg_parse.go:3193
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3228,7 +3226,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3223
+//line msg_parse.go:3221
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3256,7 +3254,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3251
+//line msg_parse.go:3249
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3284,7 +3282,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3279
+//line msg_parse.go:3277
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3312,7 +3310,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3307
+//line msg_parse.go:3305
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3340,7 +3338,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3335
+//line msg_parse.go:3333
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3357,7 +3355,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3352
+//line msg_parse.go:3350
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3581,7 +3579,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3576
+//line msg_parse.go:3574
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3642,7 +3640,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3637
+//line msg_parse.go:3635
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3676,7 +3674,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3671
+//line msg_parse.go:3669
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3725,7 +3723,7 @@ tr106:
 
 //line sip.rl:267
  {goto st103 } 
-	goto st760
+	goto st759
 tr110:
 //line sip.rl:170
 
@@ -3742,7 +3740,7 @@ tr110:
 
 //line sip.rl:268
  {goto st68 } 
-	goto st760
+	goto st759
 tr122:
 //line sip.rl:170
 
@@ -3755,14 +3753,14 @@ tr122:
 	via = nil
 
 //line sip.rl:265
- {goto st280 } 
-	goto st760
-	st760:
+ {goto st279 } 
+	goto st759
+	st759:
 		if p++; p == pe {
-			goto _test_eof760
+			goto _test_eof759
 		}
-	st_case_760:
-//line msg_parse.go:3757
+	st_case_759:
+//line msg_parse.go:3755
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3808,7 +3806,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3803
+//line msg_parse.go:3801
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3879,7 +3877,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3874
+//line msg_parse.go:3872
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3942,7 +3940,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3937
+//line msg_parse.go:3935
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4065,7 +4063,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4060
+//line msg_parse.go:4058
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4142,7 +4140,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4137
+//line msg_parse.go:4135
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4198,7 +4196,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4193
+//line msg_parse.go:4191
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4232,7 +4230,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4227
+//line msg_parse.go:4225
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4269,7 +4267,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4264
+//line msg_parse.go:4262
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4297,7 +4295,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4292
+//line msg_parse.go:4290
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4325,7 +4323,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4320
+//line msg_parse.go:4318
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4353,7 +4351,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4348
+//line msg_parse.go:4346
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4381,7 +4379,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4376
+//line msg_parse.go:4374
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4409,7 +4407,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4404
+//line msg_parse.go:4402
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4426,7 +4424,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4421
+//line msg_parse.go:4419
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4512,7 +4510,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4507
+//line msg_parse.go:4505
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4596,7 +4594,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4591
+//line msg_parse.go:4589
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4651,7 +4649,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4646
+//line msg_parse.go:4644
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4681,7 +4679,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4676
+//line msg_parse.go:4674
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4739,7 +4737,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4734
+//line msg_parse.go:4732
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4794,7 +4792,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4789
+//line msg_parse.go:4787
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4824,7 +4822,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4819
+//line msg_parse.go:4817
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4882,7 +4880,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4877
+//line msg_parse.go:4875
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4940,7 +4938,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4935
+//line msg_parse.go:4933
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4987,7 +4985,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4982
+//line msg_parse.go:4980
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5040,7 +5038,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5035
+//line msg_parse.go:5033
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5074,7 +5072,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5069
+//line msg_parse.go:5067
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5119,7 +5117,7 @@ tr184:
 
 //line sip.rl:267
  {goto st103 } 
-	goto st761
+	goto st760
 tr193:
 //line sip.rl:72
 
@@ -5132,7 +5130,7 @@ tr193:
 
 //line sip.rl:268
  {goto st68 } 
-	goto st761
+	goto st760
 tr199:
 //line sip.rl:143
 
@@ -5141,14 +5139,14 @@ tr199:
 	via = nil
 
 //line sip.rl:265
- {goto st280 } 
-	goto st761
-	st761:
+ {goto st279 } 
+	goto st760
+	st760:
 		if p++; p == pe {
-			goto _test_eof761
+			goto _test_eof760
 		}
-	st_case_761:
-//line msg_parse.go:5143
+	st_case_760:
+//line msg_parse.go:5141
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5194,7 +5192,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5189
+//line msg_parse.go:5187
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5226,7 +5224,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5221
+//line msg_parse.go:5219
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5288,7 +5286,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5283
+//line msg_parse.go:5281
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5396,7 +5394,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5391
+//line msg_parse.go:5389
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5448,7 +5446,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5443
+//line msg_parse.go:5441
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5515,7 +5513,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5510
+//line msg_parse.go:5508
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5546,7 +5544,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5541
+//line msg_parse.go:5539
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5582,7 +5580,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5577
+//line msg_parse.go:5575
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5704,7 +5702,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5699
+//line msg_parse.go:5697
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5809,7 +5807,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5804
+//line msg_parse.go:5802
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5893,7 +5891,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5888
+//line msg_parse.go:5886
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5954,7 +5952,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5949
+//line msg_parse.go:5947
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5988,7 +5986,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5983
+//line msg_parse.go:5981
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6033,7 +6031,7 @@ tr230:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st762
+	goto st761
 tr234:
 //line sip.rl:213
 
@@ -6046,7 +6044,7 @@ tr234:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st762
+	goto st761
 tr246:
 //line sip.rl:213
 
@@ -6059,14 +6057,14 @@ tr246:
 	addr = nil
 
 //line sip.rl:265
- {goto st280 } 
-	goto st762
-	st762:
+ {goto st279 } 
+	goto st761
+	st761:
 		if p++; p == pe {
-			goto _test_eof762
+			goto _test_eof761
 		}
-	st_case_762:
-//line msg_parse.go:6061
+	st_case_761:
+//line msg_parse.go:6059
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6112,7 +6110,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6107
+//line msg_parse.go:6105
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6183,7 +6181,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6178
+//line msg_parse.go:6176
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6246,7 +6244,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6241
+//line msg_parse.go:6239
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6369,7 +6367,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6364
+//line msg_parse.go:6362
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6446,7 +6444,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6441
+//line msg_parse.go:6439
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6502,7 +6500,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6497
+//line msg_parse.go:6495
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6536,7 +6534,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6531
+//line msg_parse.go:6529
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6573,7 +6571,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6568
+//line msg_parse.go:6566
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6601,7 +6599,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6596
+//line msg_parse.go:6594
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6629,7 +6627,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6624
+//line msg_parse.go:6622
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6657,7 +6655,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6652
+//line msg_parse.go:6650
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6685,7 +6683,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6680
+//line msg_parse.go:6678
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6713,7 +6711,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6708
+//line msg_parse.go:6706
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6730,7 +6728,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6725
+//line msg_parse.go:6723
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6816,7 +6814,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6811
+//line msg_parse.go:6809
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6917,7 +6915,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6912
+//line msg_parse.go:6910
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6957,7 +6955,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6952
+//line msg_parse.go:6950
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6978,7 +6976,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6973
+//line msg_parse.go:6971
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7075,7 +7073,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7070
+//line msg_parse.go:7068
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7143,7 +7141,7 @@ tr285:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st763
+	goto st762
 tr289:
 //line sip.rl:72
 
@@ -7152,7 +7150,7 @@ tr289:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st763
+	goto st762
 tr293:
 //line sip.rl:217
 
@@ -7161,14 +7159,14 @@ tr293:
 	addr = nil
 
 //line sip.rl:265
- {goto st280 } 
-	goto st763
-	st763:
+ {goto st279 } 
+	goto st762
+	st762:
 		if p++; p == pe {
-			goto _test_eof763
+			goto _test_eof762
 		}
-	st_case_763:
-//line msg_parse.go:7163
+	st_case_762:
+//line msg_parse.go:7161
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7382,7 +7380,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7377
+//line msg_parse.go:7375
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7424,7 +7422,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7419
+//line msg_parse.go:7417
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7486,7 +7484,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7481
+//line msg_parse.go:7479
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7550,7 +7548,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7545
+//line msg_parse.go:7543
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7582,7 +7580,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7577
+//line msg_parse.go:7575
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7642,7 +7640,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7637
+//line msg_parse.go:7635
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7710,7 +7708,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7705
+//line msg_parse.go:7703
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7766,7 +7764,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7761
+//line msg_parse.go:7759
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7796,7 +7794,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7791
+//line msg_parse.go:7789
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7833,7 +7831,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7828
+//line msg_parse.go:7826
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7861,7 +7859,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7856
+//line msg_parse.go:7854
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7889,7 +7887,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7884
+//line msg_parse.go:7882
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7917,7 +7915,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7912
+//line msg_parse.go:7910
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7945,7 +7943,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7940
+//line msg_parse.go:7938
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7973,7 +7971,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7968
+//line msg_parse.go:7966
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7990,7 +7988,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7985
+//line msg_parse.go:7983
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8132,7 +8130,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8127
+//line msg_parse.go:8125
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8198,7 +8196,7 @@ tr345:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st764
+	goto st763
 tr349:
 //line sip.rl:72
 
@@ -8207,7 +8205,7 @@ tr349:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st764
+	goto st763
 tr375:
 //line sip.rl:217
 
@@ -8216,14 +8214,14 @@ tr375:
 	addr = nil
 
 //line sip.rl:265
- {goto st280 } 
-	goto st764
-	st764:
+ {goto st279 } 
+	goto st763
+	st763:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof763
 		}
-	st_case_764:
-//line msg_parse.go:8218
+	st_case_763:
+//line msg_parse.go:8216
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8334,7 +8332,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8329
+//line msg_parse.go:8327
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8379,7 +8377,7 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8374
+//line msg_parse.go:8372
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8445,7 +8443,7 @@ tr355:
 			goto _test_eof246
 		}
 	st_case_246:
-//line msg_parse.go:8440
+//line msg_parse.go:8438
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8490,13 +8488,13 @@ tr361:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st765
-	st765:
+	goto st764
+	st764:
 		if p++; p == pe {
-			goto _test_eof765
+			goto _test_eof764
 		}
-	st_case_765:
-//line msg_parse.go:8491
+	st_case_764:
+//line msg_parse.go:8489
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8535,7 +8533,7 @@ tr359:
 			goto _test_eof247
 		}
 	st_case_247:
-//line msg_parse.go:8530
+//line msg_parse.go:8528
 		if data[p] == 10 {
 			goto st248
 		}
@@ -8582,7 +8580,7 @@ tr356:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st766
+	goto st765
 tr366:
 //line sip.rl:72
 
@@ -8591,13 +8589,13 @@ tr366:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st766
-	st766:
+	goto st765
+	st765:
 		if p++; p == pe {
-			goto _test_eof766
+			goto _test_eof765
 		}
-	st_case_766:
-//line msg_parse.go:8592
+	st_case_765:
+//line msg_parse.go:8590
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8654,7 +8652,7 @@ tr338:
 			goto _test_eof250
 		}
 	st_case_250:
-//line msg_parse.go:8649
+//line msg_parse.go:8647
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8720,7 +8718,7 @@ tr365:
 			goto _test_eof251
 		}
 	st_case_251:
-//line msg_parse.go:8715
+//line msg_parse.go:8713
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8759,13 +8757,13 @@ tr371:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st767
-	st767:
+	goto st766
+	st766:
 		if p++; p == pe {
-			goto _test_eof767
+			goto _test_eof766
 		}
-	st_case_767:
-//line msg_parse.go:8760
+	st_case_766:
+//line msg_parse.go:8758
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8804,7 +8802,7 @@ tr369:
 			goto _test_eof252
 		}
 	st_case_252:
-//line msg_parse.go:8799
+//line msg_parse.go:8797
 		if data[p] == 10 {
 			goto st253
 		}
@@ -8850,13 +8848,13 @@ tr367:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st768
-	st768:
+	goto st767
+	st767:
 		if p++; p == pe {
-			goto _test_eof768
+			goto _test_eof767
 		}
-	st_case_768:
-//line msg_parse.go:8851
+	st_case_767:
+//line msg_parse.go:8849
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8929,13 +8927,13 @@ tr357:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st769
-	st769:
+	goto st768
+	st768:
 		if p++; p == pe {
-			goto _test_eof769
+			goto _test_eof768
 		}
-	st_case_769:
-//line msg_parse.go:8930
+	st_case_768:
+//line msg_parse.go:8928
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9008,7 +9006,7 @@ tr358:
 
 //line sip.rl:260
  {goto st256 } 
-	goto st770
+	goto st769
 tr368:
 //line sip.rl:208
 
@@ -9022,13 +9020,13 @@ tr368:
 
 //line sip.rl:262
  {goto st153 } 
-	goto st770
-	st770:
+	goto st769
+	st769:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof769
 		}
-	st_case_770:
-//line msg_parse.go:9023
+	st_case_769:
+//line msg_parse.go:9021
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9045,7 +9043,7 @@ tr339:
 			goto _test_eof255
 		}
 	st_case_255:
-//line msg_parse.go:9040
+//line msg_parse.go:9038
 		if data[p] == 10 {
 			goto tr375
 		}
@@ -9107,7 +9105,7 @@ tr376:
 			goto _test_eof257
 		}
 	st_case_257:
-//line msg_parse.go:9102
+//line msg_parse.go:9100
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9219,7 +9217,7 @@ tr377:
 
 //line sip.rl:261
  {goto st188 } 
-	goto st771
+	goto st770
 tr382:
 //line sip.rl:192
 
@@ -9232,7 +9230,7 @@ tr382:
 
 //line sip.rl:261
  {goto st188 } 
-	goto st771
+	goto st770
 tr386:
 //line sip.rl:192
 
@@ -9245,13 +9243,13 @@ tr386:
 
 //line sip.rl:263
  {goto st229 } 
-	goto st771
-	st771:
+	goto st770
+	st770:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof770
 		}
-	st_case_771:
-//line msg_parse.go:9246
+	st_case_770:
+//line msg_parse.go:9244
 		goto st0
 	st259:
 		if p++; p == pe {
@@ -9329,7 +9327,7 @@ tr378:
 			goto _test_eof262
 		}
 	st_case_262:
-//line msg_parse.go:9324
+//line msg_parse.go:9322
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9440,7 +9438,7 @@ tr387:
 			goto _test_eof264
 		}
 	st_case_264:
-//line msg_parse.go:9435
+//line msg_parse.go:9433
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9494,7 +9492,7 @@ tr388:
 			goto _test_eof265
 		}
 	st_case_265:
-//line msg_parse.go:9489
+//line msg_parse.go:9487
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st264
 		}
@@ -9510,7 +9508,7 @@ tr389:
 			goto _test_eof266
 		}
 	st_case_266:
-//line msg_parse.go:9505
+//line msg_parse.go:9503
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st265
 		}
@@ -9526,7 +9524,7 @@ tr390:
 			goto _test_eof267
 		}
 	st_case_267:
-//line msg_parse.go:9521
+//line msg_parse.go:9519
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st266
 		}
@@ -9542,7 +9540,7 @@ tr391:
 			goto _test_eof268
 		}
 	st_case_268:
-//line msg_parse.go:9537
+//line msg_parse.go:9535
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st267
 		}
@@ -9558,7 +9556,7 @@ tr392:
 			goto _test_eof269
 		}
 	st_case_269:
-//line msg_parse.go:9553
+//line msg_parse.go:9551
 		if 128 <= data[p] && data[p] <= 191 {
 			goto st268
 		}
@@ -9574,7 +9572,7 @@ tr393:
 			goto _test_eof270
 		}
 	st_case_270:
-//line msg_parse.go:9569
+//line msg_parse.go:9567
 		if data[p] == 10 {
 			goto tr403
 		}
@@ -9590,14 +9588,14 @@ tr403:
 	}
 }
 //line sip.rl:265
- {goto st280 } 
-	goto st772
-	st772:
+ {goto st279 } 
+	goto st771
+	st771:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof771
 		}
-	st_case_772:
-//line msg_parse.go:9592
+	st_case_771:
+//line msg_parse.go:9590
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9610,7 +9608,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9605
+//line msg_parse.go:9603
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9633,83 +9631,66 @@ tr394:
 		}
 	st_case_273:
 		switch data[p] {
+		case 9:
+			goto tr405
+		case 32:
+			goto tr405
 		case 33:
-			goto st274
+			goto st273
 		case 37:
-			goto st274
+			goto st273
 		case 39:
-			goto st274
+			goto st273
+		case 58:
+			goto tr407
 		case 126:
-			goto st274
+			goto st273
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
+					goto st273
 				}
 			case data[p] >= 42:
-				goto st274
+				goto st273
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
+					goto st273
 				}
 			case data[p] >= 65:
-				goto st274
+				goto st273
 			}
 		default:
-			goto st274
+			goto st273
 		}
 		goto st0
+tr405:
+//line sip.rl:179
+
+	name = string(data[mark:p])
+
+	goto st274
 	st274:
 		if p++; p == pe {
 			goto _test_eof274
 		}
 	st_case_274:
+//line msg_parse.go:9675
 		switch data[p] {
 		case 9:
-			goto tr406
-		case 32:
-			goto tr406
-		case 33:
-			goto st274
-		case 37:
 			goto st274
-		case 39:
+		case 32:
 			goto st274
 		case 58:
-			goto tr407
-		case 126:
-			goto st274
-		}
-		switch {
-		case data[p] < 48:
-			switch {
-			case data[p] > 43:
-				if 45 <= data[p] && data[p] <= 46 {
-					goto st274
-				}
-			case data[p] >= 42:
-				goto st274
-			}
-		case data[p] > 57:
-			switch {
-			case data[p] > 90:
-				if 95 <= data[p] && data[p] <= 122 {
-					goto st274
-				}
-			case data[p] >= 65:
-				goto st274
-			}
-		default:
-			goto st274
+			goto st275
 		}
 		goto st0
-tr406:
+tr407:
 //line sip.rl:179
 
 	name = string(data[mark:p])
@@ -9720,28 +9701,7 @@ tr406:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9715
-		switch data[p] {
-		case 9:
-			goto st275
-		case 32:
-			goto st275
-		case 58:
-			goto st276
-		}
-		goto st0
-tr407:
-//line sip.rl:179
-
-	name = string(data[mark:p])
-
-	goto st276
-	st276:
-		if p++; p == pe {
-			goto _test_eof276
-		}
-	st_case_276:
-//line msg_parse.go:9736
+//line msg_parse.go:9696
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9751,13 +9711,13 @@ tr407:
 		}
 		switch _widec {
 		case 9:
-			goto st276
+			goto st275
 		case 32:
-			goto st276
+			goto st275
 		case 269:
 			goto tr410
 		case 525:
-			goto st277
+			goto st276
 		}
 		switch {
 		case _widec > 12:
@@ -9769,7 +9729,7 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:540
+//line sip.rl:541
 value=nil
 //line sip.rl:72
 
@@ -9778,20 +9738,32 @@ value=nil
 
 //line sip.rl:266
  {goto st263 } 
-	goto st773
-	st773:
+	goto st772
+	st772:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof772
+		}
+	st_case_772:
+//line msg_parse.go:9739
+		goto st0
+	st276:
+		if p++; p == pe {
+			goto _test_eof276
+		}
+	st_case_276:
+		if data[p] == 10 {
+			goto st277
 		}
-	st_case_773:
-//line msg_parse.go:9779
 		goto st0
 	st277:
 		if p++; p == pe {
 			goto _test_eof277
 		}
 	st_case_277:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st278
+		case 32:
 			goto st278
 		}
 		goto st0
@@ -9802,31 +9774,19 @@ value=nil
 	st_case_278:
 		switch data[p] {
 		case 9:
-			goto st279
+			goto st278
 		case 32:
-			goto st279
+			goto st278
 		}
-		goto st0
+		goto tr410
 	st279:
 		if p++; p == pe {
 			goto _test_eof279
 		}
 	st_case_279:
-		switch data[p] {
-		case 9:
-			goto st279
-		case 32:
-			goto st279
-		}
-		goto tr410
-	st280:
-		if p++; p == pe {
-			goto _test_eof280
-		}
-	st_case_280:
 		switch data[p] {
 		case 13:
-			goto st281
+			goto st280
 		case 33:
 			goto tr415
 		case 37:
@@ -9859,25 +9819,25 @@ value=nil
 			goto tr415
 		}
 		goto st0
-	st281:
+	st280:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof280
 		}
-	st_case_281:
+	st_case_280:
 		if data[p] == 10 {
 			goto tr416
 		}
 		goto st0
 tr560:
 //line sip.rl:265
- {goto st280 } 
-	goto st774
+ {goto st279 } 
+	goto st773
 tr416:
 //line sip.rl:76
 
-	{p++; cs = 774; goto _out }
+	{p++; cs = 773; goto _out }
 
-	goto st774
+	goto st773
 tr443:
 //line sip.rl:72
 
@@ -9886,7 +9846,7 @@ tr443:
 
 //line sip.rl:266
  {goto st263 } 
-	goto st774
+	goto st773
 tr542:
 //line sip.rl:72
 
@@ -9895,9 +9855,9 @@ tr542:
 
 //line sip.rl:264
  {goto st34 } 
-	goto st774
+	goto st773
 tr577:
-//line sip.rl:542
+//line sip.rl:543
 value=nil
 //line sip.rl:72
 
@@ -9906,7 +9866,7 @@ value=nil
 
 //line sip.rl:260
  {goto st256 } 
-	goto st774
+	goto st773
 tr963:
 //line sip.rl:139
 
@@ -9919,13 +9879,13 @@ tr963:
 
 //line sip.rl:267
  {goto st103 } 
-	goto st774
-	st774:
+	goto st773
+	st773:
 		if p++; p == pe {
-			goto _test_eof774
+			goto _test_eof773
 		}
-	st_case_774:
-//line msg_parse.go:9920
+	st_case_773:
+//line msg_parse.go:9880
 		goto st0
 tr415:
 //line sip.rl:80
@@ -9937,93 +9897,93 @@ tr415:
 	p--
 
 
-	goto st282
-	st282:
+	goto st281
+	st281:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof281
 		}
-	st_case_282:
-//line msg_parse.go:9938
+	st_case_281:
+//line msg_parse.go:9898
 		switch data[p] {
 		case 65:
-			goto st283
+			goto st282
 		case 66:
-			goto st364
+			goto st363
 		case 67:
-			goto st365
+			goto st364
 		case 68:
-			goto st460
+			goto st459
 		case 69:
-			goto st464
+			goto st463
 		case 70:
-			goto st490
+			goto st489
 		case 73:
-			goto st494
+			goto st493
 		case 75:
-			goto st505
+			goto st504
 		case 76:
-			goto st435
+			goto st434
 		case 77:
-			goto st506
+			goto st505
 		case 79:
-			goto st550
+			goto st549
 		case 80:
-			goto st562
+			goto st561
 		case 82:
-			goto st620
+			goto st619
 		case 83:
-			goto st680
+			goto st679
 		case 84:
-			goto st698
+			goto st697
 		case 85:
-			goto st708
+			goto st707
 		case 86:
-			goto st728
+			goto st727
 		case 87:
-			goto st736
+			goto st735
 		case 97:
-			goto st283
+			goto st282
 		case 98:
-			goto st364
+			goto st363
 		case 99:
-			goto st365
+			goto st364
 		case 100:
-			goto st460
+			goto st459
 		case 101:
-			goto st464
+			goto st463
 		case 102:
-			goto st490
+			goto st489
 		case 105:
-			goto st494
+			goto st493
 		case 107:
-			goto st505
+			goto st504
 		case 108:
-			goto st435
+			goto st434
 		case 109:
-			goto st506
+			goto st505
 		case 111:
-			goto st550
+			goto st549
 		case 112:
-			goto st562
+			goto st561
 		case 114:
-			goto st620
+			goto st619
 		case 115:
-			goto st680
+			goto st679
 		case 116:
-			goto st698
+			goto st697
 		case 117:
-			goto st708
+			goto st707
 		case 118:
-			goto st728
+			goto st727
 		case 119:
-			goto st736
+			goto st735
 		}
 		goto tr417
-	st283:
+	st282:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof282
 		}
-	st_case_283:
+	st_case_282:
 		switch data[p] {
 		case 9:
 			goto tr436
@@ -10032,328 +9992,328 @@ tr415:
 		case 58:
 			goto tr437
 		case 67:
-			goto st289
+			goto st288
 		case 76:
-			goto st318
+			goto st317
 		case 85:
-			goto st337
+			goto st336
 		case 99:
-			goto st289
+			goto st288
 		case 108:
-			goto st318
+			goto st317
 		case 117:
-			goto st337
+			goto st336
 		}
 		goto tr417
 tr436:
 //line sip.rl:459
 value=&msg.AcceptContact
-	goto st284
+	goto st283
 tr451:
 //line sip.rl:458
 value=&msg.Accept
-	goto st284
+	goto st283
 tr470:
 //line sip.rl:460
 value=&msg.AcceptEncoding
-	goto st284
+	goto st283
 tr479:
 //line sip.rl:461
 value=&msg.AcceptLanguage
-	goto st284
+	goto st283
 tr490:
 //line sip.rl:464
 value=&msg.AlertInfo
-	goto st284
+	goto st283
 tr494:
 //line sip.rl:462
 value=&msg.Allow
-	goto st284
+	goto st283
 tr503:
 //line sip.rl:463
 value=&msg.AllowEvents
-	goto st284
+	goto st283
 tr523:
 //line sip.rl:465
 value=&msg.AuthenticationInfo
-	goto st284
+	goto st283
 tr533:
 //line sip.rl:466
 value=&msg.Authorization
-	goto st284
+	goto st283
 tr535:
 //line sip.rl:483
 value=&msg.ReferredBy
-	goto st284
+	goto st283
 tr565:
 //line sip.rl:470
 value=&msg.CallInfo
-	goto st284
+	goto st283
 tr598:
 //line sip.rl:467
 value=&msg.ContentDisposition
-	goto st284
+	goto st283
 tr607:
 //line sip.rl:469
 value=&msg.ContentEncoding
-	goto st284
+	goto st283
 tr617:
 //line sip.rl:468
 value=&msg.ContentLanguage
-	goto st284
+	goto st283
 tr652:
 //line sip.rl:471
 value=&msg.Date
-	goto st284
+	goto st283
 tr665:
 //line sip.rl:472
 value=&msg.ErrorInfo
-	goto st284
+	goto st283
 tr670:
 //line sip.rl:473
 value=&msg.Event
-	goto st284
+	goto st283
 tr699:
 //line sip.rl:474
 value=&msg.InReplyTo
-	goto st284
+	goto st283
 tr701:
 //line sip.rl:488
 value=&msg.Supported
-	goto st284
+	goto st283
 tr733:
 //line sip.rl:476
 value=&msg.MIMEVersion
-	goto st284
+	goto st283
 tr761:
 //line sip.rl:477
 value=&msg.Organization
-	goto st284
+	goto st283
 tr791:
 //line sip.rl:478
 value=&msg.Priority
-	goto st284
+	goto st283
 tr810:
 //line sip.rl:479
 value=&msg.ProxyAuthenticate
-	goto st284
+	goto st283
 tr820:
 //line sip.rl:480
 value=&msg.ProxyAuthorization
-	goto st284
+	goto st283
 tr828:
 //line sip.rl:481
 value=&msg.ProxyRequire
-	goto st284
+	goto st283
 tr830:
 //line sip.rl:482
 value=&msg.ReferTo
-	goto st284
+	goto st283
 tr880:
 //line sip.rl:475
 value=&msg.ReplyTo
-	goto st284
+	goto st283
 tr886:
 //line sip.rl:484
 value=&msg.Require
-	goto st284
+	goto st283
 tr896:
 //line sip.rl:485
 value=&msg.RetryAfter
-	goto st284
+	goto st283
 tr903:
 //line sip.rl:487
 value=&msg.Subject
-	goto st284
+	goto st283
 tr911:
 //line sip.rl:486
 value=&msg.Server
-	goto st284
+	goto st283
 tr935:
 //line sip.rl:489
 value=&msg.Timestamp
-	goto st284
+	goto st283
 tr948:
 //line sip.rl:490
 value=&msg.Unsupported
-	goto st284
+	goto st283
 tr958:
 //line sip.rl:491
 value=&msg.UserAgent
-	goto st284
+	goto st283
 tr975:
 //line sip.rl:492
 value=&msg.Warning
-	goto st284
+	goto st283
 tr991:
 //line sip.rl:493
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st283
+	st283:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof283
 		}
-	st_case_284:
-//line msg_parse.go:10189
+	st_case_283:
+//line msg_parse.go:10149
 		switch data[p] {
 		case 9:
-			goto st284
+			goto st283
 		case 32:
-			goto st284
+			goto st283
 		case 58:
-			goto st285
+			goto st284
 		}
 		goto st0
 tr437:
 //line sip.rl:459
 value=&msg.AcceptContact
-	goto st285
+	goto st284
 tr453:
 //line sip.rl:458
 value=&msg.Accept
-	goto st285
+	goto st284
 tr471:
 //line sip.rl:460
 value=&msg.AcceptEncoding
-	goto st285
+	goto st284
 tr480:
 //line sip.rl:461
 value=&msg.AcceptLanguage
-	goto st285
+	goto st284
 tr491:
 //line sip.rl:464
 value=&msg.AlertInfo
-	goto st285
+	goto st284
 tr496:
 //line sip.rl:462
 value=&msg.Allow
-	goto st285
+	goto st284
 tr504:
 //line sip.rl:463
 value=&msg.AllowEvents
-	goto st285
+	goto st284
 tr524:
 //line sip.rl:465
 value=&msg.AuthenticationInfo
-	goto st285
+	goto st284
 tr534:
 //line sip.rl:466
 value=&msg.Authorization
-	goto st285
+	goto st284
 tr536:
 //line sip.rl:483
 value=&msg.ReferredBy
-	goto st285
+	goto st284
 tr566:
 //line sip.rl:470
 value=&msg.CallInfo
-	goto st285
+	goto st284
 tr599:
 //line sip.rl:467
 value=&msg.ContentDisposition
-	goto st285
+	goto st284
 tr608:
 //line sip.rl:469
 value=&msg.ContentEncoding
-	goto st285
+	goto st284
 tr618:
 //line sip.rl:468
 value=&msg.ContentLanguage
-	goto st285
+	goto st284
 tr653:
 //line sip.rl:471
 value=&msg.Date
-	goto st285
+	goto st284
 tr666:
 //line sip.rl:472
 value=&msg.ErrorInfo
-	goto st285
+	goto st284
 tr671:
 //line sip.rl:473
 value=&msg.Event
-	goto st285
+	goto st284
 tr700:
 //line sip.rl:474
 value=&msg.InReplyTo
-	goto st285
+	goto st284
 tr702:
 //line sip.rl:488
 value=&msg.Supported
-	goto st285
+	goto st284
 tr734:
 //line sip.rl:476
 value=&msg.MIMEVersion
-	goto st285
+	goto st284
 tr762:
 //line sip.rl:477
 value=&msg.Organization
-	goto st285
+	goto st284
 tr792:
 //line sip.rl:478
 value=&msg.Priority
-	goto st285
+	goto st284
 tr811:
 //line sip.rl:479
 value=&msg.ProxyAuthenticate
-	goto st285
+	goto st284
 tr821:
 //line sip.rl:480
 value=&msg.ProxyAuthorization
-	goto st285
+	goto st284
 tr829:
 //line sip.rl:481
 value=&msg.ProxyRequire
-	goto st285
+	goto st284
 tr831:
 //line sip.rl:482
 value=&msg.ReferTo
-	goto st285
+	goto st284
 tr881:
 //line sip.rl:475
 value=&msg.ReplyTo
-	goto st285
+	goto st284
 tr887:
 //line sip.rl:484
 value=&msg.Require
-	goto st285
+	goto st284
 tr897:
 //line sip.rl:485
 value=&msg.RetryAfter
-	goto st285
+	goto st284
 tr904:
 //line sip.rl:487
 value=&msg.Subject
-	goto st285
+	goto st284
 tr912:
 //line sip.rl:486
 value=&msg.Server
-	goto st285
+	goto st284
 tr936:
 //line sip.rl:489
 value=&msg.Timestamp
-	goto st285
+	goto st284
 tr949:
 //line sip.rl:490
 value=&msg.Unsupported
-	goto st285
+	goto st284
 tr959:
 //line sip.rl:491
 value=&msg.UserAgent
-	goto st285
+	goto st284
 tr976:
 //line sip.rl:492
 value=&msg.Warning
-	goto st285
+	goto st284
 tr992:
 //line sip.rl:493
 value=&msg.WWWAuthenticate
-	goto st285
-	st285:
+	goto st284
+	st284:
 		if p++; p == pe {
-			goto _test_eof285
+			goto _test_eof284
 		}
-	st_case_285:
-//line msg_parse.go:10348
+	st_case_284:
+//line msg_parse.go:10308
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10363,13 +10323,13 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st285
+			goto st284
 		case 32:
-			goto st285
+			goto st284
 		case 269:
 			goto tr443
 		case 525:
-			goto st286
+			goto st285
 		}
 		switch {
 		case _widec > 12:
@@ -10380,12 +10340,24 @@ value=&msg.WWWAuthenticate
 			goto tr443
 		}
 		goto st0
+	st285:
+		if p++; p == pe {
+			goto _test_eof285
+		}
+	st_case_285:
+		if data[p] == 10 {
+			goto st286
+		}
+		goto st0
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st287
+		case 32:
 			goto st287
 		}
 		goto st0
@@ -10396,32 +10368,32 @@ value=&msg.WWWAuthenticate
 	st_case_287:
 		switch data[p] {
 		case 9:
-			goto st288
+			goto st287
 		case 32:
-			goto st288
+			goto st287
 		}
-		goto st0
+		goto tr443
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
 		}
 	st_case_288:
 		switch data[p] {
-		case 9:
-			goto st288
-		case 32:
-			goto st288
+		case 67:
+			goto st289
+		case 99:
+			goto st289
 		}
-		goto tr443
+		goto tr417
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 67:
+		case 69:
 			goto st290
-		case 99:
+		case 101:
 			goto st290
 		}
 		goto tr417
@@ -10431,9 +10403,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_290:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st291
-		case 101:
+		case 112:
 			goto st291
 		}
 		goto tr417
@@ -10443,9 +10415,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_291:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st292
-		case 112:
+		case 116:
 			goto st292
 		}
 		goto tr417
@@ -10455,10 +10427,14 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_292:
 		switch data[p] {
-		case 84:
-			goto st293
-		case 116:
+		case 9:
+			goto tr451
+		case 32:
+			goto tr451
+		case 45:
 			goto st293
+		case 58:
+			goto tr453
 		}
 		goto tr417
 	st293:
@@ -10467,14 +10443,18 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_293:
 		switch data[p] {
-		case 9:
-			goto tr451
-		case 32:
-			goto tr451
-		case 45:
+		case 67:
 			goto st294
-		case 58:
-			goto tr453
+		case 69:
+			goto st301
+		case 76:
+			goto st309
+		case 99:
+			goto st294
+		case 101:
+			goto st301
+		case 108:
+			goto st309
 		}
 		goto tr417
 	st294:
@@ -10483,18 +10463,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_294:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st295
-		case 69:
-			goto st302
-		case 76:
-			goto st310
-		case 99:
+		case 111:
 			goto st295
-		case 101:
-			goto st302
-		case 108:
-			goto st310
 		}
 		goto tr417
 	st295:
@@ -10503,9 +10475,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_295:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st296
-		case 111:
+		case 110:
 			goto st296
 		}
 		goto tr417
@@ -10515,9 +10487,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_296:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st297
-		case 110:
+		case 116:
 			goto st297
 		}
 		goto tr417
@@ -10527,9 +10499,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_297:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st298
-		case 116:
+		case 97:
 			goto st298
 		}
 		goto tr417
@@ -10539,9 +10511,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_298:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st299
-		case 97:
+		case 99:
 			goto st299
 		}
 		goto tr417
@@ -10551,9 +10523,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_299:
 		switch data[p] {
-		case 67:
+		case 84:
 			goto st300
-		case 99:
+		case 116:
 			goto st300
 		}
 		goto tr417
@@ -10563,10 +10535,12 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_300:
 		switch data[p] {
-		case 84:
-			goto st301
-		case 116:
-			goto st301
+		case 9:
+			goto tr436
+		case 32:
+			goto tr436
+		case 58:
+			goto tr437
 		}
 		goto tr417
 	st301:
@@ -10575,12 +10549,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_301:
 		switch data[p] {
-		case 9:
-			goto tr436
-		case 32:
-			goto tr436
-		case 58:
-			goto tr437
+		case 78:
+			goto st302
+		case 110:
+			goto st302
 		}
 		goto tr417
 	st302:
@@ -10589,9 +10561,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_302:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st303
-		case 110:
+		case 99:
 			goto st303
 		}
 		goto tr417
@@ -10601,9 +10573,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_303:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st304
-		case 99:
+		case 111:
 			goto st304
 		}
 		goto tr417
@@ -10613,9 +10585,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_304:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st305
-		case 111:
+		case 100:
 			goto st305
 		}
 		goto tr417
@@ -10625,9 +10597,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_305:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st306
-		case 100:
+		case 105:
 			goto st306
 		}
 		goto tr417
@@ -10637,9 +10609,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_306:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st307
-		case 105:
+		case 110:
 			goto st307
 		}
 		goto tr417
@@ -10649,9 +10621,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_307:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st308
-		case 110:
+		case 103:
 			goto st308
 		}
 		goto tr417
@@ -10661,10 +10633,12 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_308:
 		switch data[p] {
-		case 71:
-			goto st309
-		case 103:
-			goto st309
+		case 9:
+			goto tr470
+		case 32:
+			goto tr470
+		case 58:
+			goto tr471
 		}
 		goto tr417
 	st309:
@@ -10673,12 +10647,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_309:
 		switch data[p] {
-		case 9:
-			goto tr470
-		case 32:
-			goto tr470
-		case 58:
-			goto tr471
+		case 65:
+			goto st310
+		case 97:
+			goto st310
 		}
 		goto tr417
 	st310:
@@ -10687,9 +10659,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_310:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st311
-		case 97:
+		case 110:
 			goto st311
 		}
 		goto tr417
@@ -10699,9 +10671,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_311:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st312
-		case 110:
+		case 103:
 			goto st312
 		}
 		goto tr417
@@ -10711,9 +10683,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_312:
 		switch data[p] {
-		case 71:
+		case 85:
 			goto st313
-		case 103:
+		case 117:
 			goto st313
 		}
 		goto tr417
@@ -10723,9 +10695,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_313:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st314
-		case 117:
+		case 97:
 			goto st314
 		}
 		goto tr417
@@ -10735,9 +10707,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_314:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st315
-		case 97:
+		case 103:
 			goto st315
 		}
 		goto tr417
@@ -10747,9 +10719,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_315:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st316
-		case 103:
+		case 101:
 			goto st316
 		}
 		goto tr417
@@ -10759,10 +10731,12 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_316:
 		switch data[p] {
-		case 69:
-			goto st317
-		case 101:
-			goto st317
+		case 9:
+			goto tr479
+		case 32:
+			goto tr479
+		case 58:
+			goto tr480
 		}
 		goto tr417
 	st317:
@@ -10771,12 +10745,14 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_317:
 		switch data[p] {
-		case 9:
-			goto tr479
-		case 32:
-			goto tr479
-		case 58:
-			goto tr480
+		case 69:
+			goto st318
+		case 76:
+			goto st326
+		case 101:
+			goto st318
+		case 108:
+			goto st326
 		}
 		goto tr417
 	st318:
@@ -10785,14 +10761,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_318:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st319
-		case 76:
-			goto st327
-		case 101:
+		case 114:
 			goto st319
-		case 108:
-			goto st327
 		}
 		goto tr417
 	st319:
@@ -10801,9 +10773,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_319:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st320
-		case 114:
+		case 116:
 			goto st320
 		}
 		goto tr417
@@ -10812,10 +10784,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof320
 		}
 	st_case_320:
-		switch data[p] {
-		case 84:
-			goto st321
-		case 116:
+		if data[p] == 45 {
 			goto st321
 		}
 		goto tr417
@@ -10824,7 +10793,10 @@ value=&msg.WWWAuthenticate
 			goto _test_eof321
 		}
 	st_case_321:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st322
+		case 105:
 			goto st322
 		}
 		goto tr417
@@ -10834,9 +10806,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_322:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st323
-		case 105:
+		case 110:
 			goto st323
 		}
 		goto tr417
@@ -10846,9 +10818,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_323:
 		switch data[p] {
-		case 78:
+		case 70:
 			goto st324
-		case 110:
+		case 102:
 			goto st324
 		}
 		goto tr417
@@ -10858,9 +10830,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_324:
 		switch data[p] {
-		case 70:
+		case 79:
 			goto st325
-		case 102:
+		case 111:
 			goto st325
 		}
 		goto tr417
@@ -10870,11 +10842,13 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_325:
 		switch data[p] {
-		case 79:
-			goto st326
-		case 111:
-			goto st326
-		}
+		case 9:
+			goto tr490
+		case 32:
+			goto tr490
+		case 58:
+			goto tr491
+		}
 		goto tr417
 	st326:
 		if p++; p == pe {
@@ -10882,12 +10856,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_326:
 		switch data[p] {
-		case 9:
-			goto tr490
-		case 32:
-			goto tr490
-		case 58:
-			goto tr491
+		case 79:
+			goto st327
+		case 111:
+			goto st327
 		}
 		goto tr417
 	st327:
@@ -10896,9 +10868,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_327:
 		switch data[p] {
-		case 79:
+		case 87:
 			goto st328
-		case 111:
+		case 119:
 			goto st328
 		}
 		goto tr417
@@ -10908,10 +10880,14 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_328:
 		switch data[p] {
-		case 87:
-			goto st329
-		case 119:
+		case 9:
+			goto tr494
+		case 32:
+			goto tr494
+		case 45:
 			goto st329
+		case 58:
+			goto tr496
 		}
 		goto tr417
 	st329:
@@ -10920,14 +10896,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_329:
 		switch data[p] {
-		case 9:
-			goto tr494
-		case 32:
-			goto tr494
-		case 45:
+		case 69:
+			goto st330
+		case 101:
 			goto st330
-		case 58:
-			goto tr496
 		}
 		goto tr417
 	st330:
@@ -10936,9 +10908,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_330:
 		switch data[p] {
-		case 69:
+		case 86:
 			goto st331
-		case 101:
+		case 118:
 			goto st331
 		}
 		goto tr417
@@ -10948,9 +10920,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_331:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st332
-		case 118:
+		case 101:
 			goto st332
 		}
 		goto tr417
@@ -10960,9 +10932,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_332:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st333
-		case 101:
+		case 110:
 			goto st333
 		}
 		goto tr417
@@ -10972,9 +10944,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_333:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st334
-		case 110:
+		case 116:
 			goto st334
 		}
 		goto tr417
@@ -10984,9 +10956,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_334:
 		switch data[p] {
-		case 84:
+		case 83:
 			goto st335
-		case 116:
+		case 115:
 			goto st335
 		}
 		goto tr417
@@ -10996,10 +10968,12 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_335:
 		switch data[p] {
-		case 83:
-			goto st336
-		case 115:
-			goto st336
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
 		}
 		goto tr417
 	st336:
@@ -11008,12 +10982,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_336:
 		switch data[p] {
-		case 9:
-			goto tr503
-		case 32:
-			goto tr503
-		case 58:
-			goto tr504
+		case 84:
+			goto st337
+		case 116:
+			goto st337
 		}
 		goto tr417
 	st337:
@@ -11022,9 +10994,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_337:
 		switch data[p] {
-		case 84:
+		case 72:
 			goto st338
-		case 116:
+		case 104:
 			goto st338
 		}
 		goto tr417
@@ -11034,10 +11006,14 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_338:
 		switch data[p] {
-		case 72:
+		case 69:
 			goto st339
-		case 104:
+		case 79:
+			goto st354
+		case 101:
 			goto st339
+		case 111:
+			goto st354
 		}
 		goto tr417
 	st339:
@@ -11046,14 +11022,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_339:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st340
-		case 79:
-			goto st355
-		case 101:
+		case 110:
 			goto st340
-		case 111:
-			goto st355
 		}
 		goto tr417
 	st340:
@@ -11062,9 +11034,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_340:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st341
-		case 110:
+		case 116:
 			goto st341
 		}
 		goto tr417
@@ -11074,9 +11046,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_341:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st342
-		case 116:
+		case 105:
 			goto st342
 		}
 		goto tr417
@@ -11086,9 +11058,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_342:
 		switch data[p] {
-		case 73:
+		case 67:
 			goto st343
-		case 105:
+		case 99:
 			goto st343
 		}
 		goto tr417
@@ -11098,9 +11070,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_343:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st344
-		case 99:
+		case 97:
 			goto st344
 		}
 		goto tr417
@@ -11110,9 +11082,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_344:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st345
-		case 97:
+		case 116:
 			goto st345
 		}
 		goto tr417
@@ -11122,9 +11094,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_345:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st346
-		case 116:
+		case 105:
 			goto st346
 		}
 		goto tr417
@@ -11134,9 +11106,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_346:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st347
-		case 105:
+		case 111:
 			goto st347
 		}
 		goto tr417
@@ -11146,9 +11118,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_347:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st348
-		case 111:
+		case 110:
 			goto st348
 		}
 		goto tr417
@@ -11157,10 +11129,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof348
 		}
 	st_case_348:
-		switch data[p] {
-		case 78:
-			goto st349
-		case 110:
+		if data[p] == 45 {
 			goto st349
 		}
 		goto tr417
@@ -11169,7 +11138,10 @@ value=&msg.WWWAuthenticate
 			goto _test_eof349
 		}
 	st_case_349:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st350
+		case 105:
 			goto st350
 		}
 		goto tr417
@@ -11179,9 +11151,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_350:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st351
-		case 105:
+		case 110:
 			goto st351
 		}
 		goto tr417
@@ -11191,9 +11163,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_351:
 		switch data[p] {
-		case 78:
+		case 70:
 			goto st352
-		case 110:
+		case 102:
 			goto st352
 		}
 		goto tr417
@@ -11203,9 +11175,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_352:
 		switch data[p] {
-		case 70:
+		case 79:
 			goto st353
-		case 102:
+		case 111:
 			goto st353
 		}
 		goto tr417
@@ -11215,10 +11187,12 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_353:
 		switch data[p] {
-		case 79:
-			goto st354
-		case 111:
-			goto st354
+		case 9:
+			goto tr523
+		case 32:
+			goto tr523
+		case 58:
+			goto tr524
 		}
 		goto tr417
 	st354:
@@ -11227,12 +11201,10 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_354:
 		switch data[p] {
-		case 9:
-			goto tr523
-		case 32:
-			goto tr523
-		case 58:
-			goto tr524
+		case 82:
+			goto st355
+		case 114:
+			goto st355
 		}
 		goto tr417
 	st355:
@@ -11241,9 +11213,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_355:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st356
-		case 114:
+		case 105:
 			goto st356
 		}
 		goto tr417
@@ -11253,9 +11225,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_356:
 		switch data[p] {
-		case 73:
+		case 90:
 			goto st357
-		case 105:
+		case 122:
 			goto st357
 		}
 		goto tr417
@@ -11265,9 +11237,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_357:
 		switch data[p] {
-		case 90:
+		case 65:
 			goto st358
-		case 122:
+		case 97:
 			goto st358
 		}
 		goto tr417
@@ -11277,9 +11249,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_358:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st359
-		case 97:
+		case 116:
 			goto st359
 		}
 		goto tr417
@@ -11289,9 +11261,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_359:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st360
-		case 116:
+		case 105:
 			goto st360
 		}
 		goto tr417
@@ -11301,9 +11273,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_360:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st361
-		case 105:
+		case 111:
 			goto st361
 		}
 		goto tr417
@@ -11313,9 +11285,9 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_361:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st362
-		case 111:
+		case 110:
 			goto st362
 		}
 		goto tr417
@@ -11324,18 +11296,6 @@ value=&msg.WWWAuthenticate
 			goto _test_eof362
 		}
 	st_case_362:
-		switch data[p] {
-		case 78:
-			goto st363
-		case 110:
-			goto st363
-		}
-		goto tr417
-	st363:
-		if p++; p == pe {
-			goto _test_eof363
-		}
-	st_case_363:
 		switch data[p] {
 		case 9:
 			goto tr533
@@ -11345,11 +11305,11 @@ value=&msg.WWWAuthenticate
 			goto tr534
 		}
 		goto tr417
-	st364:
+	st363:
 		if p++; p == pe {
-			goto _test_eof364
+			goto _test_eof363
 		}
-	st_case_364:
+	st_case_363:
 		switch data[p] {
 		case 9:
 			goto tr535
@@ -11359,51 +11319,51 @@ value=&msg.WWWAuthenticate
 			goto tr536
 		}
 		goto tr417
-	st365:
+	st364:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof364
 		}
-	st_case_365:
+	st_case_364:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st365
 		case 32:
-			goto st366
+			goto st365
 		case 58:
-			goto st367
+			goto st366
 		case 65:
-			goto st371
+			goto st370
 		case 79:
-			goto st389
+			goto st388
 		case 83:
-			goto st446
+			goto st445
 		case 97:
-			goto st371
+			goto st370
 		case 111:
-			goto st389
+			goto st388
 		case 115:
-			goto st446
+			goto st445
 		}
 		goto tr417
-	st366:
+	st365:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof365
 		}
-	st_case_366:
+	st_case_365:
 		switch data[p] {
 		case 9:
-			goto st366
+			goto st365
 		case 32:
-			goto st366
+			goto st365
 		case 58:
-			goto st367
+			goto st366
 		}
 		goto st0
-	st367:
+	st366:
 		if p++; p == pe {
-			goto _test_eof367
+			goto _test_eof366
 		}
-	st_case_367:
+	st_case_366:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11413,13 +11373,13 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st367
+			goto st366
 		case 32:
-			goto st367
+			goto st366
 		case 269:
 			goto tr542
 		case 525:
-			goto st368
+			goto st367
 		}
 		switch {
 		case _widec > 12:
@@ -11430,12 +11390,24 @@ value=&msg.WWWAuthenticate
 			goto tr542
 		}
 		goto st0
+	st367:
+		if p++; p == pe {
+			goto _test_eof367
+		}
+	st_case_367:
+		if data[p] == 10 {
+			goto st368
+		}
+		goto st0
 	st368:
 		if p++; p == pe {
 			goto _test_eof368
 		}
 	st_case_368:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st369
+		case 32:
 			goto st369
 		}
 		goto st0
@@ -11446,23 +11418,23 @@ value=&msg.WWWAuthenticate
 	st_case_369:
 		switch data[p] {
 		case 9:
-			goto st370
+			goto st369
 		case 32:
-			goto st370
+			goto st369
 		}
-		goto st0
+		goto tr542
 	st370:
 		if p++; p == pe {
 			goto _test_eof370
 		}
 	st_case_370:
 		switch data[p] {
-		case 9:
-			goto st370
-		case 32:
-			goto st370
+		case 76:
+			goto st371
+		case 108:
+			goto st371
 		}
-		goto tr542
+		goto tr417
 	st371:
 		if p++; p == pe {
 			goto _test_eof371
@@ -11480,10 +11452,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof372
 		}
 	st_case_372:
-		switch data[p] {
-		case 76:
-			goto st373
-		case 108:
+		if data[p] == 45 {
 			goto st373
 		}
 		goto tr417
@@ -11492,7 +11461,10 @@ value=&msg.WWWAuthenticate
 			goto _test_eof373
 		}
 	st_case_373:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st374
+		case 105:
 			goto st374
 		}
 		goto tr417
@@ -11502,10 +11474,14 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_374:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st375
-		case 105:
+		case 78:
+			goto st385
+		case 100:
 			goto st375
+		case 110:
+			goto st385
 		}
 		goto tr417
 	st375:
@@ -11514,14 +11490,12 @@ value=&msg.WWWAuthenticate
 		}
 	st_case_375:
 		switch data[p] {
-		case 68:
+		case 9:
 			goto st376
-		case 78:
-			goto st386
-		case 100:
+		case 32:
 			goto st376
-		case 110:
-			goto st386
+		case 58:
+			goto st377
 		}
 		goto tr417
 	st376:
@@ -11531,32 +11505,18 @@ value=&msg.WWWAuthenticate
 	st_case_376:
 		switch data[p] {
 		case 9:
-			goto st377
+			goto st376
 		case 32:
-			goto st377
+			goto st376
 		case 58:
-			goto st378
+			goto st377
 		}
-		goto tr417
+		goto st0
 	st377:
 		if p++; p == pe {
 			goto _test_eof377
 		}
 	st_case_377:
-		switch data[p] {
-		case 9:
-			goto st377
-		case 32:
-			goto st377
-		case 58:
-			goto st378
-		}
-		goto st0
-	st378:
-		if p++; p == pe {
-			goto _test_eof378
-		}
-	st_case_378:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11566,15 +11526,15 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st378
+			goto st377
 		case 32:
-			goto st378
+			goto st377
 		case 37:
 			goto tr554
 		case 60:
 			goto tr554
 		case 525:
-			goto st383
+			goto st382
 		}
 		switch {
 		case _widec < 62:
@@ -11612,13 +11572,13 @@ tr554:
 
 	mark = p
 
-	goto st379
-	st379:
+	goto st378
+	st378:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof378
 		}
-	st_case_379:
-//line msg_parse.go:11613
+	st_case_378:
+//line msg_parse.go:11573
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11628,11 +11588,11 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st379
+			goto st378
 		case 60:
-			goto st379
+			goto st378
 		case 64:
-			goto st380
+			goto st379
 		case 269:
 			goto tr558
 		}
@@ -11641,75 +11601,75 @@ tr554:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st379
+					goto st378
 				}
 			case _widec >= 33:
-				goto st379
+				goto st378
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st379
+					goto st378
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st379
+					goto st378
 				}
 			default:
-				goto st379
+				goto st378
 			}
 		default:
-			goto st379
+			goto st378
 		}
 		goto st0
-	st380:
+	st379:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof379
 		}
-	st_case_380:
+	st_case_379:
 		switch data[p] {
 		case 37:
-			goto st381
+			goto st380
 		case 60:
-			goto st381
+			goto st380
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st381
+					goto st380
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st381
+					goto st380
 				}
 			default:
-				goto st381
+				goto st380
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st381
+					goto st380
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st381
+					goto st380
 				}
 			default:
-				goto st381
+				goto st380
 			}
 		default:
-			goto st381
+			goto st380
 		}
 		goto st0
-	st381:
+	st380:
 		if p++; p == pe {
-			goto _test_eof381
+			goto _test_eof380
 		}
-	st_case_381:
+	st_case_380:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11719,9 +11679,9 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st381
+			goto st380
 		case 60:
-			goto st381
+			goto st380
 		case 269:
 			goto tr558
 		}
@@ -11730,30 +11690,30 @@ tr554:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st381
+					goto st380
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st381
+					goto st380
 				}
 			default:
-				goto st381
+				goto st380
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st381
+					goto st380
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st381
+					goto st380
 				}
 			default:
-				goto st381
+				goto st380
 			}
 		default:
-			goto st381
+			goto st380
 		}
 		goto st0
 tr558:
@@ -11761,21 +11721,30 @@ tr558:
 
 	msg.CallID = string(data[mark:p])
 
-	goto st382
+	goto st381
 tr644:
 //line sip.rl:241
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st382
+	goto st381
+	st381:
+		if p++; p == pe {
+			goto _test_eof381
+		}
+	st_case_381:
+//line msg_parse.go:11728
+		if data[p] == 10 {
+			goto tr560
+		}
+		goto st0
 	st382:
 		if p++; p == pe {
 			goto _test_eof382
 		}
 	st_case_382:
-//line msg_parse.go:11768
 		if data[p] == 10 {
-			goto tr560
+			goto st383
 		}
 		goto st0
 	st383:
@@ -11783,7 +11752,10 @@ tr644:
 			goto _test_eof383
 		}
 	st_case_383:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st384
+		case 32:
 			goto st384
 		}
 		goto st0
@@ -11794,21 +11766,9 @@ tr644:
 	st_case_384:
 		switch data[p] {
 		case 9:
-			goto st385
-		case 32:
-			goto st385
-		}
-		goto st0
-	st385:
-		if p++; p == pe {
-			goto _test_eof385
-		}
-	st_case_385:
-		switch data[p] {
-		case 9:
-			goto st385
+			goto st384
 		case 32:
-			goto st385
+			goto st384
 		case 37:
 			goto tr554
 		case 60:
@@ -11845,15 +11805,27 @@ tr644:
 			goto tr554
 		}
 		goto st0
+	st385:
+		if p++; p == pe {
+			goto _test_eof385
+		}
+	st_case_385:
+		switch data[p] {
+		case 70:
+			goto st386
+		case 102:
+			goto st386
+		}
+		goto tr417
 	st386:
 		if p++; p == pe {
 			goto _test_eof386
 		}
 	st_case_386:
 		switch data[p] {
-		case 70:
+		case 79:
 			goto st387
-		case 102:
+		case 111:
 			goto st387
 		}
 		goto tr417
@@ -11863,10 +11835,12 @@ tr644:
 		}
 	st_case_387:
 		switch data[p] {
-		case 79:
-			goto st388
-		case 111:
-			goto st388
+		case 9:
+			goto tr565
+		case 32:
+			goto tr565
+		case 58:
+			goto tr566
 		}
 		goto tr417
 	st388:
@@ -11875,12 +11849,10 @@ tr644:
 		}
 	st_case_388:
 		switch data[p] {
-		case 9:
-			goto tr565
-		case 32:
-			goto tr565
-		case 58:
-			goto tr566
+		case 78:
+			goto st389
+		case 110:
+			goto st389
 		}
 		goto tr417
 	st389:
@@ -11889,9 +11861,9 @@ tr644:
 		}
 	st_case_389:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st390
-		case 110:
+		case 116:
 			goto st390
 		}
 		goto tr417
@@ -11901,10 +11873,14 @@ tr644:
 		}
 	st_case_390:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st391
-		case 116:
+		case 69:
+			goto st399
+		case 97:
 			goto st391
+		case 101:
+			goto st399
 		}
 		goto tr417
 	st391:
@@ -11913,14 +11889,10 @@ tr644:
 		}
 	st_case_391:
 		switch data[p] {
-		case 65:
+		case 67:
 			goto st392
-		case 69:
-			goto st400
-		case 97:
+		case 99:
 			goto st392
-		case 101:
-			goto st400
 		}
 		goto tr417
 	st392:
@@ -11929,9 +11901,9 @@ tr644:
 		}
 	st_case_392:
 		switch data[p] {
-		case 67:
+		case 84:
 			goto st393
-		case 99:
+		case 116:
 			goto st393
 		}
 		goto tr417
@@ -11940,18 +11912,6 @@ tr644:
 			goto _test_eof393
 		}
 	st_case_393:
-		switch data[p] {
-		case 84:
-			goto st394
-		case 116:
-			goto st394
-		}
-		goto tr417
-	st394:
-		if p++; p == pe {
-			goto _test_eof394
-		}
-	st_case_394:
 		switch data[p] {
 		case 9:
 			goto tr573
@@ -11964,80 +11924,80 @@ tr644:
 tr573:
 //line sip.rl:445
 addrp=lastAddr(&msg.Contact)
-	goto st395
+	goto st394
 tr684:
 //line sip.rl:446
 addrp=lastAddr(&msg.From)
-	goto st395
+	goto st394
 tr782:
 //line sip.rl:447
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
+	goto st394
 tr849:
 //line sip.rl:448
 addrp=lastAddr(&msg.RecordRoute)
-	goto st395
+	goto st394
 tr873:
 //line sip.rl:449
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
+	goto st394
 tr901:
 //line sip.rl:450
 addrp=lastAddr(&msg.Route)
-	goto st395
+	goto st394
 tr924:
 //line sip.rl:451
 addrp=lastAddr(&msg.To)
-	goto st395
-	st395:
+	goto st394
+	st394:
 		if p++; p == pe {
-			goto _test_eof395
+			goto _test_eof394
 		}
-	st_case_395:
-//line msg_parse.go:11989
+	st_case_394:
+//line msg_parse.go:11949
 		switch data[p] {
 		case 9:
-			goto st395
+			goto st394
 		case 32:
-			goto st395
+			goto st394
 		case 58:
-			goto st396
+			goto st395
 		}
 		goto st0
 tr574:
 //line sip.rl:445
 addrp=lastAddr(&msg.Contact)
-	goto st396
+	goto st395
 tr685:
 //line sip.rl:446
 addrp=lastAddr(&msg.From)
-	goto st396
+	goto st395
 tr783:
 //line sip.rl:447
 addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st396
+	goto st395
 tr850:
 //line sip.rl:448
 addrp=lastAddr(&msg.RecordRoute)
-	goto st396
+	goto st395
 tr874:
 //line sip.rl:449
 addrp=lastAddr(&msg.RemotePartyID)
-	goto st396
+	goto st395
 tr902:
 //line sip.rl:450
 addrp=lastAddr(&msg.Route)
-	goto st396
+	goto st395
 tr925:
 //line sip.rl:451
 addrp=lastAddr(&msg.To)
-	goto st396
-	st396:
+	goto st395
+	st395:
 		if p++; p == pe {
-			goto _test_eof396
+			goto _test_eof395
 		}
-	st_case_396:
-//line msg_parse.go:12032
+	st_case_395:
+//line msg_parse.go:11992
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12047,13 +12007,13 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st396
+			goto st395
 		case 32:
-			goto st396
+			goto st395
 		case 269:
 			goto tr577
 		case 525:
-			goto st397
+			goto st396
 		}
 		switch {
 		case _widec > 12:
@@ -12064,12 +12024,24 @@ addrp=lastAddr(&msg.To)
 			goto tr577
 		}
 		goto st0
+	st396:
+		if p++; p == pe {
+			goto _test_eof396
+		}
+	st_case_396:
+		if data[p] == 10 {
+			goto st397
+		}
+		goto st0
 	st397:
 		if p++; p == pe {
 			goto _test_eof397
 		}
 	st_case_397:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st398
+		case 32:
 			goto st398
 		}
 		goto st0
@@ -12080,32 +12052,32 @@ addrp=lastAddr(&msg.To)
 	st_case_398:
 		switch data[p] {
 		case 9:
-			goto st399
+			goto st398
 		case 32:
-			goto st399
+			goto st398
 		}
-		goto st0
+		goto tr577
 	st399:
 		if p++; p == pe {
 			goto _test_eof399
 		}
 	st_case_399:
 		switch data[p] {
-		case 9:
-			goto st399
-		case 32:
-			goto st399
+		case 78:
+			goto st400
+		case 110:
+			goto st400
 		}
-		goto tr577
+		goto tr417
 	st400:
 		if p++; p == pe {
 			goto _test_eof400
 		}
 	st_case_400:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st401
-		case 110:
+		case 116:
 			goto st401
 		}
 		goto tr417
@@ -12114,10 +12086,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof401
 		}
 	st_case_401:
-		switch data[p] {
-		case 84:
-			goto st402
-		case 116:
+		if data[p] == 45 {
 			goto st402
 		}
 		goto tr417
@@ -12126,8 +12095,23 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof402
 		}
 	st_case_402:
-		if data[p] == 45 {
+		switch data[p] {
+		case 68:
+			goto st403
+		case 69:
+			goto st414
+		case 76:
+			goto st422
+		case 84:
+			goto st441
+		case 100:
 			goto st403
+		case 101:
+			goto st414
+		case 108:
+			goto st422
+		case 116:
+			goto st441
 		}
 		goto tr417
 	st403:
@@ -12136,22 +12120,10 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_403:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st404
-		case 69:
-			goto st415
-		case 76:
-			goto st423
-		case 84:
-			goto st442
-		case 100:
+		case 105:
 			goto st404
-		case 101:
-			goto st415
-		case 108:
-			goto st423
-		case 116:
-			goto st442
 		}
 		goto tr417
 	st404:
@@ -12160,9 +12132,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_404:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st405
-		case 105:
+		case 115:
 			goto st405
 		}
 		goto tr417
@@ -12172,9 +12144,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_405:
 		switch data[p] {
-		case 83:
+		case 80:
 			goto st406
-		case 115:
+		case 112:
 			goto st406
 		}
 		goto tr417
@@ -12184,9 +12156,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_406:
 		switch data[p] {
-		case 80:
+		case 79:
 			goto st407
-		case 112:
+		case 111:
 			goto st407
 		}
 		goto tr417
@@ -12196,9 +12168,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_407:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st408
-		case 111:
+		case 115:
 			goto st408
 		}
 		goto tr417
@@ -12208,9 +12180,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_408:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st409
-		case 115:
+		case 105:
 			goto st409
 		}
 		goto tr417
@@ -12220,9 +12192,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_409:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st410
-		case 105:
+		case 116:
 			goto st410
 		}
 		goto tr417
@@ -12232,9 +12204,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_410:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st411
-		case 116:
+		case 105:
 			goto st411
 		}
 		goto tr417
@@ -12244,9 +12216,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_411:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st412
-		case 105:
+		case 111:
 			goto st412
 		}
 		goto tr417
@@ -12256,9 +12228,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_412:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st413
-		case 111:
+		case 110:
 			goto st413
 		}
 		goto tr417
@@ -12268,10 +12240,12 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_413:
 		switch data[p] {
-		case 78:
-			goto st414
-		case 110:
-			goto st414
+		case 9:
+			goto tr598
+		case 32:
+			goto tr598
+		case 58:
+			goto tr599
 		}
 		goto tr417
 	st414:
@@ -12280,12 +12254,10 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_414:
 		switch data[p] {
-		case 9:
-			goto tr598
-		case 32:
-			goto tr598
-		case 58:
-			goto tr599
+		case 78:
+			goto st415
+		case 110:
+			goto st415
 		}
 		goto tr417
 	st415:
@@ -12294,9 +12266,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_415:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st416
-		case 110:
+		case 99:
 			goto st416
 		}
 		goto tr417
@@ -12306,9 +12278,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_416:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st417
-		case 99:
+		case 111:
 			goto st417
 		}
 		goto tr417
@@ -12318,9 +12290,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_417:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st418
-		case 111:
+		case 100:
 			goto st418
 		}
 		goto tr417
@@ -12330,9 +12302,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_418:
 		switch data[p] {
-		case 68:
+		case 73:
 			goto st419
-		case 100:
+		case 105:
 			goto st419
 		}
 		goto tr417
@@ -12342,9 +12314,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_419:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st420
-		case 105:
+		case 110:
 			goto st420
 		}
 		goto tr417
@@ -12354,9 +12326,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_420:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st421
-		case 110:
+		case 103:
 			goto st421
 		}
 		goto tr417
@@ -12366,10 +12338,12 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_421:
 		switch data[p] {
-		case 71:
-			goto st422
-		case 103:
-			goto st422
+		case 9:
+			goto tr607
+		case 32:
+			goto tr607
+		case 58:
+			goto tr608
 		}
 		goto tr417
 	st422:
@@ -12378,12 +12352,14 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_422:
 		switch data[p] {
-		case 9:
-			goto tr607
-		case 32:
-			goto tr607
-		case 58:
-			goto tr608
+		case 65:
+			goto st423
+		case 69:
+			goto st430
+		case 97:
+			goto st423
+		case 101:
+			goto st430
 		}
 		goto tr417
 	st423:
@@ -12392,14 +12368,10 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_423:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st424
-		case 69:
-			goto st431
-		case 97:
+		case 110:
 			goto st424
-		case 101:
-			goto st431
 		}
 		goto tr417
 	st424:
@@ -12408,9 +12380,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_424:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st425
-		case 110:
+		case 103:
 			goto st425
 		}
 		goto tr417
@@ -12420,9 +12392,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_425:
 		switch data[p] {
-		case 71:
+		case 85:
 			goto st426
-		case 103:
+		case 117:
 			goto st426
 		}
 		goto tr417
@@ -12432,9 +12404,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_426:
 		switch data[p] {
-		case 85:
+		case 65:
 			goto st427
-		case 117:
+		case 97:
 			goto st427
 		}
 		goto tr417
@@ -12444,9 +12416,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_427:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st428
-		case 97:
+		case 103:
 			goto st428
 		}
 		goto tr417
@@ -12456,9 +12428,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_428:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st429
-		case 103:
+		case 101:
 			goto st429
 		}
 		goto tr417
@@ -12468,10 +12440,12 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_429:
 		switch data[p] {
-		case 69:
-			goto st430
-		case 101:
-			goto st430
+		case 9:
+			goto tr617
+		case 32:
+			goto tr617
+		case 58:
+			goto tr618
 		}
 		goto tr417
 	st430:
@@ -12480,12 +12454,10 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_430:
 		switch data[p] {
-		case 9:
-			goto tr617
-		case 32:
-			goto tr617
-		case 58:
-			goto tr618
+		case 78:
+			goto st431
+		case 110:
+			goto st431
 		}
 		goto tr417
 	st431:
@@ -12494,9 +12466,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_431:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st432
-		case 110:
+		case 103:
 			goto st432
 		}
 		goto tr417
@@ -12506,9 +12478,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_432:
 		switch data[p] {
-		case 71:
+		case 84:
 			goto st433
-		case 103:
+		case 116:
 			goto st433
 		}
 		goto tr417
@@ -12518,9 +12490,9 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_433:
 		switch data[p] {
-		case 84:
+		case 72:
 			goto st434
-		case 116:
+		case 104:
 			goto st434
 		}
 		goto tr417
@@ -12530,10 +12502,12 @@ addrp=lastAddr(&msg.To)
 		}
 	st_case_434:
 		switch data[p] {
-		case 72:
+		case 9:
 			goto st435
-		case 104:
+		case 32:
 			goto st435
+		case 58:
+			goto st436
 		}
 		goto tr417
 	st435:
@@ -12543,32 +12517,18 @@ addrp=lastAddr(&msg.To)
 	st_case_435:
 		switch data[p] {
 		case 9:
-			goto st436
+			goto st435
 		case 32:
-			goto st436
+			goto st435
 		case 58:
-			goto st437
+			goto st436
 		}
-		goto tr417
+		goto st0
 	st436:
 		if p++; p == pe {
 			goto _test_eof436
 		}
 	st_case_436:
-		switch data[p] {
-		case 9:
-			goto st436
-		case 32:
-			goto st436
-		case 58:
-			goto st437
-		}
-		goto st0
-	st437:
-		if p++; p == pe {
-			goto _test_eof437
-		}
-	st_case_437:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12578,11 +12538,11 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st437
+			goto st436
 		case 32:
-			goto st437
+			goto st436
 		case 525:
-			goto st439
+			goto st438
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr624
@@ -12596,20 +12556,20 @@ clen=0
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st438
+	goto st437
 tr626:
 //line sip.rl:227
 
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st438
-	st438:
+	goto st437
+	st437:
 		if p++; p == pe {
-			goto _test_eof438
+			goto _test_eof437
 		}
-	st_case_438:
-//line msg_parse.go:12604
+	st_case_437:
+//line msg_parse.go:12564
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12618,18 +12578,30 @@ tr626:
 			}
 		}
 		if _widec == 269 {
-			goto st382
+			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr626
 		}
 		goto st0
+	st438:
+		if p++; p == pe {
+			goto _test_eof438
+		}
+	st_case_438:
+		if data[p] == 10 {
+			goto st439
+		}
+		goto st0
 	st439:
 		if p++; p == pe {
 			goto _test_eof439
 		}
 	st_case_439:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st440
+		case 32:
 			goto st440
 		}
 		goto st0
@@ -12640,9 +12612,12 @@ tr626:
 	st_case_440:
 		switch data[p] {
 		case 9:
-			goto st441
+			goto st440
 		case 32:
-			goto st441
+			goto st440
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr624
 		}
 		goto st0
 	st441:
@@ -12651,24 +12626,21 @@ tr626:
 		}
 	st_case_441:
 		switch data[p] {
-		case 9:
-			goto st441
-		case 32:
-			goto st441
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+		case 89:
+			goto st442
+		case 121:
+			goto st442
 		}
-		goto st0
+		goto tr417
 	st442:
 		if p++; p == pe {
 			goto _test_eof442
 		}
 	st_case_442:
 		switch data[p] {
-		case 89:
+		case 80:
 			goto st443
-		case 121:
+		case 112:
 			goto st443
 		}
 		goto tr417
@@ -12678,9 +12650,9 @@ tr626:
 		}
 	st_case_443:
 		switch data[p] {
-		case 80:
+		case 69:
 			goto st444
-		case 112:
+		case 101:
 			goto st444
 		}
 		goto tr417
@@ -12690,10 +12662,12 @@ tr626:
 		}
 	st_case_444:
 		switch data[p] {
-		case 69:
-			goto st445
-		case 101:
-			goto st445
+		case 9:
+			goto st365
+		case 32:
+			goto st365
+		case 58:
+			goto st366
 		}
 		goto tr417
 	st445:
@@ -12702,12 +12676,10 @@ tr626:
 		}
 	st_case_445:
 		switch data[p] {
-		case 9:
-			goto st366
-		case 32:
-			goto st366
-		case 58:
-			goto st367
+		case 69:
+			goto st446
+		case 101:
+			goto st446
 		}
 		goto tr417
 	st446:
@@ -12716,9 +12688,9 @@ tr626:
 		}
 	st_case_446:
 		switch data[p] {
-		case 69:
+		case 81:
 			goto st447
-		case 101:
+		case 113:
 			goto st447
 		}
 		goto tr417
@@ -12728,10 +12700,12 @@ tr626:
 		}
 	st_case_447:
 		switch data[p] {
-		case 81:
+		case 9:
 			goto st448
-		case 113:
+		case 32:
 			goto st448
+		case 58:
+			goto st449
 		}
 		goto tr417
 	st448:
@@ -12741,32 +12715,18 @@ tr626:
 	st_case_448:
 		switch data[p] {
 		case 9:
-			goto st449
+			goto st448
 		case 32:
-			goto st449
+			goto st448
 		case 58:
-			goto st450
+			goto st449
 		}
-		goto tr417
+		goto st0
 	st449:
 		if p++; p == pe {
 			goto _test_eof449
 		}
 	st_case_449:
-		switch data[p] {
-		case 9:
-			goto st449
-		case 32:
-			goto st449
-		case 58:
-			goto st450
-		}
-		goto st0
-	st450:
-		if p++; p == pe {
-			goto _test_eof450
-		}
-	st_case_450:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12776,11 +12736,11 @@ tr626:
 		}
 		switch _widec {
 		case 9:
-			goto st450
+			goto st449
 		case 32:
-			goto st450
+			goto st449
 		case 525:
-			goto st457
+			goto st456
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr637
@@ -12794,20 +12754,20 @@ msg.CSeq=0
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st451
+	goto st450
 tr640:
 //line sip.rl:236
 
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st451
-	st451:
+	goto st450
+	st450:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof450
 		}
-	st_case_451:
-//line msg_parse.go:12802
+	st_case_450:
+//line msg_parse.go:12762
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12817,21 +12777,21 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st452
+			goto st451
 		case 32:
-			goto st452
+			goto st451
 		case 525:
-			goto st454
+			goto st453
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr640
 		}
 		goto st0
-	st452:
+	st451:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof451
 		}
-	st_case_452:
+	st_case_451:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12841,9 +12801,9 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st452
+			goto st451
 		case 32:
-			goto st452
+			goto st451
 		case 33:
 			goto tr642
 		case 37:
@@ -12853,7 +12813,7 @@ tr640:
 		case 126:
 			goto tr642
 		case 525:
-			goto st454
+			goto st453
 		}
 		switch {
 		case _widec < 48:
@@ -12883,13 +12843,13 @@ tr642:
 
 	mark = p
 
-	goto st453
-	st453:
+	goto st452
+	st452:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof452
 		}
-	st_case_453:
-//line msg_parse.go:12884
+	st_case_452:
+//line msg_parse.go:12844
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12899,13 +12859,13 @@ tr642:
 		}
 		switch _widec {
 		case 33:
-			goto st453
+			goto st452
 		case 37:
-			goto st453
+			goto st452
 		case 39:
-			goto st453
+			goto st452
 		case 126:
-			goto st453
+			goto st452
 		case 269:
 			goto tr644
 		}
@@ -12914,55 +12874,55 @@ tr642:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st453
+					goto st452
 				}
 			case _widec >= 42:
-				goto st453
+				goto st452
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st453
+					goto st452
 				}
 			case _widec >= 65:
-				goto st453
+				goto st452
 			}
 		default:
-			goto st453
+			goto st452
 		}
 		goto st0
-	st454:
+	st453:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof453
 		}
-	st_case_454:
+	st_case_453:
 		if data[p] == 10 {
-			goto st455
+			goto st454
 		}
 		goto st0
-	st455:
+	st454:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof454
 		}
-	st_case_455:
+	st_case_454:
 		switch data[p] {
 		case 9:
-			goto st456
+			goto st455
 		case 32:
-			goto st456
+			goto st455
 		}
 		goto st0
-	st456:
+	st455:
 		if p++; p == pe {
-			goto _test_eof456
+			goto _test_eof455
 		}
-	st_case_456:
+	st_case_455:
 		switch data[p] {
 		case 9:
-			goto st456
+			goto st455
 		case 32:
-			goto st456
+			goto st455
 		case 33:
 			goto tr642
 		case 37:
@@ -12995,12 +12955,24 @@ tr642:
 			goto tr642
 		}
 		goto st0
+	st456:
+		if p++; p == pe {
+			goto _test_eof456
+		}
+	st_case_456:
+		if data[p] == 10 {
+			goto st457
+		}
+		goto st0
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st458
+		case 32:
 			goto st458
 		}
 		goto st0
@@ -13011,9 +12983,12 @@ tr642:
 	st_case_458:
 		switch data[p] {
 		case 9:
-			goto st459
+			goto st458
 		case 32:
-			goto st459
+			goto st458
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr637
 		}
 		goto st0
 	st459:
@@ -13022,24 +12997,21 @@ tr642:
 		}
 	st_case_459:
 		switch data[p] {
-		case 9:
-			goto st459
-		case 32:
-			goto st459
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+		case 65:
+			goto st460
+		case 97:
+			goto st460
 		}
-		goto st0
+		goto tr417
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st461
-		case 97:
+		case 116:
 			goto st461
 		}
 		goto tr417
@@ -13049,9 +13021,9 @@ tr642:
 		}
 	st_case_461:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st462
-		case 116:
+		case 101:
 			goto st462
 		}
 		goto tr417
@@ -13061,10 +13033,12 @@ tr642:
 		}
 	st_case_462:
 		switch data[p] {
-		case 69:
-			goto st463
-		case 101:
-			goto st463
+		case 9:
+			goto tr652
+		case 32:
+			goto tr652
+		case 58:
+			goto tr653
 		}
 		goto tr417
 	st463:
@@ -13074,11 +13048,23 @@ tr642:
 	st_case_463:
 		switch data[p] {
 		case 9:
-			goto tr652
+			goto tr607
 		case 32:
-			goto tr652
+			goto tr607
 		case 58:
-			goto tr653
+			goto tr608
+		case 82:
+			goto st464
+		case 86:
+			goto st473
+		case 88:
+			goto st477
+		case 114:
+			goto st464
+		case 118:
+			goto st473
+		case 120:
+			goto st477
 		}
 		goto tr417
 	st464:
@@ -13087,24 +13073,10 @@ tr642:
 		}
 	st_case_464:
 		switch data[p] {
-		case 9:
-			goto tr607
-		case 32:
-			goto tr607
-		case 58:
-			goto tr608
 		case 82:
 			goto st465
-		case 86:
-			goto st474
-		case 88:
-			goto st478
 		case 114:
 			goto st465
-		case 118:
-			goto st474
-		case 120:
-			goto st478
 		}
 		goto tr417
 	st465:
@@ -13113,9 +13085,9 @@ tr642:
 		}
 	st_case_465:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st466
-		case 114:
+		case 111:
 			goto st466
 		}
 		goto tr417
@@ -13125,9 +13097,9 @@ tr642:
 		}
 	st_case_466:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st467
-		case 111:
+		case 114:
 			goto st467
 		}
 		goto tr417
@@ -13136,10 +13108,7 @@ tr642:
 			goto _test_eof467
 		}
 	st_case_467:
-		switch data[p] {
-		case 82:
-			goto st468
-		case 114:
+		if data[p] == 45 {
 			goto st468
 		}
 		goto tr417
@@ -13148,7 +13117,10 @@ tr642:
 			goto _test_eof468
 		}
 	st_case_468:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st469
+		case 105:
 			goto st469
 		}
 		goto tr417
@@ -13158,9 +13130,9 @@ tr642:
 		}
 	st_case_469:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st470
-		case 105:
+		case 110:
 			goto st470
 		}
 		goto tr417
@@ -13170,9 +13142,9 @@ tr642:
 		}
 	st_case_470:
 		switch data[p] {
-		case 78:
+		case 70:
 			goto st471
-		case 110:
+		case 102:
 			goto st471
 		}
 		goto tr417
@@ -13182,9 +13154,9 @@ tr642:
 		}
 	st_case_471:
 		switch data[p] {
-		case 70:
+		case 79:
 			goto st472
-		case 102:
+		case 111:
 			goto st472
 		}
 		goto tr417
@@ -13194,10 +13166,12 @@ tr642:
 		}
 	st_case_472:
 		switch data[p] {
-		case 79:
-			goto st473
-		case 111:
-			goto st473
+		case 9:
+			goto tr665
+		case 32:
+			goto tr665
+		case 58:
+			goto tr666
 		}
 		goto tr417
 	st473:
@@ -13206,12 +13180,10 @@ tr642:
 		}
 	st_case_473:
 		switch data[p] {
-		case 9:
-			goto tr665
-		case 32:
-			goto tr665
-		case 58:
-			goto tr666
+		case 69:
+			goto st474
+		case 101:
+			goto st474
 		}
 		goto tr417
 	st474:
@@ -13220,9 +13192,9 @@ tr642:
 		}
 	st_case_474:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st475
-		case 101:
+		case 110:
 			goto st475
 		}
 		goto tr417
@@ -13232,9 +13204,9 @@ tr642:
 		}
 	st_case_475:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st476
-		case 110:
+		case 116:
 			goto st476
 		}
 		goto tr417
@@ -13244,10 +13216,12 @@ tr642:
 		}
 	st_case_476:
 		switch data[p] {
-		case 84:
-			goto st477
-		case 116:
-			goto st477
+		case 9:
+			goto tr670
+		case 32:
+			goto tr670
+		case 58:
+			goto tr671
 		}
 		goto tr417
 	st477:
@@ -13256,12 +13230,10 @@ tr642:
 		}
 	st_case_477:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
+		case 80:
+			goto st478
+		case 112:
+			goto st478
 		}
 		goto tr417
 	st478:
@@ -13270,9 +13242,9 @@ tr642:
 		}
 	st_case_478:
 		switch data[p] {
-		case 80:
+		case 73:
 			goto st479
-		case 112:
+		case 105:
 			goto st479
 		}
 		goto tr417
@@ -13282,9 +13254,9 @@ tr642:
 		}
 	st_case_479:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st480
-		case 105:
+		case 114:
 			goto st480
 		}
 		goto tr417
@@ -13294,9 +13266,9 @@ tr642:
 		}
 	st_case_480:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st481
-		case 114:
+		case 101:
 			goto st481
 		}
 		goto tr417
@@ -13306,9 +13278,9 @@ tr642:
 		}
 	st_case_481:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st482
-		case 101:
+		case 115:
 			goto st482
 		}
 		goto tr417
@@ -13318,10 +13290,12 @@ tr642:
 		}
 	st_case_482:
 		switch data[p] {
-		case 83:
+		case 9:
 			goto st483
-		case 115:
+		case 32:
 			goto st483
+		case 58:
+			goto st484
 		}
 		goto tr417
 	st483:
@@ -13331,32 +13305,18 @@ tr642:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st484
+			goto st483
 		case 32:
-			goto st484
+			goto st483
 		case 58:
-			goto st485
+			goto st484
 		}
-		goto tr417
+		goto st0
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
-		switch data[p] {
-		case 9:
-			goto st484
-		case 32:
-			goto st484
-		case 58:
-			goto st485
-		}
-		goto st0
-	st485:
-		if p++; p == pe {
-			goto _test_eof485
-		}
-	st_case_485:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13366,11 +13326,11 @@ tr642:
 		}
 		switch _widec {
 		case 9:
-			goto st485
+			goto st484
 		case 32:
-			goto st485
+			goto st484
 		case 525:
-			goto st487
+			goto st486
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr679
@@ -13384,20 +13344,20 @@ msg.Expires=0
 	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st486
+	goto st485
 tr681:
 //line sip.rl:245
 
 	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st486
-	st486:
+	goto st485
+	st485:
 		if p++; p == pe {
-			goto _test_eof486
+			goto _test_eof485
 		}
-	st_case_486:
-//line msg_parse.go:13392
+	st_case_485:
+//line msg_parse.go:13352
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13406,18 +13366,30 @@ tr681:
 			}
 		}
 		if _widec == 269 {
-			goto st382
+			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr681
 		}
 		goto st0
+	st486:
+		if p++; p == pe {
+			goto _test_eof486
+		}
+	st_case_486:
+		if data[p] == 10 {
+			goto st487
+		}
+		goto st0
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st488
+		case 32:
 			goto st488
 		}
 		goto st0
@@ -13428,9 +13400,12 @@ tr681:
 	st_case_488:
 		switch data[p] {
 		case 9:
-			goto st489
+			goto st488
 		case 32:
-			goto st489
+			goto st488
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr679
 		}
 		goto st0
 	st489:
@@ -13440,29 +13415,26 @@ tr681:
 	st_case_489:
 		switch data[p] {
 		case 9:
-			goto st489
+			goto tr684
 		case 32:
-			goto st489
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+			goto tr684
+		case 58:
+			goto tr685
+		case 82:
+			goto st490
+		case 114:
+			goto st490
 		}
-		goto st0
+		goto tr417
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
-		case 82:
+		case 79:
 			goto st491
-		case 114:
+		case 111:
 			goto st491
 		}
 		goto tr417
@@ -13472,9 +13444,9 @@ tr681:
 		}
 	st_case_491:
 		switch data[p] {
-		case 79:
+		case 77:
 			goto st492
-		case 111:
+		case 109:
 			goto st492
 		}
 		goto tr417
@@ -13484,10 +13456,12 @@ tr681:
 		}
 	st_case_492:
 		switch data[p] {
-		case 77:
-			goto st493
-		case 109:
-			goto st493
+		case 9:
+			goto tr684
+		case 32:
+			goto tr684
+		case 58:
+			goto tr685
 		}
 		goto tr417
 	st493:
@@ -13497,11 +13471,15 @@ tr681:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto tr684
+			goto st376
 		case 32:
-			goto tr684
+			goto st376
 		case 58:
-			goto tr685
+			goto st377
+		case 78:
+			goto st494
+		case 110:
+			goto st494
 		}
 		goto tr417
 	st494:
@@ -13509,16 +13487,7 @@ tr681:
 			goto _test_eof494
 		}
 	st_case_494:
-		switch data[p] {
-		case 9:
-			goto st377
-		case 32:
-			goto st377
-		case 58:
-			goto st378
-		case 78:
-			goto st495
-		case 110:
+		if data[p] == 45 {
 			goto st495
 		}
 		goto tr417
@@ -13527,7 +13496,10 @@ tr681:
 			goto _test_eof495
 		}
 	st_case_495:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st496
+		case 114:
 			goto st496
 		}
 		goto tr417
@@ -13537,9 +13509,9 @@ tr681:
 		}
 	st_case_496:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st497
-		case 114:
+		case 101:
 			goto st497
 		}
 		goto tr417
@@ -13549,9 +13521,9 @@ tr681:
 		}
 	st_case_497:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st498
-		case 101:
+		case 112:
 			goto st498
 		}
 		goto tr417
@@ -13561,9 +13533,9 @@ tr681:
 		}
 	st_case_498:
 		switch data[p] {
-		case 80:
+		case 76:
 			goto st499
-		case 112:
+		case 108:
 			goto st499
 		}
 		goto tr417
@@ -13573,9 +13545,9 @@ tr681:
 		}
 	st_case_499:
 		switch data[p] {
-		case 76:
+		case 89:
 			goto st500
-		case 108:
+		case 121:
 			goto st500
 		}
 		goto tr417
@@ -13584,10 +13556,7 @@ tr681:
 			goto _test_eof500
 		}
 	st_case_500:
-		switch data[p] {
-		case 89:
-			goto st501
-		case 121:
+		if data[p] == 45 {
 			goto st501
 		}
 		goto tr417
@@ -13596,7 +13565,10 @@ tr681:
 			goto _test_eof501
 		}
 	st_case_501:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st502
+		case 116:
 			goto st502
 		}
 		goto tr417
@@ -13606,9 +13578,9 @@ tr681:
 		}
 	st_case_502:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st503
-		case 116:
+		case 111:
 			goto st503
 		}
 		goto tr417
@@ -13617,18 +13589,6 @@ tr681:
 			goto _test_eof503
 		}
 	st_case_503:
-		switch data[p] {
-		case 79:
-			goto st504
-		case 111:
-			goto st504
-		}
-		goto tr417
-	st504:
-		if p++; p == pe {
-			goto _test_eof504
-		}
-	st_case_504:
 		switch data[p] {
 		case 9:
 			goto tr699
@@ -13638,11 +13598,11 @@ tr681:
 			goto tr700
 		}
 		goto tr417
-	st505:
+	st504:
 		if p++; p == pe {
-			goto _test_eof505
+			goto _test_eof504
 		}
-	st_case_505:
+	st_case_504:
 		switch data[p] {
 		case 9:
 			goto tr701
@@ -13652,11 +13612,11 @@ tr681:
 			goto tr702
 		}
 		goto tr417
-	st506:
+	st505:
 		if p++; p == pe {
-			goto _test_eof506
+			goto _test_eof505
 		}
-	st_case_506:
+	st_case_505:
 		switch data[p] {
 		case 9:
 			goto tr573
@@ -13665,24 +13625,33 @@ tr681:
 		case 58:
 			goto tr574
 		case 65:
-			goto st507
+			goto st506
 		case 73:
-			goto st524
+			goto st523
 		case 97:
-			goto st507
+			goto st506
 		case 105:
-			goto st524
+			goto st523
 		}
 		goto tr417
-	st507:
+	st506:
 		if p++; p == pe {
-			goto _test_eof507
+			goto _test_eof506
 		}
-	st_case_507:
+	st_case_506:
 		switch data[p] {
 		case 88:
-			goto st508
+			goto st507
 		case 120:
+			goto st507
+		}
+		goto tr417
+	st507:
+		if p++; p == pe {
+			goto _test_eof507
+		}
+	st_case_507:
+		if data[p] == 45 {
 			goto st508
 		}
 		goto tr417
@@ -13691,7 +13660,10 @@ tr681:
 			goto _test_eof508
 		}
 	st_case_508:
-		if data[p] == 45 {
+		switch data[p] {
+		case 70:
+			goto st509
+		case 102:
 			goto st509
 		}
 		goto tr417
@@ -13701,9 +13673,9 @@ tr681:
 		}
 	st_case_509:
 		switch data[p] {
-		case 70:
+		case 79:
 			goto st510
-		case 102:
+		case 111:
 			goto st510
 		}
 		goto tr417
@@ -13713,9 +13685,9 @@ tr681:
 		}
 	st_case_510:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st511
-		case 111:
+		case 114:
 			goto st511
 		}
 		goto tr417
@@ -13725,9 +13697,9 @@ tr681:
 		}
 	st_case_511:
 		switch data[p] {
-		case 82:
+		case 87:
 			goto st512
-		case 114:
+		case 119:
 			goto st512
 		}
 		goto tr417
@@ -13737,9 +13709,9 @@ tr681:
 		}
 	st_case_512:
 		switch data[p] {
-		case 87:
+		case 65:
 			goto st513
-		case 119:
+		case 97:
 			goto st513
 		}
 		goto tr417
@@ -13749,9 +13721,9 @@ tr681:
 		}
 	st_case_513:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st514
-		case 97:
+		case 114:
 			goto st514
 		}
 		goto tr417
@@ -13761,9 +13733,9 @@ tr681:
 		}
 	st_case_514:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st515
-		case 114:
+		case 100:
 			goto st515
 		}
 		goto tr417
@@ -13773,9 +13745,9 @@ tr681:
 		}
 	st_case_515:
 		switch data[p] {
-		case 68:
+		case 83:
 			goto st516
-		case 100:
+		case 115:
 			goto st516
 		}
 		goto tr417
@@ -13785,10 +13757,12 @@ tr681:
 		}
 	st_case_516:
 		switch data[p] {
-		case 83:
+		case 9:
 			goto st517
-		case 115:
+		case 32:
 			goto st517
+		case 58:
+			goto st518
 		}
 		goto tr417
 	st517:
@@ -13798,32 +13772,18 @@ tr681:
 	st_case_517:
 		switch data[p] {
 		case 9:
-			goto st518
+			goto st517
 		case 32:
-			goto st518
+			goto st517
 		case 58:
-			goto st519
-		}
-		goto tr417
-	st518:
-		if p++; p == pe {
-			goto _test_eof518
-		}
-	st_case_518:
-		switch data[p] {
-		case 9:
 			goto st518
-		case 32:
-			goto st518
-		case 58:
-			goto st519
 		}
 		goto st0
-	st519:
+	st518:
 		if p++; p == pe {
-			goto _test_eof519
+			goto _test_eof518
 		}
-	st_case_519:
+	st_case_518:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13833,11 +13793,11 @@ tr681:
 		}
 		switch _widec {
 		case 9:
-			goto st519
+			goto st518
 		case 32:
-			goto st519
+			goto st518
 		case 525:
-			goto st521
+			goto st520
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr717
@@ -13851,20 +13811,20 @@ msg.MaxForwards=0
 	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st520
+	goto st519
 tr719:
 //line sip.rl:250
 
 	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st520
-	st520:
+	goto st519
+	st519:
 		if p++; p == pe {
-			goto _test_eof520
+			goto _test_eof519
 		}
-	st_case_520:
-//line msg_parse.go:13859
+	st_case_519:
+//line msg_parse.go:13819
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13873,18 +13833,30 @@ tr719:
 			}
 		}
 		if _widec == 269 {
-			goto st382
+			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr719
 		}
 		goto st0
+	st520:
+		if p++; p == pe {
+			goto _test_eof520
+		}
+	st_case_520:
+		if data[p] == 10 {
+			goto st521
+		}
+		goto st0
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st522
+		case 32:
 			goto st522
 		}
 		goto st0
@@ -13895,9 +13867,12 @@ tr719:
 	st_case_522:
 		switch data[p] {
 		case 9:
-			goto st523
+			goto st522
 		case 32:
-			goto st523
+			goto st522
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr717
 		}
 		goto st0
 	st523:
@@ -13906,29 +13881,26 @@ tr719:
 		}
 	st_case_523:
 		switch data[p] {
-		case 9:
-			goto st523
-		case 32:
-			goto st523
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr717
+		case 77:
+			goto st524
+		case 78:
+			goto st534
+		case 109:
+			goto st524
+		case 110:
+			goto st534
 		}
-		goto st0
+		goto tr417
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
 		switch data[p] {
-		case 77:
+		case 69:
 			goto st525
-		case 78:
-			goto st535
-		case 109:
+		case 101:
 			goto st525
-		case 110:
-			goto st535
 		}
 		goto tr417
 	st525:
@@ -13936,10 +13908,7 @@ tr719:
 			goto _test_eof525
 		}
 	st_case_525:
-		switch data[p] {
-		case 69:
-			goto st526
-		case 101:
+		if data[p] == 45 {
 			goto st526
 		}
 		goto tr417
@@ -13948,7 +13917,10 @@ tr719:
 			goto _test_eof526
 		}
 	st_case_526:
-		if data[p] == 45 {
+		switch data[p] {
+		case 86:
+			goto st527
+		case 118:
 			goto st527
 		}
 		goto tr417
@@ -13958,9 +13930,9 @@ tr719:
 		}
 	st_case_527:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st528
-		case 118:
+		case 101:
 			goto st528
 		}
 		goto tr417
@@ -13970,9 +13942,9 @@ tr719:
 		}
 	st_case_528:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st529
-		case 101:
+		case 114:
 			goto st529
 		}
 		goto tr417
@@ -13982,9 +13954,9 @@ tr719:
 		}
 	st_case_529:
 		switch data[p] {
-		case 82:
+		case 83:
 			goto st530
-		case 114:
+		case 115:
 			goto st530
 		}
 		goto tr417
@@ -13994,9 +13966,9 @@ tr719:
 		}
 	st_case_530:
 		switch data[p] {
-		case 83:
+		case 73:
 			goto st531
-		case 115:
+		case 105:
 			goto st531
 		}
 		goto tr417
@@ -14006,9 +13978,9 @@ tr719:
 		}
 	st_case_531:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st532
-		case 105:
+		case 111:
 			goto st532
 		}
 		goto tr417
@@ -14018,9 +13990,9 @@ tr719:
 		}
 	st_case_532:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st533
-		case 111:
+		case 110:
 			goto st533
 		}
 		goto tr417
@@ -14030,10 +14002,12 @@ tr719:
 		}
 	st_case_533:
 		switch data[p] {
-		case 78:
-			goto st534
-		case 110:
-			goto st534
+		case 9:
+			goto tr733
+		case 32:
+			goto tr733
+		case 58:
+			goto tr734
 		}
 		goto tr417
 	st534:
@@ -14041,13 +14015,8 @@ tr719:
 			goto _test_eof534
 		}
 	st_case_534:
-		switch data[p] {
-		case 9:
-			goto tr733
-		case 32:
-			goto tr733
-		case 58:
-			goto tr734
+		if data[p] == 45 {
+			goto st535
 		}
 		goto tr417
 	st535:
@@ -14055,7 +14024,10 @@ tr719:
 			goto _test_eof535
 		}
 	st_case_535:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st536
+		case 101:
 			goto st536
 		}
 		goto tr417
@@ -14065,9 +14037,9 @@ tr719:
 		}
 	st_case_536:
 		switch data[p] {
-		case 69:
+		case 88:
 			goto st537
-		case 101:
+		case 120:
 			goto st537
 		}
 		goto tr417
@@ -14077,9 +14049,9 @@ tr719:
 		}
 	st_case_537:
 		switch data[p] {
-		case 88:
+		case 80:
 			goto st538
-		case 120:
+		case 112:
 			goto st538
 		}
 		goto tr417
@@ -14089,9 +14061,9 @@ tr719:
 		}
 	st_case_538:
 		switch data[p] {
-		case 80:
+		case 73:
 			goto st539
-		case 112:
+		case 105:
 			goto st539
 		}
 		goto tr417
@@ -14101,9 +14073,9 @@ tr719:
 		}
 	st_case_539:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st540
-		case 105:
+		case 114:
 			goto st540
 		}
 		goto tr417
@@ -14113,9 +14085,9 @@ tr719:
 		}
 	st_case_540:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st541
-		case 114:
+		case 101:
 			goto st541
 		}
 		goto tr417
@@ -14125,9 +14097,9 @@ tr719:
 		}
 	st_case_541:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st542
-		case 101:
+		case 115:
 			goto st542
 		}
 		goto tr417
@@ -14137,10 +14109,12 @@ tr719:
 		}
 	st_case_542:
 		switch data[p] {
-		case 83:
+		case 9:
 			goto st543
-		case 115:
+		case 32:
 			goto st543
+		case 58:
+			goto st544
 		}
 		goto tr417
 	st543:
@@ -14150,32 +14124,18 @@ tr719:
 	st_case_543:
 		switch data[p] {
 		case 9:
-			goto st544
+			goto st543
 		case 32:
-			goto st544
+			goto st543
 		case 58:
-			goto st545
+			goto st544
 		}
-		goto tr417
+		goto st0
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		switch data[p] {
-		case 9:
-			goto st544
-		case 32:
-			goto st544
-		case 58:
-			goto st545
-		}
-		goto st0
-	st545:
-		if p++; p == pe {
-			goto _test_eof545
-		}
-	st_case_545:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14185,11 +14145,11 @@ tr719:
 		}
 		switch _widec {
 		case 9:
-			goto st545
+			goto st544
 		case 32:
-			goto st545
+			goto st544
 		case 525:
-			goto st547
+			goto st546
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr745
@@ -14203,20 +14163,20 @@ msg.MinExpires=0
 	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st546
+	goto st545
 tr747:
 //line sip.rl:255
 
 	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st546
-	st546:
+	goto st545
+	st545:
 		if p++; p == pe {
-			goto _test_eof546
+			goto _test_eof545
 		}
-	st_case_546:
-//line msg_parse.go:14211
+	st_case_545:
+//line msg_parse.go:14171
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14225,18 +14185,30 @@ tr747:
 			}
 		}
 		if _widec == 269 {
-			goto st382
+			goto st381
 		}
 		if 48 <= _widec && _widec <= 57 {
 			goto tr747
 		}
 		goto st0
+	st546:
+		if p++; p == pe {
+			goto _test_eof546
+		}
+	st_case_546:
+		if data[p] == 10 {
+			goto st547
+		}
+		goto st0
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st548
+		case 32:
 			goto st548
 		}
 		goto st0
@@ -14247,9 +14219,12 @@ tr747:
 	st_case_548:
 		switch data[p] {
 		case 9:
-			goto st549
+			goto st548
 		case 32:
-			goto st549
+			goto st548
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr745
 		}
 		goto st0
 	st549:
@@ -14259,29 +14234,26 @@ tr747:
 	st_case_549:
 		switch data[p] {
 		case 9:
-			goto st549
+			goto tr670
 		case 32:
-			goto st549
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr745
+			goto tr670
+		case 58:
+			goto tr671
+		case 82:
+			goto st550
+		case 114:
+			goto st550
 		}
-		goto st0
+		goto tr417
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
+		case 71:
 			goto st551
-		case 114:
+		case 103:
 			goto st551
 		}
 		goto tr417
@@ -14291,9 +14263,9 @@ tr747:
 		}
 	st_case_551:
 		switch data[p] {
-		case 71:
+		case 65:
 			goto st552
-		case 103:
+		case 97:
 			goto st552
 		}
 		goto tr417
@@ -14303,9 +14275,9 @@ tr747:
 		}
 	st_case_552:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st553
-		case 97:
+		case 110:
 			goto st553
 		}
 		goto tr417
@@ -14315,9 +14287,9 @@ tr747:
 		}
 	st_case_553:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st554
-		case 110:
+		case 105:
 			goto st554
 		}
 		goto tr417
@@ -14327,9 +14299,9 @@ tr747:
 		}
 	st_case_554:
 		switch data[p] {
-		case 73:
+		case 90:
 			goto st555
-		case 105:
+		case 122:
 			goto st555
 		}
 		goto tr417
@@ -14339,9 +14311,9 @@ tr747:
 		}
 	st_case_555:
 		switch data[p] {
-		case 90:
+		case 65:
 			goto st556
-		case 122:
+		case 97:
 			goto st556
 		}
 		goto tr417
@@ -14351,9 +14323,9 @@ tr747:
 		}
 	st_case_556:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st557
-		case 97:
+		case 116:
 			goto st557
 		}
 		goto tr417
@@ -14363,9 +14335,9 @@ tr747:
 		}
 	st_case_557:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st558
-		case 116:
+		case 105:
 			goto st558
 		}
 		goto tr417
@@ -14375,9 +14347,9 @@ tr747:
 		}
 	st_case_558:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st559
-		case 105:
+		case 111:
 			goto st559
 		}
 		goto tr417
@@ -14387,9 +14359,9 @@ tr747:
 		}
 	st_case_559:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st560
-		case 111:
+		case 110:
 			goto st560
 		}
 		goto tr417
@@ -14399,10 +14371,12 @@ tr747:
 		}
 	st_case_560:
 		switch data[p] {
-		case 78:
-			goto st561
-		case 110:
-			goto st561
+		case 9:
+			goto tr761
+		case 32:
+			goto tr761
+		case 58:
+			goto tr762
 		}
 		goto tr417
 	st561:
@@ -14411,12 +14385,12 @@ tr747:
 		}
 	st_case_561:
 		switch data[p] {
-		case 9:
-			goto tr761
-		case 32:
-			goto tr761
-		case 58:
-			goto tr762
+		case 45:
+			goto st562
+		case 82:
+			goto st580
+		case 114:
+			goto st580
 		}
 		goto tr417
 	st562:
@@ -14425,12 +14399,10 @@ tr747:
 		}
 	st_case_562:
 		switch data[p] {
-		case 45:
+		case 65:
+			goto st563
+		case 97:
 			goto st563
-		case 82:
-			goto st581
-		case 114:
-			goto st581
 		}
 		goto tr417
 	st563:
@@ -14439,9 +14411,9 @@ tr747:
 		}
 	st_case_563:
 		switch data[p] {
-		case 65:
+		case 83:
 			goto st564
-		case 97:
+		case 115:
 			goto st564
 		}
 		goto tr417
@@ -14463,9 +14435,9 @@ tr747:
 		}
 	st_case_565:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st566
-		case 115:
+		case 101:
 			goto st566
 		}
 		goto tr417
@@ -14475,9 +14447,9 @@ tr747:
 		}
 	st_case_566:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st567
-		case 101:
+		case 114:
 			goto st567
 		}
 		goto tr417
@@ -14487,9 +14459,9 @@ tr747:
 		}
 	st_case_567:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st568
-		case 114:
+		case 116:
 			goto st568
 		}
 		goto tr417
@@ -14499,9 +14471,9 @@ tr747:
 		}
 	st_case_568:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st569
-		case 116:
+		case 101:
 			goto st569
 		}
 		goto tr417
@@ -14511,9 +14483,9 @@ tr747:
 		}
 	st_case_569:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st570
-		case 101:
+		case 100:
 			goto st570
 		}
 		goto tr417
@@ -14522,10 +14494,7 @@ tr747:
 			goto _test_eof570
 		}
 	st_case_570:
-		switch data[p] {
-		case 68:
-			goto st571
-		case 100:
+		if data[p] == 45 {
 			goto st571
 		}
 		goto tr417
@@ -14534,7 +14503,10 @@ tr747:
 			goto _test_eof571
 		}
 	st_case_571:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st572
+		case 105:
 			goto st572
 		}
 		goto tr417
@@ -14544,9 +14516,9 @@ tr747:
 		}
 	st_case_572:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st573
-		case 105:
+		case 100:
 			goto st573
 		}
 		goto tr417
@@ -14556,9 +14528,9 @@ tr747:
 		}
 	st_case_573:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st574
-		case 100:
+		case 101:
 			goto st574
 		}
 		goto tr417
@@ -14568,9 +14540,9 @@ tr747:
 		}
 	st_case_574:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st575
-		case 101:
+		case 110:
 			goto st575
 		}
 		goto tr417
@@ -14580,9 +14552,9 @@ tr747:
 		}
 	st_case_575:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st576
-		case 110:
+		case 116:
 			goto st576
 		}
 		goto tr417
@@ -14592,9 +14564,9 @@ tr747:
 		}
 	st_case_576:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st577
-		case 116:
+		case 105:
 			goto st577
 		}
 		goto tr417
@@ -14604,9 +14576,9 @@ tr747:
 		}
 	st_case_577:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st578
-		case 105:
+		case 116:
 			goto st578
 		}
 		goto tr417
@@ -14616,9 +14588,9 @@ tr747:
 		}
 	st_case_578:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st579
-		case 116:
+		case 121:
 			goto st579
 		}
 		goto tr417
@@ -14628,10 +14600,12 @@ tr747:
 		}
 	st_case_579:
 		switch data[p] {
-		case 89:
-			goto st580
-		case 121:
-			goto st580
+		case 9:
+			goto tr782
+		case 32:
+			goto tr782
+		case 58:
+			goto tr783
 		}
 		goto tr417
 	st580:
@@ -14640,12 +14614,14 @@ tr747:
 		}
 	st_case_580:
 		switch data[p] {
-		case 9:
-			goto tr782
-		case 32:
-			goto tr782
-		case 58:
-			goto tr783
+		case 73:
+			goto st581
+		case 79:
+			goto st587
+		case 105:
+			goto st581
+		case 111:
+			goto st587
 		}
 		goto tr417
 	st581:
@@ -14654,14 +14630,10 @@ tr747:
 		}
 	st_case_581:
 		switch data[p] {
-		case 73:
-			goto st582
 		case 79:
-			goto st588
-		case 105:
 			goto st582
 		case 111:
-			goto st588
+			goto st582
 		}
 		goto tr417
 	st582:
@@ -14670,9 +14642,9 @@ tr747:
 		}
 	st_case_582:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st583
-		case 111:
+		case 114:
 			goto st583
 		}
 		goto tr417
@@ -14682,9 +14654,9 @@ tr747:
 		}
 	st_case_583:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st584
-		case 114:
+		case 105:
 			goto st584
 		}
 		goto tr417
@@ -14694,9 +14666,9 @@ tr747:
 		}
 	st_case_584:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st585
-		case 105:
+		case 116:
 			goto st585
 		}
 		goto tr417
@@ -14706,9 +14678,9 @@ tr747:
 		}
 	st_case_585:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st586
-		case 116:
+		case 121:
 			goto st586
 		}
 		goto tr417
@@ -14718,10 +14690,12 @@ tr747:
 		}
 	st_case_586:
 		switch data[p] {
-		case 89:
-			goto st587
-		case 121:
-			goto st587
+		case 9:
+			goto tr791
+		case 32:
+			goto tr791
+		case 58:
+			goto tr792
 		}
 		goto tr417
 	st587:
@@ -14730,12 +14704,10 @@ tr747:
 		}
 	st_case_587:
 		switch data[p] {
-		case 9:
-			goto tr791
-		case 32:
-			goto tr791
-		case 58:
-			goto tr792
+		case 88:
+			goto st588
+		case 120:
+			goto st588
 		}
 		goto tr417
 	st588:
@@ -14744,9 +14716,9 @@ tr747:
 		}
 	st_case_588:
 		switch data[p] {
-		case 88:
+		case 89:
 			goto st589
-		case 120:
+		case 121:
 			goto st589
 		}
 		goto tr417
@@ -14755,10 +14727,7 @@ tr747:
 			goto _test_eof589
 		}
 	st_case_589:
-		switch data[p] {
-		case 89:
-			goto st590
-		case 121:
+		if data[p] == 45 {
 			goto st590
 		}
 		goto tr417
@@ -14767,8 +14736,15 @@ tr747:
 			goto _test_eof590
 		}
 	st_case_590:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st591
+		case 82:
+			goto st612
+		case 97:
 			goto st591
+		case 114:
+			goto st612
 		}
 		goto tr417
 	st591:
@@ -14777,14 +14753,10 @@ tr747:
 		}
 	st_case_591:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st592
-		case 82:
-			goto st613
-		case 97:
+		case 117:
 			goto st592
-		case 114:
-			goto st613
 		}
 		goto tr417
 	st592:
@@ -14793,9 +14765,9 @@ tr747:
 		}
 	st_case_592:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st593
-		case 117:
+		case 116:
 			goto st593
 		}
 		goto tr417
@@ -14805,9 +14777,9 @@ tr747:
 		}
 	st_case_593:
 		switch data[p] {
-		case 84:
+		case 72:
 			goto st594
-		case 116:
+		case 104:
 			goto st594
 		}
 		goto tr417
@@ -14817,10 +14789,14 @@ tr747:
 		}
 	st_case_594:
 		switch data[p] {
-		case 72:
+		case 69:
 			goto st595
-		case 104:
+		case 79:
+			goto st603
+		case 101:
 			goto st595
+		case 111:
+			goto st603
 		}
 		goto tr417
 	st595:
@@ -14829,14 +14805,10 @@ tr747:
 		}
 	st_case_595:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st596
-		case 79:
-			goto st604
-		case 101:
+		case 110:
 			goto st596
-		case 111:
-			goto st604
 		}
 		goto tr417
 	st596:
@@ -14845,9 +14817,9 @@ tr747:
 		}
 	st_case_596:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st597
-		case 110:
+		case 116:
 			goto st597
 		}
 		goto tr417
@@ -14857,9 +14829,9 @@ tr747:
 		}
 	st_case_597:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st598
-		case 116:
+		case 105:
 			goto st598
 		}
 		goto tr417
@@ -14869,9 +14841,9 @@ tr747:
 		}
 	st_case_598:
 		switch data[p] {
-		case 73:
+		case 67:
 			goto st599
-		case 105:
+		case 99:
 			goto st599
 		}
 		goto tr417
@@ -14881,9 +14853,9 @@ tr747:
 		}
 	st_case_599:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st600
-		case 99:
+		case 97:
 			goto st600
 		}
 		goto tr417
@@ -14893,9 +14865,9 @@ tr747:
 		}
 	st_case_600:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st601
-		case 97:
+		case 116:
 			goto st601
 		}
 		goto tr417
@@ -14905,9 +14877,9 @@ tr747:
 		}
 	st_case_601:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st602
-		case 116:
+		case 101:
 			goto st602
 		}
 		goto tr417
@@ -14917,10 +14889,12 @@ tr747:
 		}
 	st_case_602:
 		switch data[p] {
-		case 69:
-			goto st603
-		case 101:
-			goto st603
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
 		goto tr417
 	st603:
@@ -14929,12 +14903,10 @@ tr747:
 		}
 	st_case_603:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 82:
+			goto st604
+		case 114:
+			goto st604
 		}
 		goto tr417
 	st604:
@@ -14943,9 +14915,9 @@ tr747:
 		}
 	st_case_604:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st605
-		case 114:
+		case 105:
 			goto st605
 		}
 		goto tr417
@@ -14955,9 +14927,9 @@ tr747:
 		}
 	st_case_605:
 		switch data[p] {
-		case 73:
+		case 90:
 			goto st606
-		case 105:
+		case 122:
 			goto st606
 		}
 		goto tr417
@@ -14967,9 +14939,9 @@ tr747:
 		}
 	st_case_606:
 		switch data[p] {
-		case 90:
+		case 65:
 			goto st607
-		case 122:
+		case 97:
 			goto st607
 		}
 		goto tr417
@@ -14979,9 +14951,9 @@ tr747:
 		}
 	st_case_607:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st608
-		case 97:
+		case 116:
 			goto st608
 		}
 		goto tr417
@@ -14991,9 +14963,9 @@ tr747:
 		}
 	st_case_608:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st609
-		case 116:
+		case 105:
 			goto st609
 		}
 		goto tr417
@@ -15003,9 +14975,9 @@ tr747:
 		}
 	st_case_609:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st610
-		case 105:
+		case 111:
 			goto st610
 		}
 		goto tr417
@@ -15015,9 +14987,9 @@ tr747:
 		}
 	st_case_610:
 		switch data[p] {
-		case 79:
+		case 78:
 			goto st611
-		case 111:
+		case 110:
 			goto st611
 		}
 		goto tr417
@@ -15027,10 +14999,12 @@ tr747:
 		}
 	st_case_611:
 		switch data[p] {
-		case 78:
-			goto st612
-		case 110:
-			goto st612
+		case 9:
+			goto tr820
+		case 32:
+			goto tr820
+		case 58:
+			goto tr821
 		}
 		goto tr417
 	st612:
@@ -15039,12 +15013,10 @@ tr747:
 		}
 	st_case_612:
 		switch data[p] {
-		case 9:
-			goto tr820
-		case 32:
-			goto tr820
-		case 58:
-			goto tr821
+		case 69:
+			goto st613
+		case 101:
+			goto st613
 		}
 		goto tr417
 	st613:
@@ -15053,9 +15025,9 @@ tr747:
 		}
 	st_case_613:
 		switch data[p] {
-		case 69:
+		case 81:
 			goto st614
-		case 101:
+		case 113:
 			goto st614
 		}
 		goto tr417
@@ -15065,9 +15037,9 @@ tr747:
 		}
 	st_case_614:
 		switch data[p] {
-		case 81:
+		case 85:
 			goto st615
-		case 113:
+		case 117:
 			goto st615
 		}
 		goto tr417
@@ -15077,9 +15049,9 @@ tr747:
 		}
 	st_case_615:
 		switch data[p] {
-		case 85:
+		case 73:
 			goto st616
-		case 117:
+		case 105:
 			goto st616
 		}
 		goto tr417
@@ -15089,9 +15061,9 @@ tr747:
 		}
 	st_case_616:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st617
-		case 105:
+		case 114:
 			goto st617
 		}
 		goto tr417
@@ -15101,9 +15073,9 @@ tr747:
 		}
 	st_case_617:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st618
-		case 114:
+		case 101:
 			goto st618
 		}
 		goto tr417
@@ -15112,18 +15084,6 @@ tr747:
 			goto _test_eof618
 		}
 	st_case_618:
-		switch data[p] {
-		case 69:
-			goto st619
-		case 101:
-			goto st619
-		}
-		goto tr417
-	st619:
-		if p++; p == pe {
-			goto _test_eof619
-		}
-	st_case_619:
 		switch data[p] {
 		case 9:
 			goto tr828
@@ -15133,11 +15093,11 @@ tr747:
 			goto tr829
 		}
 		goto tr417
-	st620:
+	st619:
 		if p++; p == pe {
-			goto _test_eof620
+			goto _test_eof619
 		}
-	st_case_620:
+	st_case_619:
 		switch data[p] {
 		case 9:
 			goto tr830
@@ -15146,45 +15106,57 @@ tr747:
 		case 58:
 			goto tr831
 		case 69:
-			goto st621
+			goto st620
 		case 79:
-			goto st676
+			goto st675
 		case 101:
-			goto st621
+			goto st620
 		case 111:
-			goto st676
+			goto st675
 		}
 		goto tr417
-	st621:
+	st620:
 		if p++; p == pe {
-			goto _test_eof621
+			goto _test_eof620
 		}
-	st_case_621:
+	st_case_620:
 		switch data[p] {
 		case 67:
-			goto st622
+			goto st621
 		case 70:
-			goto st632
+			goto st631
 		case 77:
-			goto st643
+			goto st642
 		case 80:
-			goto st656
+			goto st655
 		case 81:
-			goto st662
+			goto st661
 		case 84:
-			goto st667
+			goto st666
 		case 99:
-			goto st622
+			goto st621
 		case 102:
-			goto st632
+			goto st631
 		case 109:
-			goto st643
+			goto st642
 		case 112:
-			goto st656
+			goto st655
 		case 113:
-			goto st662
+			goto st661
 		case 116:
-			goto st667
+			goto st666
+		}
+		goto tr417
+	st621:
+		if p++; p == pe {
+			goto _test_eof621
+		}
+	st_case_621:
+		switch data[p] {
+		case 79:
+			goto st622
+		case 111:
+			goto st622
 		}
 		goto tr417
 	st622:
@@ -15193,9 +15165,9 @@ tr747:
 		}
 	st_case_622:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st623
-		case 111:
+		case 114:
 			goto st623
 		}
 		goto tr417
@@ -15205,9 +15177,9 @@ tr747:
 		}
 	st_case_623:
 		switch data[p] {
-		case 82:
+		case 68:
 			goto st624
-		case 114:
+		case 100:
 			goto st624
 		}
 		goto tr417
@@ -15216,10 +15188,7 @@ tr747:
 			goto _test_eof624
 		}
 	st_case_624:
-		switch data[p] {
-		case 68:
-			goto st625
-		case 100:
+		if data[p] == 45 {
 			goto st625
 		}
 		goto tr417
@@ -15228,7 +15197,10 @@ tr747:
 			goto _test_eof625
 		}
 	st_case_625:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st626
+		case 114:
 			goto st626
 		}
 		goto tr417
@@ -15238,9 +15210,9 @@ tr747:
 		}
 	st_case_626:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st627
-		case 114:
+		case 111:
 			goto st627
 		}
 		goto tr417
@@ -15250,9 +15222,9 @@ tr747:
 		}
 	st_case_627:
 		switch data[p] {
-		case 79:
+		case 85:
 			goto st628
-		case 111:
+		case 117:
 			goto st628
 		}
 		goto tr417
@@ -15262,9 +15234,9 @@ tr747:
 		}
 	st_case_628:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st629
-		case 117:
+		case 116:
 			goto st629
 		}
 		goto tr417
@@ -15274,9 +15246,9 @@ tr747:
 		}
 	st_case_629:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st630
-		case 116:
+		case 101:
 			goto st630
 		}
 		goto tr417
@@ -15286,10 +15258,12 @@ tr747:
 		}
 	st_case_630:
 		switch data[p] {
-		case 69:
-			goto st631
-		case 101:
-			goto st631
+		case 9:
+			goto tr849
+		case 32:
+			goto tr849
+		case 58:
+			goto tr850
 		}
 		goto tr417
 	st631:
@@ -15298,12 +15272,10 @@ tr747:
 		}
 	st_case_631:
 		switch data[p] {
-		case 9:
-			goto tr849
-		case 32:
-			goto tr849
-		case 58:
-			goto tr850
+		case 69:
+			goto st632
+		case 101:
+			goto st632
 		}
 		goto tr417
 	st632:
@@ -15312,9 +15284,9 @@ tr747:
 		}
 	st_case_632:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st633
-		case 101:
+		case 114:
 			goto st633
 		}
 		goto tr417
@@ -15324,10 +15296,12 @@ tr747:
 		}
 	st_case_633:
 		switch data[p] {
-		case 82:
+		case 45:
 			goto st634
+		case 82:
+			goto st637
 		case 114:
-			goto st634
+			goto st637
 		}
 		goto tr417
 	st634:
@@ -15336,12 +15310,10 @@ tr747:
 		}
 	st_case_634:
 		switch data[p] {
-		case 45:
+		case 84:
+			goto st635
+		case 116:
 			goto st635
-		case 82:
-			goto st638
-		case 114:
-			goto st638
 		}
 		goto tr417
 	st635:
@@ -15350,9 +15322,9 @@ tr747:
 		}
 	st_case_635:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st636
-		case 116:
+		case 111:
 			goto st636
 		}
 		goto tr417
@@ -15362,10 +15334,12 @@ tr747:
 		}
 	st_case_636:
 		switch data[p] {
-		case 79:
-			goto st637
-		case 111:
-			goto st637
+		case 9:
+			goto tr830
+		case 32:
+			goto tr830
+		case 58:
+			goto tr831
 		}
 		goto tr417
 	st637:
@@ -15374,12 +15348,10 @@ tr747:
 		}
 	st_case_637:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
+		case 69:
+			goto st638
+		case 101:
+			goto st638
 		}
 		goto tr417
 	st638:
@@ -15388,9 +15360,9 @@ tr747:
 		}
 	st_case_638:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st639
-		case 101:
+		case 100:
 			goto st639
 		}
 		goto tr417
@@ -15399,10 +15371,7 @@ tr747:
 			goto _test_eof639
 		}
 	st_case_639:
-		switch data[p] {
-		case 68:
-			goto st640
-		case 100:
+		if data[p] == 45 {
 			goto st640
 		}
 		goto tr417
@@ -15411,7 +15380,10 @@ tr747:
 			goto _test_eof640
 		}
 	st_case_640:
-		if data[p] == 45 {
+		switch data[p] {
+		case 66:
+			goto st641
+		case 98:
 			goto st641
 		}
 		goto tr417
@@ -15419,12 +15391,12 @@ tr747:
 		if p++; p == pe {
 			goto _test_eof641
 		}
-	st_case_641:
-		switch data[p] {
-		case 66:
-			goto st642
-		case 98:
-			goto st642
+	st_case_641:
+		switch data[p] {
+		case 89:
+			goto st363
+		case 121:
+			goto st363
 		}
 		goto tr417
 	st642:
@@ -15433,10 +15405,10 @@ tr747:
 		}
 	st_case_642:
 		switch data[p] {
-		case 89:
-			goto st364
-		case 121:
-			goto st364
+		case 79:
+			goto st643
+		case 111:
+			goto st643
 		}
 		goto tr417
 	st643:
@@ -15445,9 +15417,9 @@ tr747:
 		}
 	st_case_643:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st644
-		case 111:
+		case 116:
 			goto st644
 		}
 		goto tr417
@@ -15457,9 +15429,9 @@ tr747:
 		}
 	st_case_644:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st645
-		case 116:
+		case 101:
 			goto st645
 		}
 		goto tr417
@@ -15468,10 +15440,7 @@ tr747:
 			goto _test_eof645
 		}
 	st_case_645:
-		switch data[p] {
-		case 69:
-			goto st646
-		case 101:
+		if data[p] == 45 {
 			goto st646
 		}
 		goto tr417
@@ -15480,7 +15449,10 @@ tr747:
 			goto _test_eof646
 		}
 	st_case_646:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st647
+		case 112:
 			goto st647
 		}
 		goto tr417
@@ -15490,9 +15462,9 @@ tr747:
 		}
 	st_case_647:
 		switch data[p] {
-		case 80:
+		case 65:
 			goto st648
-		case 112:
+		case 97:
 			goto st648
 		}
 		goto tr417
@@ -15502,9 +15474,9 @@ tr747:
 		}
 	st_case_648:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st649
-		case 97:
+		case 114:
 			goto st649
 		}
 		goto tr417
@@ -15514,9 +15486,9 @@ tr747:
 		}
 	st_case_649:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st650
-		case 114:
+		case 116:
 			goto st650
 		}
 		goto tr417
@@ -15526,9 +15498,9 @@ tr747:
 		}
 	st_case_650:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st651
-		case 116:
+		case 121:
 			goto st651
 		}
 		goto tr417
@@ -15537,10 +15509,7 @@ tr747:
 			goto _test_eof651
 		}
 	st_case_651:
-		switch data[p] {
-		case 89:
-			goto st652
-		case 121:
+		if data[p] == 45 {
 			goto st652
 		}
 		goto tr417
@@ -15549,7 +15518,10 @@ tr747:
 			goto _test_eof652
 		}
 	st_case_652:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st653
+		case 105:
 			goto st653
 		}
 		goto tr417
@@ -15559,9 +15531,9 @@ tr747:
 		}
 	st_case_653:
 		switch data[p] {
-		case 73:
+		case 68:
 			goto st654
-		case 105:
+		case 100:
 			goto st654
 		}
 		goto tr417
@@ -15571,10 +15543,12 @@ tr747:
 		}
 	st_case_654:
 		switch data[p] {
-		case 68:
-			goto st655
-		case 100:
-			goto st655
+		case 9:
+			goto tr873
+		case 32:
+			goto tr873
+		case 58:
+			goto tr874
 		}
 		goto tr417
 	st655:
@@ -15583,12 +15557,10 @@ tr747:
 		}
 	st_case_655:
 		switch data[p] {
-		case 9:
-			goto tr873
-		case 32:
-			goto tr873
-		case 58:
-			goto tr874
+		case 76:
+			goto st656
+		case 108:
+			goto st656
 		}
 		goto tr417
 	st656:
@@ -15597,9 +15569,9 @@ tr747:
 		}
 	st_case_656:
 		switch data[p] {
-		case 76:
+		case 89:
 			goto st657
-		case 108:
+		case 121:
 			goto st657
 		}
 		goto tr417
@@ -15608,10 +15580,7 @@ tr747:
 			goto _test_eof657
 		}
 	st_case_657:
-		switch data[p] {
-		case 89:
-			goto st658
-		case 121:
+		if data[p] == 45 {
 			goto st658
 		}
 		goto tr417
@@ -15620,7 +15589,10 @@ tr747:
 			goto _test_eof658
 		}
 	st_case_658:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st659
+		case 116:
 			goto st659
 		}
 		goto tr417
@@ -15630,9 +15602,9 @@ tr747:
 		}
 	st_case_659:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st660
-		case 116:
+		case 111:
 			goto st660
 		}
 		goto tr417
@@ -15642,10 +15614,12 @@ tr747:
 		}
 	st_case_660:
 		switch data[p] {
-		case 79:
-			goto st661
-		case 111:
-			goto st661
+		case 9:
+			goto tr880
+		case 32:
+			goto tr880
+		case 58:
+			goto tr881
 		}
 		goto tr417
 	st661:
@@ -15654,12 +15628,10 @@ tr747:
 		}
 	st_case_661:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 85:
+			goto st662
+		case 117:
+			goto st662
 		}
 		goto tr417
 	st662:
@@ -15668,9 +15640,9 @@ tr747:
 		}
 	st_case_662:
 		switch data[p] {
-		case 85:
+		case 73:
 			goto st663
-		case 117:
+		case 105:
 			goto st663
 		}
 		goto tr417
@@ -15680,9 +15652,9 @@ tr747:
 		}
 	st_case_663:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st664
-		case 105:
+		case 114:
 			goto st664
 		}
 		goto tr417
@@ -15692,9 +15664,9 @@ tr747:
 		}
 	st_case_664:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st665
-		case 114:
+		case 101:
 			goto st665
 		}
 		goto tr417
@@ -15704,10 +15676,12 @@ tr747:
 		}
 	st_case_665:
 		switch data[p] {
-		case 69:
-			goto st666
-		case 101:
-			goto st666
+		case 9:
+			goto tr886
+		case 32:
+			goto tr886
+		case 58:
+			goto tr887
 		}
 		goto tr417
 	st666:
@@ -15716,12 +15690,10 @@ tr747:
 		}
 	st_case_666:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 82:
+			goto st667
+		case 114:
+			goto st667
 		}
 		goto tr417
 	st667:
@@ -15730,9 +15702,9 @@ tr747:
 		}
 	st_case_667:
 		switch data[p] {
-		case 82:
+		case 89:
 			goto st668
-		case 114:
+		case 121:
 			goto st668
 		}
 		goto tr417
@@ -15741,10 +15713,7 @@ tr747:
 			goto _test_eof668
 		}
 	st_case_668:
-		switch data[p] {
-		case 89:
-			goto st669
-		case 121:
+		if data[p] == 45 {
 			goto st669
 		}
 		goto tr417
@@ -15753,7 +15722,10 @@ tr747:
 			goto _test_eof669
 		}
 	st_case_669:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st670
+		case 97:
 			goto st670
 		}
 		goto tr417
@@ -15763,9 +15735,9 @@ tr747:
 		}
 	st_case_670:
 		switch data[p] {
-		case 65:
+		case 70:
 			goto st671
-		case 97:
+		case 102:
 			goto st671
 		}
 		goto tr417
@@ -15775,9 +15747,9 @@ tr747:
 		}
 	st_case_671:
 		switch data[p] {
-		case 70:
+		case 84:
 			goto st672
-		case 102:
+		case 116:
 			goto st672
 		}
 		goto tr417
@@ -15787,9 +15759,9 @@ tr747:
 		}
 	st_case_672:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st673
-		case 116:
+		case 101:
 			goto st673
 		}
 		goto tr417
@@ -15799,9 +15771,9 @@ tr747:
 		}
 	st_case_673:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st674
-		case 101:
+		case 114:
 			goto st674
 		}
 		goto tr417
@@ -15811,10 +15783,12 @@ tr747:
 		}
 	st_case_674:
 		switch data[p] {
-		case 82:
-			goto st675
-		case 114:
-			goto st675
+		case 9:
+			goto tr896
+		case 32:
+			goto tr896
+		case 58:
+			goto tr897
 		}
 		goto tr417
 	st675:
@@ -15823,12 +15797,10 @@ tr747:
 		}
 	st_case_675:
 		switch data[p] {
-		case 9:
-			goto tr896
-		case 32:
-			goto tr896
-		case 58:
-			goto tr897
+		case 85:
+			goto st676
+		case 117:
+			goto st676
 		}
 		goto tr417
 	st676:
@@ -15837,9 +15809,9 @@ tr747:
 		}
 	st_case_676:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st677
-		case 117:
+		case 116:
 			goto st677
 		}
 		goto tr417
@@ -15849,9 +15821,9 @@ tr747:
 		}
 	st_case_677:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st678
-		case 116:
+		case 101:
 			goto st678
 		}
 		goto tr417
@@ -15860,18 +15832,6 @@ tr747:
 			goto _test_eof678
 		}
 	st_case_678:
-		switch data[p] {
-		case 69:
-			goto st679
-		case 101:
-			goto st679
-		}
-		goto tr417
-	st679:
-		if p++; p == pe {
-			goto _test_eof679
-		}
-	st_case_679:
 		switch data[p] {
 		case 9:
 			goto tr901
@@ -15881,11 +15841,11 @@ tr747:
 			goto tr902
 		}
 		goto tr417
-	st680:
+	st679:
 		if p++; p == pe {
-			goto _test_eof680
+			goto _test_eof679
 		}
-	st_case_680:
+	st_case_679:
 		switch data[p] {
 		case 9:
 			goto tr903
@@ -15894,13 +15854,25 @@ tr747:
 		case 58:
 			goto tr904
 		case 69:
-			goto st681
+			goto st680
 		case 85:
-			goto st686
+			goto st685
 		case 101:
-			goto st681
+			goto st680
 		case 117:
-			goto st686
+			goto st685
+		}
+		goto tr417
+	st680:
+		if p++; p == pe {
+			goto _test_eof680
+		}
+	st_case_680:
+		switch data[p] {
+		case 82:
+			goto st681
+		case 114:
+			goto st681
 		}
 		goto tr417
 	st681:
@@ -15909,9 +15881,9 @@ tr747:
 		}
 	st_case_681:
 		switch data[p] {
-		case 82:
+		case 86:
 			goto st682
-		case 114:
+		case 118:
 			goto st682
 		}
 		goto tr417
@@ -15921,9 +15893,9 @@ tr747:
 		}
 	st_case_682:
 		switch data[p] {
-		case 86:
+		case 69:
 			goto st683
-		case 118:
+		case 101:
 			goto st683
 		}
 		goto tr417
@@ -15933,9 +15905,9 @@ tr747:
 		}
 	st_case_683:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st684
-		case 101:
+		case 114:
 			goto st684
 		}
 		goto tr417
@@ -15945,10 +15917,12 @@ tr747:
 		}
 	st_case_684:
 		switch data[p] {
-		case 82:
-			goto st685
-		case 114:
-			goto st685
+		case 9:
+			goto tr911
+		case 32:
+			goto tr911
+		case 58:
+			goto tr912
 		}
 		goto tr417
 	st685:
@@ -15957,12 +15931,14 @@ tr747:
 		}
 	st_case_685:
 		switch data[p] {
-		case 9:
-			goto tr911
-		case 32:
-			goto tr911
-		case 58:
-			goto tr912
+		case 66:
+			goto st686
+		case 80:
+			goto st691
+		case 98:
+			goto st686
+		case 112:
+			goto st691
 		}
 		goto tr417
 	st686:
@@ -15971,14 +15947,10 @@ tr747:
 		}
 	st_case_686:
 		switch data[p] {
-		case 66:
+		case 74:
 			goto st687
-		case 80:
-			goto st692
-		case 98:
+		case 106:
 			goto st687
-		case 112:
-			goto st692
 		}
 		goto tr417
 	st687:
@@ -15987,9 +15959,9 @@ tr747:
 		}
 	st_case_687:
 		switch data[p] {
-		case 74:
+		case 69:
 			goto st688
-		case 106:
+		case 101:
 			goto st688
 		}
 		goto tr417
@@ -15999,9 +15971,9 @@ tr747:
 		}
 	st_case_688:
 		switch data[p] {
-		case 69:
+		case 67:
 			goto st689
-		case 101:
+		case 99:
 			goto st689
 		}
 		goto tr417
@@ -16011,9 +15983,9 @@ tr747:
 		}
 	st_case_689:
 		switch data[p] {
-		case 67:
+		case 84:
 			goto st690
-		case 99:
+		case 116:
 			goto st690
 		}
 		goto tr417
@@ -16023,10 +15995,12 @@ tr747:
 		}
 	st_case_690:
 		switch data[p] {
-		case 84:
-			goto st691
-		case 116:
-			goto st691
+		case 9:
+			goto tr903
+		case 32:
+			goto tr903
+		case 58:
+			goto tr904
 		}
 		goto tr417
 	st691:
@@ -16035,12 +16009,10 @@ tr747:
 		}
 	st_case_691:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 80:
+			goto st692
+		case 112:
+			goto st692
 		}
 		goto tr417
 	st692:
@@ -16049,9 +16021,9 @@ tr747:
 		}
 	st_case_692:
 		switch data[p] {
-		case 80:
+		case 79:
 			goto st693
-		case 112:
+		case 111:
 			goto st693
 		}
 		goto tr417
@@ -16061,9 +16033,9 @@ tr747:
 		}
 	st_case_693:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st694
-		case 111:
+		case 114:
 			goto st694
 		}
 		goto tr417
@@ -16073,9 +16045,9 @@ tr747:
 		}
 	st_case_694:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st695
-		case 114:
+		case 116:
 			goto st695
 		}
 		goto tr417
@@ -16085,9 +16057,9 @@ tr747:
 		}
 	st_case_695:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st696
-		case 116:
+		case 101:
 			goto st696
 		}
 		goto tr417
@@ -16097,10 +16069,10 @@ tr747:
 		}
 	st_case_696:
 		switch data[p] {
-		case 69:
-			goto st697
-		case 101:
-			goto st697
+		case 68:
+			goto st504
+		case 100:
+			goto st504
 		}
 		goto tr417
 	st697:
@@ -16108,18 +16080,6 @@ tr747:
 			goto _test_eof697
 		}
 	st_case_697:
-		switch data[p] {
-		case 68:
-			goto st505
-		case 100:
-			goto st505
-		}
-		goto tr417
-	st698:
-		if p++; p == pe {
-			goto _test_eof698
-		}
-	st_case_698:
 		switch data[p] {
 		case 9:
 			goto tr924
@@ -16128,13 +16088,25 @@ tr747:
 		case 58:
 			goto tr925
 		case 73:
-			goto st699
+			goto st698
 		case 79:
-			goto st707
+			goto st706
 		case 105:
-			goto st699
+			goto st698
 		case 111:
-			goto st707
+			goto st706
+		}
+		goto tr417
+	st698:
+		if p++; p == pe {
+			goto _test_eof698
+		}
+	st_case_698:
+		switch data[p] {
+		case 77:
+			goto st699
+		case 109:
+			goto st699
 		}
 		goto tr417
 	st699:
@@ -16143,9 +16115,9 @@ tr747:
 		}
 	st_case_699:
 		switch data[p] {
-		case 77:
+		case 69:
 			goto st700
-		case 109:
+		case 101:
 			goto st700
 		}
 		goto tr417
@@ -16155,9 +16127,9 @@ tr747:
 		}
 	st_case_700:
 		switch data[p] {
-		case 69:
+		case 83:
 			goto st701
-		case 101:
+		case 115:
 			goto st701
 		}
 		goto tr417
@@ -16167,9 +16139,9 @@ tr747:
 		}
 	st_case_701:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st702
-		case 115:
+		case 116:
 			goto st702
 		}
 		goto tr417
@@ -16179,9 +16151,9 @@ tr747:
 		}
 	st_case_702:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st703
-		case 116:
+		case 97:
 			goto st703
 		}
 		goto tr417
@@ -16191,9 +16163,9 @@ tr747:
 		}
 	st_case_703:
 		switch data[p] {
-		case 65:
+		case 77:
 			goto st704
-		case 97:
+		case 109:
 			goto st704
 		}
 		goto tr417
@@ -16203,9 +16175,9 @@ tr747:
 		}
 	st_case_704:
 		switch data[p] {
-		case 77:
+		case 80:
 			goto st705
-		case 109:
+		case 112:
 			goto st705
 		}
 		goto tr417
@@ -16214,18 +16186,6 @@ tr747:
 			goto _test_eof705
 		}
 	st_case_705:
-		switch data[p] {
-		case 80:
-			goto st706
-		case 112:
-			goto st706
-		}
-		goto tr417
-	st706:
-		if p++; p == pe {
-			goto _test_eof706
-		}
-	st_case_706:
 		switch data[p] {
 		case 9:
 			goto tr935
@@ -16235,11 +16195,11 @@ tr747:
 			goto tr936
 		}
 		goto tr417
-	st707:
+	st706:
 		if p++; p == pe {
-			goto _test_eof707
+			goto _test_eof706
 		}
-	st_case_707:
+	st_case_706:
 		switch data[p] {
 		case 9:
 			goto tr924
@@ -16249,11 +16209,11 @@ tr747:
 			goto tr925
 		}
 		goto tr417
-	st708:
+	st707:
 		if p++; p == pe {
-			goto _test_eof708
+			goto _test_eof707
 		}
-	st_case_708:
+	st_case_707:
 		switch data[p] {
 		case 9:
 			goto tr503
@@ -16262,13 +16222,25 @@ tr747:
 		case 58:
 			goto tr504
 		case 78:
-			goto st709
+			goto st708
 		case 83:
-			goto st719
+			goto st718
 		case 110:
+			goto st708
+		case 115:
+			goto st718
+		}
+		goto tr417
+	st708:
+		if p++; p == pe {
+			goto _test_eof708
+		}
+	st_case_708:
+		switch data[p] {
+		case 83:
 			goto st709
 		case 115:
-			goto st719
+			goto st709
 		}
 		goto tr417
 	st709:
@@ -16277,9 +16249,9 @@ tr747:
 		}
 	st_case_709:
 		switch data[p] {
-		case 83:
+		case 85:
 			goto st710
-		case 115:
+		case 117:
 			goto st710
 		}
 		goto tr417
@@ -16289,9 +16261,9 @@ tr747:
 		}
 	st_case_710:
 		switch data[p] {
-		case 85:
+		case 80:
 			goto st711
-		case 117:
+		case 112:
 			goto st711
 		}
 		goto tr417
@@ -16313,9 +16285,9 @@ tr747:
 		}
 	st_case_712:
 		switch data[p] {
-		case 80:
+		case 79:
 			goto st713
-		case 112:
+		case 111:
 			goto st713
 		}
 		goto tr417
@@ -16325,9 +16297,9 @@ tr747:
 		}
 	st_case_713:
 		switch data[p] {
-		case 79:
+		case 82:
 			goto st714
-		case 111:
+		case 114:
 			goto st714
 		}
 		goto tr417
@@ -16337,9 +16309,9 @@ tr747:
 		}
 	st_case_714:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st715
-		case 114:
+		case 116:
 			goto st715
 		}
 		goto tr417
@@ -16349,9 +16321,9 @@ tr747:
 		}
 	st_case_715:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st716
-		case 116:
+		case 101:
 			goto st716
 		}
 		goto tr417
@@ -16361,9 +16333,9 @@ tr747:
 		}
 	st_case_716:
 		switch data[p] {
-		case 69:
+		case 68:
 			goto st717
-		case 101:
+		case 100:
 			goto st717
 		}
 		goto tr417
@@ -16373,10 +16345,12 @@ tr747:
 		}
 	st_case_717:
 		switch data[p] {
-		case 68:
-			goto st718
-		case 100:
-			goto st718
+		case 9:
+			goto tr948
+		case 32:
+			goto tr948
+		case 58:
+			goto tr949
 		}
 		goto tr417
 	st718:
@@ -16385,12 +16359,10 @@ tr747:
 		}
 	st_case_718:
 		switch data[p] {
-		case 9:
-			goto tr948
-		case 32:
-			goto tr948
-		case 58:
-			goto tr949
+		case 69:
+			goto st719
+		case 101:
+			goto st719
 		}
 		goto tr417
 	st719:
@@ -16399,9 +16371,9 @@ tr747:
 		}
 	st_case_719:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st720
-		case 101:
+		case 114:
 			goto st720
 		}
 		goto tr417
@@ -16410,10 +16382,7 @@ tr747:
 			goto _test_eof720
 		}
 	st_case_720:
-		switch data[p] {
-		case 82:
-			goto st721
-		case 114:
+		if data[p] == 45 {
 			goto st721
 		}
 		goto tr417
@@ -16422,7 +16391,10 @@ tr747:
 			goto _test_eof721
 		}
 	st_case_721:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st722
+		case 97:
 			goto st722
 		}
 		goto tr417
@@ -16432,9 +16404,9 @@ tr747:
 		}
 	st_case_722:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st723
-		case 97:
+		case 103:
 			goto st723
 		}
 		goto tr417
@@ -16444,9 +16416,9 @@ tr747:
 		}
 	st_case_723:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st724
-		case 103:
+		case 101:
 			goto st724
 		}
 		goto tr417
@@ -16456,9 +16428,9 @@ tr747:
 		}
 	st_case_724:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st725
-		case 101:
+		case 110:
 			goto st725
 		}
 		goto tr417
@@ -16468,9 +16440,9 @@ tr747:
 		}
 	st_case_725:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st726
-		case 110:
+		case 116:
 			goto st726
 		}
 		goto tr417
@@ -16479,18 +16451,6 @@ tr747:
 			goto _test_eof726
 		}
 	st_case_726:
-		switch data[p] {
-		case 84:
-			goto st727
-		case 116:
-			goto st727
-		}
-		goto tr417
-	st727:
-		if p++; p == pe {
-			goto _test_eof727
-		}
-	st_case_727:
 		switch data[p] {
 		case 9:
 			goto tr958
@@ -16500,43 +16460,43 @@ tr747:
 			goto tr959
 		}
 		goto tr417
-	st728:
+	st727:
 		if p++; p == pe {
-			goto _test_eof728
+			goto _test_eof727
 		}
-	st_case_728:
+	st_case_727:
 		switch data[p] {
 		case 9:
-			goto st729
+			goto st728
 		case 32:
-			goto st729
+			goto st728
 		case 58:
-			goto st730
+			goto st729
 		case 73:
-			goto st734
+			goto st733
 		case 105:
-			goto st734
+			goto st733
 		}
 		goto tr417
-	st729:
+	st728:
 		if p++; p == pe {
-			goto _test_eof729
+			goto _test_eof728
 		}
-	st_case_729:
+	st_case_728:
 		switch data[p] {
 		case 9:
-			goto st729
+			goto st728
 		case 32:
-			goto st729
+			goto st728
 		case 58:
-			goto st730
+			goto st729
 		}
 		goto st0
-	st730:
+	st729:
 		if p++; p == pe {
-			goto _test_eof730
+			goto _test_eof729
 		}
-	st_case_730:
+	st_case_729:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -16546,13 +16506,13 @@ tr747:
 		}
 		switch _widec {
 		case 9:
-			goto st730
+			goto st729
 		case 32:
-			goto st730
+			goto st729
 		case 269:
 			goto tr963
 		case 525:
-			goto st731
+			goto st730
 		}
 		switch {
 		case _widec > 12:
@@ -16563,12 +16523,24 @@ tr747:
 			goto tr963
 		}
 		goto st0
+	st730:
+		if p++; p == pe {
+			goto _test_eof730
+		}
+	st_case_730:
+		if data[p] == 10 {
+			goto st731
+		}
+		goto st0
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
 		}
 	st_case_731:
-		if data[p] == 10 {
+		switch data[p] {
+		case 9:
+			goto st732
+		case 32:
 			goto st732
 		}
 		goto st0
@@ -16579,33 +16551,35 @@ tr747:
 	st_case_732:
 		switch data[p] {
 		case 9:
-			goto st733
+			goto st732
 		case 32:
-			goto st733
+			goto st732
 		}
-		goto st0
+		goto tr963
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
 		switch data[p] {
-		case 9:
-			goto st733
-		case 32:
-			goto st733
+		case 65:
+			goto st734
+		case 97:
+			goto st734
 		}
-		goto tr963
+		goto tr417
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
 		switch data[p] {
-		case 65:
-			goto st735
-		case 97:
-			goto st735
+		case 9:
+			goto st728
+		case 32:
+			goto st728
+		case 58:
+			goto st729
 		}
 		goto tr417
 	st735:
@@ -16614,12 +16588,14 @@ tr747:
 		}
 	st_case_735:
 		switch data[p] {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 58:
-			goto st730
+		case 65:
+			goto st736
+		case 87:
+			goto st742
+		case 97:
+			goto st736
+		case 119:
+			goto st742
 		}
 		goto tr417
 	st736:
@@ -16628,14 +16604,10 @@ tr747:
 		}
 	st_case_736:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st737
-		case 87:
-			goto st743
-		case 97:
+		case 114:
 			goto st737
-		case 119:
-			goto st743
 		}
 		goto tr417
 	st737:
@@ -16644,9 +16616,9 @@ tr747:
 		}
 	st_case_737:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st738
-		case 114:
+		case 110:
 			goto st738
 		}
 		goto tr417
@@ -16656,9 +16628,9 @@ tr747:
 		}
 	st_case_738:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st739
-		case 110:
+		case 105:
 			goto st739
 		}
 		goto tr417
@@ -16668,9 +16640,9 @@ tr747:
 		}
 	st_case_739:
 		switch data[p] {
-		case 73:
+		case 78:
 			goto st740
-		case 105:
+		case 110:
 			goto st740
 		}
 		goto tr417
@@ -16680,9 +16652,9 @@ tr747:
 		}
 	st_case_740:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st741
-		case 110:
+		case 103:
 			goto st741
 		}
 		goto tr417
@@ -16692,10 +16664,12 @@ tr747:
 		}
 	st_case_741:
 		switch data[p] {
-		case 71:
-			goto st742
-		case 103:
-			goto st742
+		case 9:
+			goto tr975
+		case 32:
+			goto tr975
+		case 58:
+			goto tr976
 		}
 		goto tr417
 	st742:
@@ -16704,12 +16678,10 @@ tr747:
 		}
 	st_case_742:
 		switch data[p] {
-		case 9:
-			goto tr975
-		case 32:
-			goto tr975
-		case 58:
-			goto tr976
+		case 87:
+			goto st743
+		case 119:
+			goto st743
 		}
 		goto tr417
 	st743:
@@ -16717,10 +16689,7 @@ tr747:
 			goto _test_eof743
 		}
 	st_case_743:
-		switch data[p] {
-		case 87:
-			goto st744
-		case 119:
+		if data[p] == 45 {
 			goto st744
 		}
 		goto tr417
@@ -16729,7 +16698,10 @@ tr747:
 			goto _test_eof744
 		}
 	st_case_744:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st745
+		case 97:
 			goto st745
 		}
 		goto tr417
@@ -16739,9 +16711,9 @@ tr747:
 		}
 	st_case_745:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st746
-		case 97:
+		case 117:
 			goto st746
 		}
 		goto tr417
@@ -16751,9 +16723,9 @@ tr747:
 		}
 	st_case_746:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st747
-		case 117:
+		case 116:
 			goto st747
 		}
 		goto tr417
@@ -16763,9 +16735,9 @@ tr747:
 		}
 	st_case_747:
 		switch data[p] {
-		case 84:
+		case 72:
 			goto st748
-		case 116:
+		case 104:
 			goto st748
 		}
 		goto tr417
@@ -16775,9 +16747,9 @@ tr747:
 		}
 	st_case_748:
 		switch data[p] {
-		case 72:
+		case 69:
 			goto st749
-		case 104:
+		case 101:
 			goto st749
 		}
 		goto tr417
@@ -16787,9 +16759,9 @@ tr747:
 		}
 	st_case_749:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st750
-		case 101:
+		case 110:
 			goto st750
 		}
 		goto tr417
@@ -16799,9 +16771,9 @@ tr747:
 		}
 	st_case_750:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st751
-		case 110:
+		case 116:
 			goto st751
 		}
 		goto tr417
@@ -16811,9 +16783,9 @@ tr747:
 		}
 	st_case_751:
 		switch data[p] {
-		case 84:
+		case 73:
 			goto st752
-		case 116:
+		case 105:
 			goto st752
 		}
 		goto tr417
@@ -16823,9 +16795,9 @@ tr747:
 		}
 	st_case_752:
 		switch data[p] {
-		case 73:
+		case 67:
 			goto st753
-		case 105:
+		case 99:
 			goto st753
 		}
 		goto tr417
@@ -16835,9 +16807,9 @@ tr747:
 		}
 	st_case_753:
 		switch data[p] {
-		case 67:
+		case 65:
 			goto st754
-		case 99:
+		case 97:
 			goto st754
 		}
 		goto tr417
@@ -16847,9 +16819,9 @@ tr747:
 		}
 	st_case_754:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st755
-		case 97:
+		case 116:
 			goto st755
 		}
 		goto tr417
@@ -16859,9 +16831,9 @@ tr747:
 		}
 	st_case_755:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st756
-		case 116:
+		case 101:
 			goto st756
 		}
 		goto tr417
@@ -16870,18 +16842,6 @@ tr747:
 			goto _test_eof756
 		}
 	st_case_756:
-		switch data[p] {
-		case 69:
-			goto st757
-		case 101:
-			goto st757
-		}
-		goto tr417
-	st757:
-		if p++; p == pe {
-			goto _test_eof757
-		}
-	st_case_757:
 		switch data[p] {
 		case 9:
 			goto tr991
@@ -16904,7 +16864,7 @@ tr747:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
+	_test_eof757: cs = 757; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -16936,7 +16896,7 @@ tr747:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
+	_test_eof758: cs = 758; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -16964,7 +16924,7 @@ tr747:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
+	_test_eof759: cs = 759; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -17008,7 +16968,7 @@ tr747:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
+	_test_eof760: cs = 760; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17051,7 +17011,7 @@ tr747:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
+	_test_eof761: cs = 761; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17091,7 +17051,7 @@ tr747:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
+	_test_eof762: cs = 762; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17131,7 +17091,7 @@ tr747:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
+	_test_eof763: cs = 763; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17144,25 +17104,25 @@ tr747:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
+	_test_eof764: cs = 764; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
+	_test_eof765: cs = 765; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
+	_test_eof766: cs = 766; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
+	_test_eof767: cs = 767; goto _test_eof
 	_test_eof768: cs = 768; goto _test_eof
 	_test_eof769: cs = 769; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof770: cs = 770; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
@@ -17175,20 +17135,20 @@ tr747:
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
+	_test_eof771: cs = 771; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
+	_test_eof772: cs = 772; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
+	_test_eof773: cs = 773; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
-	_test_eof774: cs = 774; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
 	_test_eof284: cs = 284; goto _test_eof
@@ -17664,19 +17624,18 @@ tr747:
 	_test_eof754: cs = 754; goto _test_eof
 	_test_eof755: cs = 755; goto _test_eof
 	_test_eof756: cs = 756; goto _test_eof
-	_test_eof757: cs = 757; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 282, 283, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 371, 372, 373, 374, 375, 376, 386, 387, 388, 389, 390, 391, 392, 393, 394, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 442, 443, 444, 445, 446, 447, 448, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757:
+		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
 //line sip.rl:174
 
 	p--
 
 	{goto st273 }
 
-//line msg_parse.go:17671
+//line msg_parse.go:17630
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 366d714..a8f0e4b 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -514,7 +514,8 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 # Parsing standard header names is a prefix trie search in generated code.
 # Lookahead to set the mark on the header name. In order to support
 # extended headers, we'll use $!gxh to jump to the xheader machine when an
-# unrecognized character is detected in the header name.
+# unrecognized character is detected in the header name. That may be the colon
+# already, as in "d: no-fork".
 #
 # An independent machine has been created for generic header values, so
 # that it doesn't need to be duplicated for each leaf in the prefix
@@ -537,7 +538,7 @@ cheader  = ("Call-ID"i | "i"i) $!gxh HCOLON cid >mark %CallID
 # responsibility of the person using Msg.Headers to do case-insensitive
 # string comparisons.
 value   := hval <: CRLF @value @goto_header;
-xheader := token %name HCOLON <: any @{value=nil} @hold @goto_value;
+xheader := tokenc* %name HCOLON <: any @{value=nil} @hold @goto_value;
 sheader  = cheader <: CRLF @goto_header
          | aname $!gxh HCOLON <: any @{value=nil} @hold @goto_addr
          | sname $!gxh HCOLON <: any @hold @goto_value
-- 
2.43.0


From b2c4d0a9c6661db7d2bb99827de3b60afe645cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 36/47] fix: keep UTF-8 in display names and parameter values

---
 sip/charsets.go | 27 +++++++++++++++++++++++++++
 sip/quote.go    |  5 +++++
 2 files changed, 32 insertions(+)

diff --git a/sip/charsets.go b/sip/charsets.go
index f8a6706..c56709f 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -55,6 +55,33 @@ func qdtextesc(c byte) bool {
 		0x0E <= c && c <= 0x7F
 }
 
+// utf8Len returns the length of the multibyte UTF-8 character s starts with, in
+// the generous definition of RFC 3261, or 0 if there is none.
+func utf8Len(s []byte) int {
+	n := 0
+	switch c := s[0]; {
+	case 0xC0 <= c && c <= 0xDF:
+		n = 2
+	case 0xE0 <= c && c <= 0xEF:
+		n = 3
+	case 0xF0 <= c && c <= 0xF7:
+		n = 4
+	case 0xF8 <= c && c <= 0xFB:
+		n = 5
+	case 0xFC <= c && c <= 0xFD:
+		n = 6
+	}
+	if n > len(s) {
+		return 0
+	}
+	for i := 1; i < n; i++ {
+		if s[i] < 0x80 || s[i] > 0xBF {
+			return 0
+		}
+	}
+	return n
+}
+
 func whitespacec(c byte) bool {
 	return c == ' ' || c == '\t' || c == '\r' || c == '\n'
 }
diff --git a/sip/quote.go b/sip/quote.go
index 5b3f26c..c8177af 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -47,6 +47,11 @@ func appendQuoted(b *bytes.Buffer, s []byte) {
 func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 	b.WriteByte('"')
 	for i := 0; i < len(s); i++ {
+		if n := utf8Len(s[i:]); n > 1 {
+			b.Write(s[i : i+n])
+			i += n - 1
+			continue
+		}
 		if qdtextc(s[i]) {
 			if s[i] == '\r' {
 				if i+2 >= len(s) || s[i+1] != '\n' ||
-- 
2.43.0


From 7fc65394f1cc73e06b43d06553af5d856340a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 37/47] fix: escape what a reason phrase cannot contain

---
 sip/charsets.go |  9 +++++++++
 sip/escape.go   | 12 ++++++++++++
 sip/msg.go      |  2 +-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/sip/charsets.go b/sip/charsets.go
index c56709f..57ecb58 100644
--- a/sip/charsets.go
+++ b/sip/charsets.go
@@ -23,6 +23,7 @@ var (
 	passcMask   [2]uint64
 	paramcMask  [2]uint64
 	headercMask [2]uint64
+	reasoncMask [2]uint64
 )
 
 func tokenc(c byte) bool {
@@ -49,6 +50,10 @@ func headerc(c byte) bool {
 	return charsetContains(&headercMask, c)
 }
 
+func reasonc(c byte) bool {
+	return charsetContains(&reasoncMask, c)
+}
+
 func qdtextesc(c byte) bool {
 	return 0x00 <= c && c <= 0x09 ||
 		0x0B <= c && c <= 0x0C ||
@@ -109,6 +114,10 @@ func init() {
 	charsetAddAlphaNumeric(&headercMask)
 	charsetAddMark(&headercMask)
 	charsetAdd(&headercMask, '[', ']', '/', '?', ':', '+', '$')
+
+	charsetAddAlphaNumeric(&reasoncMask)
+	charsetAddMark(&reasoncMask)
+	charsetAdd(&reasoncMask, ';', '/', '?', ':', '@', '&', '=', '+', '$', ',', ' ', '\t')
 }
 
 func charsetContains(mask *[2]uint64, i byte) bool {
diff --git a/sip/escape.go b/sip/escape.go
index 8d285d8..ac44285 100644
--- a/sip/escape.go
+++ b/sip/escape.go
@@ -35,3 +35,15 @@ func appendEscaped(b *bytes.Buffer, s []byte, p func(byte) bool) {
 		}
 	}
 }
+
+// appendReason appends a reason phrase, URL encoding what it can't contain.
+func appendReason(b *bytes.Buffer, s []byte) {
+	for i := 0; i < len(s); i++ {
+		if n := utf8Len(s[i:]); n > 1 {
+			b.Write(s[i : i+n])
+			i += n - 1
+		} else {
+			appendEscaped(b, s[i:i+1], reasonc)
+		}
+	}
+}
diff --git a/sip/msg.go b/sip/msg.go
index 164297d..bb4644e 100755
--- a/sip/msg.go
+++ b/sip/msg.go
@@ -155,7 +155,7 @@ func (msg *Msg) Append(b *bytes.Buffer) {
 		b.WriteString(" ")
 		b.WriteString(strconv.Itoa(msg.Status))
 		b.WriteString(" ")
-		b.WriteString(msg.Phrase)
+		appendReason(b, []byte(msg.Phrase))
 		b.WriteString("\r\n")
 	}
 
-- 
2.43.0


From 3d3af898f01aa8b680ef5621cd6990a3af793aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 38/47] fix: don't let a header value start with a folded line

---
 sip/msg_parse.go | 407 ++++++++++++++++++++++++-----------------------
 sip/sip.rl       |   3 +
 2 files changed, 208 insertions(+), 202 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index c895d2a..06fabea 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -1892,7 +1892,7 @@ tr42:
 		}
 		goto st0
 tr16:
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st757
 	st757:
@@ -2661,7 +2661,7 @@ tr45:
 		}
 		goto st0
 tr49:
-//line sip.rl:232
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2691,7 +2691,7 @@ tr49:
 		}
 		goto st0
 tr50:
-//line sip.rl:232
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2933,7 +2933,7 @@ tr50:
 		}
 		goto st0
 tr51:
-//line sip.rl:232
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -2949,7 +2949,7 @@ tr51:
 		}
 		goto st0
 tr65:
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st758
 	st758:
@@ -2960,7 +2960,7 @@ tr65:
 //line msg_parse.go:2952
 		goto st0
 tr52:
-//line sip.rl:232
+//line sip.rl:235
 
 	ctype = string(data[mark:p])
 
@@ -3721,7 +3721,7 @@ tr106:
 	p--
 
 
-//line sip.rl:267
+//line sip.rl:270
  {goto st103 } 
 	goto st759
 tr110:
@@ -3738,7 +3738,7 @@ tr110:
 
 	amt = 0
 
-//line sip.rl:268
+//line sip.rl:271
  {goto st68 } 
 	goto st759
 tr122:
@@ -3752,7 +3752,7 @@ tr122:
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st759
 	st759:
@@ -5115,7 +5115,7 @@ tr184:
 	p--
 
 
-//line sip.rl:267
+//line sip.rl:270
  {goto st103 } 
 	goto st760
 tr193:
@@ -5128,7 +5128,7 @@ tr193:
 
 	amt = 0
 
-//line sip.rl:268
+//line sip.rl:271
  {goto st68 } 
 	goto st760
 tr199:
@@ -5138,7 +5138,7 @@ tr199:
 	viap = &via.Next
 	via = nil
 
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st760
 	st760:
@@ -6014,11 +6014,11 @@ tr220:
 		}
 		goto st0
 tr230:
-//line sip.rl:213
+//line sip.rl:216
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -6029,11 +6029,11 @@ tr230:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st761
 tr234:
-//line sip.rl:213
+//line sip.rl:216
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
@@ -6042,21 +6042,21 @@ tr234:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st761
 tr246:
-//line sip.rl:213
+//line sip.rl:216
 
 	addr.Param = &Param{name, string(buf[0:amt]), addr.Param}
 
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st761
 	st761:
@@ -6905,7 +6905,7 @@ tr224:
 		}
 		goto st0
 tr329:
-//line sip.rl:196
+//line sip.rl:199
 
 	addr.Display = string(buf[0:amt])
 
@@ -6935,7 +6935,7 @@ tr329:
 		}
 		goto st0
 tr305:
-//line sip.rl:200
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -6945,7 +6945,7 @@ tr305:
 }
 	goto st190
 tr330:
-//line sip.rl:196
+//line sip.rl:199
 
 	addr.Display = string(buf[0:amt])
 
@@ -7062,7 +7062,7 @@ tr275:
 		}
 		goto st0
 tr279:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -7128,7 +7128,7 @@ tr279:
 		}
 		goto st0
 tr285:
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -7139,7 +7139,7 @@ tr285:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st762
 tr289:
@@ -7148,17 +7148,17 @@ tr289:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st762
 tr293:
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st762
 	st762:
@@ -7360,7 +7360,7 @@ tr293:
 		}
 		goto st0
 tr310:
-//line sip.rl:200
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7370,7 +7370,7 @@ tr310:
 }
 	goto st210
 tr331:
-//line sip.rl:196
+//line sip.rl:199
 
 	addr.Display = string(buf[0:amt])
 
@@ -7470,7 +7470,7 @@ tr271:
 		}
 		goto st0
 tr304:
-//line sip.rl:200
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7534,7 +7534,7 @@ tr304:
 		}
 		goto st0
 tr306:
-//line sip.rl:200
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -7566,7 +7566,7 @@ tr306:
 		}
 		goto st0
 tr309:
-//line sip.rl:200
+//line sip.rl:203
 {
 	end := p
 	for end > mark && whitespacec(data[end - 1]) {
@@ -8119,7 +8119,7 @@ tr332:
 		}
 		goto st0
 tr336:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8183,7 +8183,7 @@ tr336:
 		}
 		goto st0
 tr345:
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8194,7 +8194,7 @@ tr345:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st763
 tr349:
@@ -8203,17 +8203,17 @@ tr349:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st763
 tr375:
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
 	addr = nil
 
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st763
 	st763:
@@ -8321,7 +8321,7 @@ tr375:
 		}
 		goto tr349
 tr340:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8366,7 +8366,7 @@ tr340:
 		}
 		goto st0
 tr337:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8432,7 +8432,7 @@ tr337:
 		}
 		goto st0
 tr355:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8475,7 +8475,7 @@ tr355:
 		}
 		goto st0
 tr361:
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8486,7 +8486,7 @@ tr361:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st764
 	st764:
@@ -8522,7 +8522,7 @@ tr361:
 		}
 		goto st0
 tr359:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8567,7 +8567,7 @@ tr359:
 		}
 		goto tr345
 tr356:
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8578,7 +8578,7 @@ tr356:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st765
 tr366:
@@ -8587,7 +8587,7 @@ tr366:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st765
 	st765:
@@ -8641,7 +8641,7 @@ tr366:
 		}
 		goto st0
 tr338:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8707,7 +8707,7 @@ tr338:
 		}
 		goto st0
 tr365:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8755,7 +8755,7 @@ tr371:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st766
 	st766:
@@ -8791,7 +8791,7 @@ tr371:
 		}
 		goto st0
 tr369:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8836,7 +8836,7 @@ tr369:
 		}
 		goto tr349
 tr367:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -8846,7 +8846,7 @@ tr367:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st767
 	st767:
@@ -8909,12 +8909,12 @@ tr367:
 		}
 		goto st0
 tr357:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -8925,7 +8925,7 @@ tr357:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st768
 	st768:
@@ -8988,12 +8988,12 @@ tr357:
 		}
 		goto st0
 tr358:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
 
-//line sip.rl:217
+//line sip.rl:220
 
 	*addrp = addr
 	addrp = &addr.Next
@@ -9004,11 +9004,11 @@ tr358:
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st769
 tr368:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9018,7 +9018,7 @@ tr368:
 	p--
 
 
-//line sip.rl:262
+//line sip.rl:265
  {goto st153 } 
 	goto st769
 	st769:
@@ -9032,7 +9032,7 @@ tr368:
 		}
 		goto st0
 tr339:
-//line sip.rl:208
+//line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
 	if err != nil { return nil, err }
@@ -9206,7 +9206,7 @@ tr376:
 		}
 		goto st0
 tr377:
-//line sip.rl:192
+//line sip.rl:195
 
 	addr = new(Addr)
 
@@ -9215,11 +9215,11 @@ tr377:
 	p--
 
 
-//line sip.rl:261
+//line sip.rl:264
  {goto st188 } 
 	goto st770
 tr382:
-//line sip.rl:192
+//line sip.rl:195
 
 	addr = new(Addr)
 
@@ -9228,11 +9228,11 @@ tr382:
 	p = ( mark) - 1
 
 
-//line sip.rl:261
+//line sip.rl:264
  {goto st188 } 
 	goto st770
 tr386:
-//line sip.rl:192
+//line sip.rl:195
 
 	addr = new(Addr)
 
@@ -9241,7 +9241,7 @@ tr386:
 	p = ( mark) - 1
 
 
-//line sip.rl:263
+//line sip.rl:266
  {goto st229 } 
 	goto st770
 	st770:
@@ -9581,13 +9581,16 @@ tr403:
 //line sip.rl:183
 {
 	b := data[mark:p - 1]
+	for len(b) > 0 && whitespacec(b[0]) {
+		b = b[1:]
+	}
 	if value != nil {
 		*value = string(b)
 	} else {
 		msg.XHeader = &XHeader{name, b, msg.XHeader}
 	}
 }
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st771
 	st771:
@@ -9595,7 +9598,7 @@ tr403:
 			goto _test_eof771
 		}
 	st_case_771:
-//line msg_parse.go:9590
+//line msg_parse.go:9593
 		goto st0
 tr394:
 //line sip.rl:80
@@ -9608,7 +9611,7 @@ tr394:
 			goto _test_eof271
 		}
 	st_case_271:
-//line msg_parse.go:9603
+//line msg_parse.go:9606
 		if data[p] == 10 {
 			goto st272
 		}
@@ -9680,7 +9683,7 @@ tr405:
 			goto _test_eof274
 		}
 	st_case_274:
-//line msg_parse.go:9675
+//line msg_parse.go:9678
 		switch data[p] {
 		case 9:
 			goto st274
@@ -9701,7 +9704,7 @@ tr407:
 			goto _test_eof275
 		}
 	st_case_275:
-//line msg_parse.go:9696
+//line msg_parse.go:9699
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9729,14 +9732,14 @@ tr407:
 		}
 		goto st0
 tr410:
-//line sip.rl:541
+//line sip.rl:544
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:266
+//line sip.rl:269
  {goto st263 } 
 	goto st772
 	st772:
@@ -9744,7 +9747,7 @@ value=nil
 			goto _test_eof772
 		}
 	st_case_772:
-//line msg_parse.go:9739
+//line msg_parse.go:9742
 		goto st0
 	st276:
 		if p++; p == pe {
@@ -9829,7 +9832,7 @@ value=nil
 		}
 		goto st0
 tr560:
-//line sip.rl:265
+//line sip.rl:268
  {goto st279 } 
 	goto st773
 tr416:
@@ -9844,7 +9847,7 @@ tr443:
 	p--
 
 
-//line sip.rl:266
+//line sip.rl:269
  {goto st263 } 
 	goto st773
 tr542:
@@ -9853,18 +9856,18 @@ tr542:
 	p--
 
 
-//line sip.rl:264
+//line sip.rl:267
  {goto st34 } 
 	goto st773
 tr577:
-//line sip.rl:543
+//line sip.rl:546
 value=nil
 //line sip.rl:72
 
 	p--
 
 
-//line sip.rl:260
+//line sip.rl:263
  {goto st256 } 
 	goto st773
 tr963:
@@ -9877,7 +9880,7 @@ tr963:
 	p--
 
 
-//line sip.rl:267
+//line sip.rl:270
  {goto st103 } 
 	goto st773
 	st773:
@@ -9885,7 +9888,7 @@ tr963:
 			goto _test_eof773
 		}
 	st_case_773:
-//line msg_parse.go:9880
+//line msg_parse.go:9883
 		goto st0
 tr415:
 //line sip.rl:80
@@ -9903,7 +9906,7 @@ tr415:
 			goto _test_eof281
 		}
 	st_case_281:
-//line msg_parse.go:9898
+//line msg_parse.go:9901
 		switch data[p] {
 		case 65:
 			goto st282
@@ -10006,147 +10009,147 @@ tr415:
 		}
 		goto tr417
 tr436:
-//line sip.rl:459
+//line sip.rl:462
 value=&msg.AcceptContact
 	goto st283
 tr451:
-//line sip.rl:458
+//line sip.rl:461
 value=&msg.Accept
 	goto st283
 tr470:
-//line sip.rl:460
+//line sip.rl:463
 value=&msg.AcceptEncoding
 	goto st283
 tr479:
-//line sip.rl:461
+//line sip.rl:464
 value=&msg.AcceptLanguage
 	goto st283
 tr490:
-//line sip.rl:464
+//line sip.rl:467
 value=&msg.AlertInfo
 	goto st283
 tr494:
-//line sip.rl:462
+//line sip.rl:465
 value=&msg.Allow
 	goto st283
 tr503:
-//line sip.rl:463
+//line sip.rl:466
 value=&msg.AllowEvents
 	goto st283
 tr523:
-//line sip.rl:465
+//line sip.rl:468
 value=&msg.AuthenticationInfo
 	goto st283
 tr533:
-//line sip.rl:466
+//line sip.rl:469
 value=&msg.Authorization
 	goto st283
 tr535:
-//line sip.rl:483
+//line sip.rl:486
 value=&msg.ReferredBy
 	goto st283
 tr565:
-//line sip.rl:470
+//line sip.rl:473
 value=&msg.CallInfo
 	goto st283
 tr598:
-//line sip.rl:467
+//line sip.rl:470
 value=&msg.ContentDisposition
 	goto st283
 tr607:
-//line sip.rl:469
+//line sip.rl:472
 value=&msg.ContentEncoding
 	goto st283
 tr617:
-//line sip.rl:468
+//line sip.rl:471
 value=&msg.ContentLanguage
 	goto st283
 tr652:
-//line sip.rl:471
+//line sip.rl:474
 value=&msg.Date
 	goto st283
 tr665:
-//line sip.rl:472
+//line sip.rl:475
 value=&msg.ErrorInfo
 	goto st283
 tr670:
-//line sip.rl:473
+//line sip.rl:476
 value=&msg.Event
 	goto st283
 tr699:
-//line sip.rl:474
+//line sip.rl:477
 value=&msg.InReplyTo
 	goto st283
 tr701:
-//line sip.rl:488
+//line sip.rl:491
 value=&msg.Supported
 	goto st283
 tr733:
-//line sip.rl:476
+//line sip.rl:479
 value=&msg.MIMEVersion
 	goto st283
 tr761:
-//line sip.rl:477
+//line sip.rl:480
 value=&msg.Organization
 	goto st283
 tr791:
-//line sip.rl:478
+//line sip.rl:481
 value=&msg.Priority
 	goto st283
 tr810:
-//line sip.rl:479
+//line sip.rl:482
 value=&msg.ProxyAuthenticate
 	goto st283
 tr820:
-//line sip.rl:480
+//line sip.rl:483
 value=&msg.ProxyAuthorization
 	goto st283
 tr828:
-//line sip.rl:481
+//line sip.rl:484
 value=&msg.ProxyRequire
 	goto st283
 tr830:
-//line sip.rl:482
+//line sip.rl:485
 value=&msg.ReferTo
 	goto st283
 tr880:
-//line sip.rl:475
+//line sip.rl:478
 value=&msg.ReplyTo
 	goto st283
 tr886:
-//line sip.rl:484
+//line sip.rl:487
 value=&msg.Require
 	goto st283
 tr896:
-//line sip.rl:485
+//line sip.rl:488
 value=&msg.RetryAfter
 	goto st283
 tr903:
-//line sip.rl:487
+//line sip.rl:490
 value=&msg.Subject
 	goto st283
 tr911:
-//line sip.rl:486
+//line sip.rl:489
 value=&msg.Server
 	goto st283
 tr935:
-//line sip.rl:489
+//line sip.rl:492
 value=&msg.Timestamp
 	goto st283
 tr948:
-//line sip.rl:490
+//line sip.rl:493
 value=&msg.Unsupported
 	goto st283
 tr958:
-//line sip.rl:491
+//line sip.rl:494
 value=&msg.UserAgent
 	goto st283
 tr975:
-//line sip.rl:492
+//line sip.rl:495
 value=&msg.Warning
 	goto st283
 tr991:
-//line sip.rl:493
+//line sip.rl:496
 value=&msg.WWWAuthenticate
 	goto st283
 	st283:
@@ -10154,7 +10157,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof283
 		}
 	st_case_283:
-//line msg_parse.go:10149
+//line msg_parse.go:10152
 		switch data[p] {
 		case 9:
 			goto st283
@@ -10165,147 +10168,147 @@ value=&msg.WWWAuthenticate
 		}
 		goto st0
 tr437:
-//line sip.rl:459
+//line sip.rl:462
 value=&msg.AcceptContact
 	goto st284
 tr453:
-//line sip.rl:458
+//line sip.rl:461
 value=&msg.Accept
 	goto st284
 tr471:
-//line sip.rl:460
+//line sip.rl:463
 value=&msg.AcceptEncoding
 	goto st284
 tr480:
-//line sip.rl:461
+//line sip.rl:464
 value=&msg.AcceptLanguage
 	goto st284
 tr491:
-//line sip.rl:464
+//line sip.rl:467
 value=&msg.AlertInfo
 	goto st284
 tr496:
-//line sip.rl:462
+//line sip.rl:465
 value=&msg.Allow
 	goto st284
 tr504:
-//line sip.rl:463
+//line sip.rl:466
 value=&msg.AllowEvents
 	goto st284
 tr524:
-//line sip.rl:465
+//line sip.rl:468
 value=&msg.AuthenticationInfo
 	goto st284
 tr534:
-//line sip.rl:466
+//line sip.rl:469
 value=&msg.Authorization
 	goto st284
 tr536:
-//line sip.rl:483
+//line sip.rl:486
 value=&msg.ReferredBy
 	goto st284
 tr566:
-//line sip.rl:470
+//line sip.rl:473
 value=&msg.CallInfo
 	goto st284
 tr599:
-//line sip.rl:467
+//line sip.rl:470
 value=&msg.ContentDisposition
 	goto st284
 tr608:
-//line sip.rl:469
+//line sip.rl:472
 value=&msg.ContentEncoding
 	goto st284
 tr618:
-//line sip.rl:468
+//line sip.rl:471
 value=&msg.ContentLanguage
 	goto st284
 tr653:
-//line sip.rl:471
+//line sip.rl:474
 value=&msg.Date
 	goto st284
 tr666:
-//line sip.rl:472
+//line sip.rl:475
 value=&msg.ErrorInfo
 	goto st284
 tr671:
-//line sip.rl:473
+//line sip.rl:476
 value=&msg.Event
 	goto st284
 tr700:
-//line sip.rl:474
+//line sip.rl:477
 value=&msg.InReplyTo
 	goto st284
 tr702:
-//line sip.rl:488
+//line sip.rl:491
 value=&msg.Supported
 	goto st284
 tr734:
-//line sip.rl:476
+//line sip.rl:479
 value=&msg.MIMEVersion
 	goto st284
 tr762:
-//line sip.rl:477
+//line sip.rl:480
 value=&msg.Organization
 	goto st284
 tr792:
-//line sip.rl:478
+//line sip.rl:481
 value=&msg.Priority
 	goto st284
 tr811:
-//line sip.rl:479
+//line sip.rl:482
 value=&msg.ProxyAuthenticate
 	goto st284
 tr821:
-//line sip.rl:480
+//line sip.rl:483
 value=&msg.ProxyAuthorization
 	goto st284
 tr829:
-//line sip.rl:481
+//line sip.rl:484
 value=&msg.ProxyRequire
 	goto st284
 tr831:
-//line sip.rl:482
+//line sip.rl:485
 value=&msg.ReferTo
 	goto st284
 tr881:
-//line sip.rl:475
+//line sip.rl:478
 value=&msg.ReplyTo
 	goto st284
 tr887:
-//line sip.rl:484
+//line sip.rl:487
 value=&msg.Require
 	goto st284
 tr897:
-//line sip.rl:485
+//line sip.rl:488
 value=&msg.RetryAfter
 	goto st284
 tr904:
-//line sip.rl:487
+//line sip.rl:490
 value=&msg.Subject
 	goto st284
 tr912:
-//line sip.rl:486
+//line sip.rl:489
 value=&msg.Server
 	goto st284
 tr936:
-//line sip.rl:489
+//line sip.rl:492
 value=&msg.Timestamp
 	goto st284
 tr949:
-//line sip.rl:490
+//line sip.rl:493
 value=&msg.Unsupported
 	goto st284
 tr959:
-//line sip.rl:491
+//line sip.rl:494
 value=&msg.UserAgent
 	goto st284
 tr976:
-//line sip.rl:492
+//line sip.rl:495
 value=&msg.Warning
 	goto st284
 tr992:
-//line sip.rl:493
+//line sip.rl:496
 value=&msg.WWWAuthenticate
 	goto st284
 	st284:
@@ -10313,7 +10316,7 @@ value=&msg.WWWAuthenticate
 			goto _test_eof284
 		}
 	st_case_284:
-//line msg_parse.go:10308
+//line msg_parse.go:10311
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11578,7 +11581,7 @@ tr554:
 			goto _test_eof378
 		}
 	st_case_378:
-//line msg_parse.go:11573
+//line msg_parse.go:11576
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11717,13 +11720,13 @@ tr554:
 		}
 		goto st0
 tr558:
-//line sip.rl:223
+//line sip.rl:226
 
 	msg.CallID = string(data[mark:p])
 
 	goto st381
 tr644:
-//line sip.rl:241
+//line sip.rl:244
 
 	msg.CSeqMethod = string(data[mark:p])
 
@@ -11733,7 +11736,7 @@ tr644:
 			goto _test_eof381
 		}
 	st_case_381:
-//line msg_parse.go:11728
+//line msg_parse.go:11731
 		if data[p] == 10 {
 			goto tr560
 		}
@@ -11922,31 +11925,31 @@ tr644:
 		}
 		goto tr417
 tr573:
-//line sip.rl:445
+//line sip.rl:448
 addrp=lastAddr(&msg.Contact)
 	goto st394
 tr684:
-//line sip.rl:446
+//line sip.rl:449
 addrp=lastAddr(&msg.From)
 	goto st394
 tr782:
-//line sip.rl:447
+//line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st394
 tr849:
-//line sip.rl:448
+//line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
 	goto st394
 tr873:
-//line sip.rl:449
+//line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st394
 tr901:
-//line sip.rl:450
+//line sip.rl:453
 addrp=lastAddr(&msg.Route)
 	goto st394
 tr924:
-//line sip.rl:451
+//line sip.rl:454
 addrp=lastAddr(&msg.To)
 	goto st394
 	st394:
@@ -11954,7 +11957,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof394
 		}
 	st_case_394:
-//line msg_parse.go:11949
+//line msg_parse.go:11952
 		switch data[p] {
 		case 9:
 			goto st394
@@ -11965,31 +11968,31 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr574:
-//line sip.rl:445
+//line sip.rl:448
 addrp=lastAddr(&msg.Contact)
 	goto st395
 tr685:
-//line sip.rl:446
+//line sip.rl:449
 addrp=lastAddr(&msg.From)
 	goto st395
 tr783:
-//line sip.rl:447
+//line sip.rl:450
 addrp=lastAddr(&msg.PAssertedIdentity)
 	goto st395
 tr850:
-//line sip.rl:448
+//line sip.rl:451
 addrp=lastAddr(&msg.RecordRoute)
 	goto st395
 tr874:
-//line sip.rl:449
+//line sip.rl:452
 addrp=lastAddr(&msg.RemotePartyID)
 	goto st395
 tr902:
-//line sip.rl:450
+//line sip.rl:453
 addrp=lastAddr(&msg.Route)
 	goto st395
 tr925:
-//line sip.rl:451
+//line sip.rl:454
 addrp=lastAddr(&msg.To)
 	goto st395
 	st395:
@@ -11997,7 +12000,7 @@ addrp=lastAddr(&msg.To)
 			goto _test_eof395
 		}
 	st_case_395:
-//line msg_parse.go:11992
+//line msg_parse.go:11995
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12549,16 +12552,16 @@ addrp=lastAddr(&msg.To)
 		}
 		goto st0
 tr624:
-//line sip.rl:501
+//line sip.rl:504
 clen=0
-//line sip.rl:227
+//line sip.rl:230
 
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
 	goto st437
 tr626:
-//line sip.rl:227
+//line sip.rl:230
 
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
@@ -12569,7 +12572,7 @@ tr626:
 			goto _test_eof437
 		}
 	st_case_437:
-//line msg_parse.go:12564
+//line msg_parse.go:12567
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12747,16 +12750,16 @@ tr626:
 		}
 		goto st0
 tr637:
-//line sip.rl:502
+//line sip.rl:505
 msg.CSeq=0
-//line sip.rl:236
+//line sip.rl:239
 
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
 	goto st450
 tr640:
-//line sip.rl:236
+//line sip.rl:239
 
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
@@ -12767,7 +12770,7 @@ tr640:
 			goto _test_eof450
 		}
 	st_case_450:
-//line msg_parse.go:12762
+//line msg_parse.go:12765
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12849,7 +12852,7 @@ tr642:
 			goto _test_eof452
 		}
 	st_case_452:
-//line msg_parse.go:12844
+//line msg_parse.go:12847
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13337,16 +13340,16 @@ tr642:
 		}
 		goto st0
 tr679:
-//line sip.rl:503
+//line sip.rl:506
 msg.Expires=0
-//line sip.rl:245
+//line sip.rl:248
 
 	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
 	goto st485
 tr681:
-//line sip.rl:245
+//line sip.rl:248
 
 	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
@@ -13357,7 +13360,7 @@ tr681:
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13352
+//line msg_parse.go:13355
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -13804,16 +13807,16 @@ tr681:
 		}
 		goto st0
 tr717:
-//line sip.rl:504
+//line sip.rl:507
 msg.MaxForwards=0
-//line sip.rl:250
+//line sip.rl:253
 
 	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
 	goto st519
 tr719:
-//line sip.rl:250
+//line sip.rl:253
 
 	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
 	if err != nil { return nil, err }
@@ -13824,7 +13827,7 @@ tr719:
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13819
+//line msg_parse.go:13822
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -14156,16 +14159,16 @@ tr719:
 		}
 		goto st0
 tr745:
-//line sip.rl:505
+//line sip.rl:508
 msg.MinExpires=0
-//line sip.rl:255
+//line sip.rl:258
 
 	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
 	goto st545
 tr747:
-//line sip.rl:255
+//line sip.rl:258
 
 	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
 	if err != nil { return nil, err }
@@ -14176,7 +14179,7 @@ tr747:
 			goto _test_eof545
 		}
 	st_case_545:
-//line msg_parse.go:14171
+//line msg_parse.go:14174
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -17635,7 +17638,7 @@ tr747:
 
 	{goto st273 }
 
-//line msg_parse.go:17630
+//line msg_parse.go:17633
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index a8f0e4b..4e0e081 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -182,6 +182,9 @@ action name {
 
 action value {{
 	b := data[mark:p - 1]
+	for len(b) > 0 && whitespacec(b[0]) {
+		b = b[1:]
+	}
 	if value != nil {
 		*value = string(b)
 	} else {
-- 
2.43.0


From 1624cc8992cf97e4a6ef5542bf96e45ca834b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 39/47] fix: cut quoted text off at a bare line feed

---
 sip/quote.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/quote.go b/sip/quote.go
index c8177af..294ab1b 100644
--- a/sip/quote.go
+++ b/sip/quote.go
@@ -58,6 +58,8 @@ func appendQuoteQuoted(b *bytes.Buffer, s []byte) {
 					!(s[i+2] == ' ' || s[i+2] == '\t') {
 					break
 				}
+			} else if s[i] == '\n' && (i == 0 || s[i-1] != '\r') {
+				break
 			}
 		} else {
 			if !qdtextesc(s[i]) {
-- 
2.43.0


From aa255b3b99ddbb71ec6d7b1d86e0f70b85731e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 40/47] fix: allow white space after the separator behind a
 bare address

---
 sip/msg_parse.go | 7551 +++++++++++++++++++++-------------------------
 sip/sip.rl       |    3 +-
 2 files changed, 3431 insertions(+), 4123 deletions(-)

diff --git a/sip/msg_parse.go b/sip/msg_parse.go
index 06fabea..7893275 100644
--- a/sip/msg_parse.go
+++ b/sip/msg_parse.go
@@ -30,7 +30,7 @@ import (
 
 //line msg_parse.go:28
 const msg_start int = 1
-const msg_first_final int = 757
+const msg_first_final int = 747
 const msg_error int = 0
 
 const msg_en_ctype int = 34
@@ -39,10 +39,10 @@ const msg_en_via int = 103
 const msg_en_addr_param int = 153
 const msg_en_addr_angled int = 188
 const msg_en_addr_uri int = 229
-const msg_en_addr int = 256
-const msg_en_value int = 263
-const msg_en_xheader int = 273
-const msg_en_header int = 279
+const msg_en_addr int = 246
+const msg_en_value int = 253
+const msg_en_xheader int = 263
+const msg_en_header int = 269
 const msg_en_main int = 1
 
 
@@ -116,8 +116,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_12
 	case 13:
 		goto st_case_13
-	case 757:
-		goto st_case_757
+	case 747:
+		goto st_case_747
 	case 14:
 		goto st_case_14
 	case 15:
@@ -180,8 +180,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_43
 	case 44:
 		goto st_case_44
-	case 758:
-		goto st_case_758
+	case 748:
+		goto st_case_748
 	case 45:
 		goto st_case_45
 	case 46:
@@ -236,8 +236,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_70
 	case 71:
 		goto st_case_71
-	case 759:
-		goto st_case_759
+	case 749:
+		goto st_case_749
 	case 72:
 		goto st_case_72
 	case 73:
@@ -324,8 +324,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_113
 	case 114:
 		goto st_case_114
-	case 760:
-		goto st_case_760
+	case 750:
+		goto st_case_750
 	case 115:
 		goto st_case_115
 	case 116:
@@ -410,8 +410,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_155
 	case 156:
 		goto st_case_156
-	case 761:
-		goto st_case_761
+	case 751:
+		goto st_case_751
 	case 157:
 		goto st_case_157
 	case 158:
@@ -490,8 +490,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_194
 	case 195:
 		goto st_case_195
-	case 762:
-		goto st_case_762
+	case 752:
+		goto st_case_752
 	case 196:
 		goto st_case_196
 	case 197:
@@ -570,8 +570,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_233
 	case 234:
 		goto st_case_234
-	case 763:
-		goto st_case_763
+	case 753:
+		goto st_case_753
 	case 235:
 		goto st_case_235
 	case 236:
@@ -596,34 +596,24 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_245
 	case 246:
 		goto st_case_246
-	case 764:
-		goto st_case_764
 	case 247:
 		goto st_case_247
 	case 248:
 		goto st_case_248
+	case 754:
+		goto st_case_754
 	case 249:
 		goto st_case_249
-	case 765:
-		goto st_case_765
 	case 250:
 		goto st_case_250
 	case 251:
 		goto st_case_251
-	case 766:
-		goto st_case_766
 	case 252:
 		goto st_case_252
 	case 253:
 		goto st_case_253
 	case 254:
 		goto st_case_254
-	case 767:
-		goto st_case_767
-	case 768:
-		goto st_case_768
-	case 769:
-		goto st_case_769
 	case 255:
 		goto st_case_255
 	case 256:
@@ -632,12 +622,12 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_257
 	case 258:
 		goto st_case_258
-	case 770:
-		goto st_case_770
 	case 259:
 		goto st_case_259
 	case 260:
 		goto st_case_260
+	case 755:
+		goto st_case_755
 	case 261:
 		goto st_case_261
 	case 262:
@@ -648,6 +638,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_264
 	case 265:
 		goto st_case_265
+	case 756:
+		goto st_case_756
 	case 266:
 		goto st_case_266
 	case 267:
@@ -658,8 +650,8 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_269
 	case 270:
 		goto st_case_270
-	case 771:
-		goto st_case_771
+	case 757:
+		goto st_case_757
 	case 271:
 		goto st_case_271
 	case 272:
@@ -670,8 +662,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_274
 	case 275:
 		goto st_case_275
-	case 772:
-		goto st_case_772
 	case 276:
 		goto st_case_276
 	case 277:
@@ -682,8 +672,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_279
 	case 280:
 		goto st_case_280
-	case 773:
-		goto st_case_773
 	case 281:
 		goto st_case_281
 	case 282:
@@ -1616,26 +1604,6 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 		goto st_case_745
 	case 746:
 		goto st_case_746
-	case 747:
-		goto st_case_747
-	case 748:
-		goto st_case_748
-	case 749:
-		goto st_case_749
-	case 750:
-		goto st_case_750
-	case 751:
-		goto st_case_751
-	case 752:
-		goto st_case_752
-	case 753:
-		goto st_case_753
-	case 754:
-		goto st_case_754
-	case 755:
-		goto st_case_755
-	case 756:
-		goto st_case_756
 	}
 	goto st_out
 	st_case_1:
@@ -1674,15 +1642,15 @@ func ParseMsg(data []byte) (msg *Msg, err error) {
 			goto tr0
 		}
 		goto st0
-tr417:
+tr397:
 //line sip.rl:174
 
 	p--
 
-	{goto st273 }
+	{goto st263 }
 
 	goto st0
-//line msg_parse.go:1677
+//line msg_parse.go:1645
 st_case_0:
 	st0:
 		cs = 0
@@ -1698,7 +1666,7 @@ tr0:
 			goto _test_eof2
 		}
 	st_case_2:
-//line msg_parse.go:1693
+//line msg_parse.go:1661
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -1745,7 +1713,7 @@ tr3:
 			goto _test_eof3
 		}
 	st_case_3:
-//line msg_parse.go:1740
+//line msg_parse.go:1708
 		if data[p] == 32 {
 			goto st0
 		}
@@ -1761,7 +1729,7 @@ tr5:
 			goto _test_eof4
 		}
 	st_case_4:
-//line msg_parse.go:1756
+//line msg_parse.go:1724
 		if data[p] == 32 {
 			goto tr7
 		}
@@ -1778,7 +1746,7 @@ tr7:
 			goto _test_eof5
 		}
 	st_case_5:
-//line msg_parse.go:1773
+//line msg_parse.go:1741
 		if data[p] == 83 {
 			goto st6
 		}
@@ -1831,7 +1799,7 @@ tr12:
 			goto _test_eof10
 		}
 	st_case_10:
-//line msg_parse.go:1826
+//line msg_parse.go:1794
 		if data[p] == 46 {
 			goto st11
 		}
@@ -1860,7 +1828,7 @@ tr14:
 			goto _test_eof12
 		}
 	st_case_12:
-//line msg_parse.go:1855
+//line msg_parse.go:1823
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -1886,21 +1854,21 @@ tr42:
 			goto _test_eof13
 		}
 	st_case_13:
-//line msg_parse.go:1881
+//line msg_parse.go:1849
 		if data[p] == 10 {
 			goto tr16
 		}
 		goto st0
 tr16:
 //line sip.rl:268
- {goto st279 } 
-	goto st757
-	st757:
+ {goto st269 } 
+	goto st747
+	st747:
 		if p++; p == pe {
-			goto _test_eof757
+			goto _test_eof747
 		}
-	st_case_757:
-//line msg_parse.go:1895
+	st_case_747:
+//line msg_parse.go:1863
 		goto st0
 tr2:
 //line sip.rl:80
@@ -1913,7 +1881,7 @@ tr2:
 			goto _test_eof14
 		}
 	st_case_14:
-//line msg_parse.go:1908
+//line msg_parse.go:1876
 		switch data[p] {
 		case 32:
 			goto tr3
@@ -2051,7 +2019,7 @@ tr20:
 			goto _test_eof18
 		}
 	st_case_18:
-//line msg_parse.go:2046
+//line msg_parse.go:2014
 		if data[p] == 46 {
 			goto st19
 		}
@@ -2080,7 +2048,7 @@ tr22:
 			goto _test_eof20
 		}
 	st_case_20:
-//line msg_parse.go:2075
+//line msg_parse.go:2043
 		if data[p] == 32 {
 			goto st21
 		}
@@ -2108,7 +2076,7 @@ tr24:
 			goto _test_eof22
 		}
 	st_case_22:
-//line msg_parse.go:2103
+//line msg_parse.go:2071
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr25
 		}
@@ -2124,7 +2092,7 @@ tr25:
 			goto _test_eof23
 		}
 	st_case_23:
-//line msg_parse.go:2119
+//line msg_parse.go:2087
 		if 48 <= data[p] && data[p] <= 57 {
 			goto tr26
 		}
@@ -2140,7 +2108,7 @@ tr26:
 			goto _test_eof24
 		}
 	st_case_24:
-//line msg_parse.go:2135
+//line msg_parse.go:2103
 		if data[p] == 32 {
 			goto st25
 		}
@@ -2234,7 +2202,7 @@ tr44:
 			goto _test_eof26
 		}
 	st_case_26:
-//line msg_parse.go:2229
+//line msg_parse.go:2197
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2308,7 +2276,7 @@ tr29:
 			goto _test_eof27
 		}
 	st_case_27:
-//line msg_parse.go:2303
+//line msg_parse.go:2271
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2333,7 +2301,7 @@ tr43:
 			goto _test_eof28
 		}
 	st_case_28:
-//line msg_parse.go:2328
+//line msg_parse.go:2296
 		switch {
 		case data[p] < 65:
 			if 48 <= data[p] && data[p] <= 57 {
@@ -2370,7 +2338,7 @@ tr37:
 			goto _test_eof29
 		}
 	st_case_29:
-//line msg_parse.go:2365
+//line msg_parse.go:2333
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr35
 		}
@@ -2398,7 +2366,7 @@ tr38:
 			goto _test_eof30
 		}
 	st_case_30:
-//line msg_parse.go:2393
+//line msg_parse.go:2361
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr37
 		}
@@ -2426,7 +2394,7 @@ tr39:
 			goto _test_eof31
 		}
 	st_case_31:
-//line msg_parse.go:2421
+//line msg_parse.go:2389
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr38
 		}
@@ -2454,7 +2422,7 @@ tr40:
 			goto _test_eof32
 		}
 	st_case_32:
-//line msg_parse.go:2449
+//line msg_parse.go:2417
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr39
 		}
@@ -2482,7 +2450,7 @@ tr41:
 			goto _test_eof33
 		}
 	st_case_33:
-//line msg_parse.go:2477
+//line msg_parse.go:2445
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr40
 		}
@@ -2536,7 +2504,7 @@ tr45:
 			goto _test_eof35
 		}
 	st_case_35:
-//line msg_parse.go:2531
+//line msg_parse.go:2499
 		switch data[p] {
 		case 33:
 			goto st35
@@ -2671,7 +2639,7 @@ tr49:
 			goto _test_eof38
 		}
 	st_case_38:
-//line msg_parse.go:2666
+//line msg_parse.go:2634
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2701,7 +2669,7 @@ tr50:
 			goto _test_eof39
 		}
 	st_case_39:
-//line msg_parse.go:2696
+//line msg_parse.go:2664
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -2943,21 +2911,21 @@ tr51:
 			goto _test_eof44
 		}
 	st_case_44:
-//line msg_parse.go:2938
+//line msg_parse.go:2906
 		if data[p] == 10 {
 			goto tr65
 		}
 		goto st0
 tr65:
 //line sip.rl:268
- {goto st279 } 
-	goto st758
-	st758:
+ {goto st269 } 
+	goto st748
+	st748:
 		if p++; p == pe {
-			goto _test_eof758
+			goto _test_eof748
 		}
-	st_case_758:
-//line msg_parse.go:2952
+	st_case_748:
+//line msg_parse.go:2920
 		goto st0
 tr52:
 //line sip.rl:235
@@ -2970,7 +2938,7 @@ tr52:
 			goto _test_eof45
 		}
 	st_case_45:
-//line msg_parse.go:2965
+//line msg_parse.go:2933
 		if data[p] == 10 {
 			goto st46
 		}
@@ -3073,7 +3041,7 @@ tr77:
 			goto _test_eof49
 		}
 	st_case_49:
-//line msg_parse.go:3068
+//line msg_parse.go:3036
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3129,7 +3097,7 @@ tr69:
 			goto _test_eof50
 		}
 	st_case_50:
-//line msg_parse.go:3124
+//line msg_parse.go:3092
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3161,7 +3129,7 @@ tr70:
 			goto _test_eof51
 		}
 	st_case_51:
-//line msg_parse.go:3156
+//line msg_parse.go:3124
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -3198,7 +3166,7 @@ tr80:
 			goto _test_eof52
 		}
 	st_case_52:
-//line msg_parse.go:3193
+//line msg_parse.go:3161
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr77
 		}
@@ -3226,7 +3194,7 @@ tr81:
 			goto _test_eof53
 		}
 	st_case_53:
-//line msg_parse.go:3221
+//line msg_parse.go:3189
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr80
 		}
@@ -3254,7 +3222,7 @@ tr82:
 			goto _test_eof54
 		}
 	st_case_54:
-//line msg_parse.go:3249
+//line msg_parse.go:3217
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr81
 		}
@@ -3282,7 +3250,7 @@ tr83:
 			goto _test_eof55
 		}
 	st_case_55:
-//line msg_parse.go:3277
+//line msg_parse.go:3245
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr82
 		}
@@ -3310,7 +3278,7 @@ tr84:
 			goto _test_eof56
 		}
 	st_case_56:
-//line msg_parse.go:3305
+//line msg_parse.go:3273
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr83
 		}
@@ -3338,7 +3306,7 @@ tr85:
 			goto _test_eof57
 		}
 	st_case_57:
-//line msg_parse.go:3333
+//line msg_parse.go:3301
 		if data[p] == 10 {
 			goto tr86
 		}
@@ -3355,7 +3323,7 @@ tr86:
 			goto _test_eof58
 		}
 	st_case_58:
-//line msg_parse.go:3350
+//line msg_parse.go:3318
 		switch data[p] {
 		case 9:
 			goto tr77
@@ -3579,7 +3547,7 @@ tr93:
 			goto _test_eof69
 		}
 	st_case_69:
-//line msg_parse.go:3574
+//line msg_parse.go:3542
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3640,7 +3608,7 @@ tr94:
 			goto _test_eof70
 		}
 	st_case_70:
-//line msg_parse.go:3635
+//line msg_parse.go:3603
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3674,7 +3642,7 @@ tr96:
 			goto _test_eof71
 		}
 	st_case_71:
-//line msg_parse.go:3669
+//line msg_parse.go:3637
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3723,7 +3691,7 @@ tr106:
 
 //line sip.rl:270
  {goto st103 } 
-	goto st759
+	goto st749
 tr110:
 //line sip.rl:170
 
@@ -3740,7 +3708,7 @@ tr110:
 
 //line sip.rl:271
  {goto st68 } 
-	goto st759
+	goto st749
 tr122:
 //line sip.rl:170
 
@@ -3753,14 +3721,14 @@ tr122:
 	via = nil
 
 //line sip.rl:268
- {goto st279 } 
-	goto st759
-	st759:
+ {goto st269 } 
+	goto st749
+	st749:
 		if p++; p == pe {
-			goto _test_eof759
+			goto _test_eof749
 		}
-	st_case_759:
-//line msg_parse.go:3755
+	st_case_749:
+//line msg_parse.go:3723
 		goto st0
 	st72:
 		if p++; p == pe {
@@ -3806,7 +3774,7 @@ tr97:
 			goto _test_eof75
 		}
 	st_case_75:
-//line msg_parse.go:3801
+//line msg_parse.go:3769
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3877,7 +3845,7 @@ tr98:
 			goto _test_eof79
 		}
 	st_case_79:
-//line msg_parse.go:3872
+//line msg_parse.go:3840
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -3940,7 +3908,7 @@ tr114:
 			goto _test_eof80
 		}
 	st_case_80:
-//line msg_parse.go:3935
+//line msg_parse.go:3903
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4063,7 +4031,7 @@ tr99:
 			goto _test_eof85
 		}
 	st_case_85:
-//line msg_parse.go:4058
+//line msg_parse.go:4026
 		if data[p] == 10 {
 			goto tr122
 		}
@@ -4140,7 +4108,7 @@ tr132:
 			goto _test_eof87
 		}
 	st_case_87:
-//line msg_parse.go:4135
+//line msg_parse.go:4103
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4196,7 +4164,7 @@ tr124:
 			goto _test_eof88
 		}
 	st_case_88:
-//line msg_parse.go:4191
+//line msg_parse.go:4159
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4230,7 +4198,7 @@ tr125:
 			goto _test_eof89
 		}
 	st_case_89:
-//line msg_parse.go:4225
+//line msg_parse.go:4193
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -4267,7 +4235,7 @@ tr135:
 			goto _test_eof90
 		}
 	st_case_90:
-//line msg_parse.go:4262
+//line msg_parse.go:4230
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr132
 		}
@@ -4295,7 +4263,7 @@ tr136:
 			goto _test_eof91
 		}
 	st_case_91:
-//line msg_parse.go:4290
+//line msg_parse.go:4258
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr135
 		}
@@ -4323,7 +4291,7 @@ tr137:
 			goto _test_eof92
 		}
 	st_case_92:
-//line msg_parse.go:4318
+//line msg_parse.go:4286
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr136
 		}
@@ -4351,7 +4319,7 @@ tr138:
 			goto _test_eof93
 		}
 	st_case_93:
-//line msg_parse.go:4346
+//line msg_parse.go:4314
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr137
 		}
@@ -4379,7 +4347,7 @@ tr139:
 			goto _test_eof94
 		}
 	st_case_94:
-//line msg_parse.go:4374
+//line msg_parse.go:4342
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr138
 		}
@@ -4407,7 +4375,7 @@ tr140:
 			goto _test_eof95
 		}
 	st_case_95:
-//line msg_parse.go:4402
+//line msg_parse.go:4370
 		if data[p] == 10 {
 			goto tr141
 		}
@@ -4424,7 +4392,7 @@ tr141:
 			goto _test_eof96
 		}
 	st_case_96:
-//line msg_parse.go:4419
+//line msg_parse.go:4387
 		switch data[p] {
 		case 9:
 			goto tr132
@@ -4510,7 +4478,7 @@ tr100:
 			goto _test_eof100
 		}
 	st_case_100:
-//line msg_parse.go:4505
+//line msg_parse.go:4473
 		if data[p] == 10 {
 			goto st101
 		}
@@ -4594,7 +4562,7 @@ tr146:
 			goto _test_eof104
 		}
 	st_case_104:
-//line msg_parse.go:4589
+//line msg_parse.go:4557
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4649,7 +4617,7 @@ tr147:
 			goto _test_eof105
 		}
 	st_case_105:
-//line msg_parse.go:4644
+//line msg_parse.go:4612
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4679,7 +4647,7 @@ tr149:
 			goto _test_eof106
 		}
 	st_case_106:
-//line msg_parse.go:4674
+//line msg_parse.go:4642
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4737,7 +4705,7 @@ tr154:
 			goto _test_eof107
 		}
 	st_case_107:
-//line msg_parse.go:4732
+//line msg_parse.go:4700
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4792,7 +4760,7 @@ tr156:
 			goto _test_eof108
 		}
 	st_case_108:
-//line msg_parse.go:4787
+//line msg_parse.go:4755
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4822,7 +4790,7 @@ tr158:
 			goto _test_eof109
 		}
 	st_case_109:
-//line msg_parse.go:4817
+//line msg_parse.go:4785
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4880,7 +4848,7 @@ tr163:
 			goto _test_eof110
 		}
 	st_case_110:
-//line msg_parse.go:4875
+//line msg_parse.go:4843
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4938,7 +4906,7 @@ tr165:
 			goto _test_eof111
 		}
 	st_case_111:
-//line msg_parse.go:4933
+//line msg_parse.go:4901
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -4985,7 +4953,7 @@ tr169:
 			goto _test_eof112
 		}
 	st_case_112:
-//line msg_parse.go:4980
+//line msg_parse.go:4948
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5038,7 +5006,7 @@ tr172:
 			goto _test_eof113
 		}
 	st_case_113:
-//line msg_parse.go:5033
+//line msg_parse.go:5001
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5072,7 +5040,7 @@ tr173:
 			goto _test_eof114
 		}
 	st_case_114:
-//line msg_parse.go:5067
+//line msg_parse.go:5035
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5117,7 +5085,7 @@ tr184:
 
 //line sip.rl:270
  {goto st103 } 
-	goto st760
+	goto st750
 tr193:
 //line sip.rl:72
 
@@ -5130,7 +5098,7 @@ tr193:
 
 //line sip.rl:271
  {goto st68 } 
-	goto st760
+	goto st750
 tr199:
 //line sip.rl:143
 
@@ -5139,14 +5107,14 @@ tr199:
 	via = nil
 
 //line sip.rl:268
- {goto st279 } 
-	goto st760
-	st760:
+ {goto st269 } 
+	goto st750
+	st750:
 		if p++; p == pe {
-			goto _test_eof760
+			goto _test_eof750
 		}
-	st_case_760:
-//line msg_parse.go:5141
+	st_case_750:
+//line msg_parse.go:5109
 		goto st0
 	st115:
 		if p++; p == pe {
@@ -5192,7 +5160,7 @@ tr175:
 			goto _test_eof118
 		}
 	st_case_118:
-//line msg_parse.go:5187
+//line msg_parse.go:5155
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5224,7 +5192,7 @@ tr188:
 			goto _test_eof119
 		}
 	st_case_119:
-//line msg_parse.go:5219
+//line msg_parse.go:5187
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5286,7 +5254,7 @@ tr176:
 			goto _test_eof121
 		}
 	st_case_121:
-//line msg_parse.go:5281
+//line msg_parse.go:5249
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5394,7 +5362,7 @@ tr177:
 			goto _test_eof128
 		}
 	st_case_128:
-//line msg_parse.go:5389
+//line msg_parse.go:5357
 		if data[p] == 10 {
 			goto tr199
 		}
@@ -5446,7 +5414,7 @@ tr178:
 			goto _test_eof132
 		}
 	st_case_132:
-//line msg_parse.go:5441
+//line msg_parse.go:5409
 		if data[p] == 10 {
 			goto st133
 		}
@@ -5513,7 +5481,7 @@ tr204:
 			goto _test_eof136
 		}
 	st_case_136:
-//line msg_parse.go:5508
+//line msg_parse.go:5476
 		switch data[p] {
 		case 46:
 			goto st136
@@ -5544,7 +5512,7 @@ tr206:
 			goto _test_eof137
 		}
 	st_case_137:
-//line msg_parse.go:5539
+//line msg_parse.go:5507
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5580,7 +5548,7 @@ tr167:
 			goto _test_eof138
 		}
 	st_case_138:
-//line msg_parse.go:5575
+//line msg_parse.go:5543
 		if data[p] == 10 {
 			goto st139
 		}
@@ -5702,7 +5670,7 @@ tr159:
 			goto _test_eof144
 		}
 	st_case_144:
-//line msg_parse.go:5697
+//line msg_parse.go:5665
 		if data[p] == 10 {
 			goto st145
 		}
@@ -5807,7 +5775,7 @@ tr150:
 			goto _test_eof150
 		}
 	st_case_150:
-//line msg_parse.go:5802
+//line msg_parse.go:5770
 		if data[p] == 10 {
 			goto st151
 		}
@@ -5891,7 +5859,7 @@ tr217:
 			goto _test_eof154
 		}
 	st_case_154:
-//line msg_parse.go:5886
+//line msg_parse.go:5854
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5952,7 +5920,7 @@ tr218:
 			goto _test_eof155
 		}
 	st_case_155:
-//line msg_parse.go:5947
+//line msg_parse.go:5915
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -5986,7 +5954,7 @@ tr220:
 			goto _test_eof156
 		}
 	st_case_156:
-//line msg_parse.go:5981
+//line msg_parse.go:5949
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6030,8 +5998,8 @@ tr230:
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st761
+ {goto st246 } 
+	goto st751
 tr234:
 //line sip.rl:216
 
@@ -6044,7 +6012,7 @@ tr234:
 
 //line sip.rl:265
  {goto st153 } 
-	goto st761
+	goto st751
 tr246:
 //line sip.rl:216
 
@@ -6057,14 +6025,14 @@ tr246:
 	addr = nil
 
 //line sip.rl:268
- {goto st279 } 
-	goto st761
-	st761:
+ {goto st269 } 
+	goto st751
+	st751:
 		if p++; p == pe {
-			goto _test_eof761
+			goto _test_eof751
 		}
-	st_case_761:
-//line msg_parse.go:6059
+	st_case_751:
+//line msg_parse.go:6027
 		goto st0
 	st157:
 		if p++; p == pe {
@@ -6110,7 +6078,7 @@ tr221:
 			goto _test_eof160
 		}
 	st_case_160:
-//line msg_parse.go:6105
+//line msg_parse.go:6073
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6181,7 +6149,7 @@ tr222:
 			goto _test_eof164
 		}
 	st_case_164:
-//line msg_parse.go:6176
+//line msg_parse.go:6144
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6244,7 +6212,7 @@ tr238:
 			goto _test_eof165
 		}
 	st_case_165:
-//line msg_parse.go:6239
+//line msg_parse.go:6207
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6367,7 +6335,7 @@ tr223:
 			goto _test_eof170
 		}
 	st_case_170:
-//line msg_parse.go:6362
+//line msg_parse.go:6330
 		if data[p] == 10 {
 			goto tr246
 		}
@@ -6444,7 +6412,7 @@ tr256:
 			goto _test_eof172
 		}
 	st_case_172:
-//line msg_parse.go:6439
+//line msg_parse.go:6407
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6500,7 +6468,7 @@ tr248:
 			goto _test_eof173
 		}
 	st_case_173:
-//line msg_parse.go:6495
+//line msg_parse.go:6463
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6534,7 +6502,7 @@ tr249:
 			goto _test_eof174
 		}
 	st_case_174:
-//line msg_parse.go:6529
+//line msg_parse.go:6497
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -6571,7 +6539,7 @@ tr259:
 			goto _test_eof175
 		}
 	st_case_175:
-//line msg_parse.go:6566
+//line msg_parse.go:6534
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr256
 		}
@@ -6599,7 +6567,7 @@ tr260:
 			goto _test_eof176
 		}
 	st_case_176:
-//line msg_parse.go:6594
+//line msg_parse.go:6562
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr259
 		}
@@ -6627,7 +6595,7 @@ tr261:
 			goto _test_eof177
 		}
 	st_case_177:
-//line msg_parse.go:6622
+//line msg_parse.go:6590
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr260
 		}
@@ -6655,7 +6623,7 @@ tr262:
 			goto _test_eof178
 		}
 	st_case_178:
-//line msg_parse.go:6650
+//line msg_parse.go:6618
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr261
 		}
@@ -6683,7 +6651,7 @@ tr263:
 			goto _test_eof179
 		}
 	st_case_179:
-//line msg_parse.go:6678
+//line msg_parse.go:6646
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr262
 		}
@@ -6711,7 +6679,7 @@ tr264:
 			goto _test_eof180
 		}
 	st_case_180:
-//line msg_parse.go:6706
+//line msg_parse.go:6674
 		if data[p] == 10 {
 			goto tr265
 		}
@@ -6728,7 +6696,7 @@ tr265:
 			goto _test_eof181
 		}
 	st_case_181:
-//line msg_parse.go:6723
+//line msg_parse.go:6691
 		switch data[p] {
 		case 9:
 			goto tr256
@@ -6814,7 +6782,7 @@ tr224:
 			goto _test_eof185
 		}
 	st_case_185:
-//line msg_parse.go:6809
+//line msg_parse.go:6777
 		if data[p] == 10 {
 			goto st186
 		}
@@ -6915,7 +6883,7 @@ tr329:
 			goto _test_eof189
 		}
 	st_case_189:
-//line msg_parse.go:6910
+//line msg_parse.go:6878
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -6955,7 +6923,7 @@ tr330:
 			goto _test_eof190
 		}
 	st_case_190:
-//line msg_parse.go:6950
+//line msg_parse.go:6918
 		switch {
 		case data[p] > 90:
 			if 97 <= data[p] && data[p] <= 122 {
@@ -6976,7 +6944,7 @@ tr275:
 			goto _test_eof191
 		}
 	st_case_191:
-//line msg_parse.go:6971
+//line msg_parse.go:6939
 		switch data[p] {
 		case 43:
 			goto st191
@@ -7073,7 +7041,7 @@ tr279:
 			goto _test_eof194
 		}
 	st_case_194:
-//line msg_parse.go:7068
+//line msg_parse.go:7036
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7140,8 +7108,8 @@ tr285:
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st762
+ {goto st246 } 
+	goto st752
 tr289:
 //line sip.rl:72
 
@@ -7150,7 +7118,7 @@ tr289:
 
 //line sip.rl:265
  {goto st153 } 
-	goto st762
+	goto st752
 tr293:
 //line sip.rl:220
 
@@ -7159,14 +7127,14 @@ tr293:
 	addr = nil
 
 //line sip.rl:268
- {goto st279 } 
-	goto st762
-	st762:
+ {goto st269 } 
+	goto st752
+	st752:
 		if p++; p == pe {
-			goto _test_eof762
+			goto _test_eof752
 		}
-	st_case_762:
-//line msg_parse.go:7161
+	st_case_752:
+//line msg_parse.go:7129
 		goto st0
 	st196:
 		if p++; p == pe {
@@ -7380,7 +7348,7 @@ tr331:
 			goto _test_eof210
 		}
 	st_case_210:
-//line msg_parse.go:7375
+//line msg_parse.go:7343
 		if data[p] == 10 {
 			goto st211
 		}
@@ -7422,7 +7390,7 @@ tr271:
 			goto _test_eof213
 		}
 	st_case_213:
-//line msg_parse.go:7417
+//line msg_parse.go:7385
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7484,7 +7452,7 @@ tr304:
 			goto _test_eof214
 		}
 	st_case_214:
-//line msg_parse.go:7479
+//line msg_parse.go:7447
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7548,7 +7516,7 @@ tr306:
 			goto _test_eof215
 		}
 	st_case_215:
-//line msg_parse.go:7543
+//line msg_parse.go:7511
 		if data[p] == 10 {
 			goto st216
 		}
@@ -7580,7 +7548,7 @@ tr309:
 			goto _test_eof217
 		}
 	st_case_217:
-//line msg_parse.go:7575
+//line msg_parse.go:7543
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7640,7 +7608,7 @@ tr272:
 			goto _test_eof218
 		}
 	st_case_218:
-//line msg_parse.go:7635
+//line msg_parse.go:7603
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7708,7 +7676,7 @@ tr320:
 			goto _test_eof219
 		}
 	st_case_219:
-//line msg_parse.go:7703
+//line msg_parse.go:7671
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7764,7 +7732,7 @@ tr312:
 			goto _test_eof220
 		}
 	st_case_220:
-//line msg_parse.go:7759
+//line msg_parse.go:7727
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -7794,7 +7762,7 @@ tr313:
 			goto _test_eof221
 		}
 	st_case_221:
-//line msg_parse.go:7789
+//line msg_parse.go:7757
 		switch {
 		case data[p] < 11:
 			if data[p] <= 9 {
@@ -7831,7 +7799,7 @@ tr323:
 			goto _test_eof222
 		}
 	st_case_222:
-//line msg_parse.go:7826
+//line msg_parse.go:7794
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr320
 		}
@@ -7859,7 +7827,7 @@ tr324:
 			goto _test_eof223
 		}
 	st_case_223:
-//line msg_parse.go:7854
+//line msg_parse.go:7822
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr323
 		}
@@ -7887,7 +7855,7 @@ tr325:
 			goto _test_eof224
 		}
 	st_case_224:
-//line msg_parse.go:7882
+//line msg_parse.go:7850
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr324
 		}
@@ -7915,7 +7883,7 @@ tr326:
 			goto _test_eof225
 		}
 	st_case_225:
-//line msg_parse.go:7910
+//line msg_parse.go:7878
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr325
 		}
@@ -7943,7 +7911,7 @@ tr327:
 			goto _test_eof226
 		}
 	st_case_226:
-//line msg_parse.go:7938
+//line msg_parse.go:7906
 		if 128 <= data[p] && data[p] <= 191 {
 			goto tr326
 		}
@@ -7971,7 +7939,7 @@ tr328:
 			goto _test_eof227
 		}
 	st_case_227:
-//line msg_parse.go:7966
+//line msg_parse.go:7934
 		if data[p] == 10 {
 			goto tr332
 		}
@@ -7988,7 +7956,7 @@ tr332:
 			goto _test_eof228
 		}
 	st_case_228:
-//line msg_parse.go:7983
+//line msg_parse.go:7951
 		switch data[p] {
 		case 9:
 			goto tr320
@@ -8057,12 +8025,17 @@ tr332:
 			goto st232
 		}
 		switch {
-		case data[p] < 63:
-			if 36 <= data[p] && data[p] <= 59 {
+		case data[p] < 45:
+			if 36 <= data[p] && data[p] <= 43 {
 				goto st232
 			}
-		case data[p] > 91:
-			if 97 <= data[p] && data[p] <= 122 {
+		case data[p] > 58:
+			switch {
+			case data[p] > 91:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto st232
+				}
+			case data[p] >= 63:
 				goto st232
 			}
 		default:
@@ -8130,7 +8103,7 @@ tr336:
 			goto _test_eof233
 		}
 	st_case_233:
-//line msg_parse.go:8125
+//line msg_parse.go:8098
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8151,11 +8124,19 @@ tr336:
 			goto st242
 		}
 		goto st0
+tr337:
+//line sip.rl:211
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st234
 	st234:
 		if p++; p == pe {
 			goto _test_eof234
 		}
 	st_case_234:
+//line msg_parse.go:8131
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8195,8 +8176,8 @@ tr345:
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st763
+ {goto st246 } 
+	goto st753
 tr349:
 //line sip.rl:72
 
@@ -8205,8 +8186,8 @@ tr349:
 
 //line sip.rl:265
  {goto st153 } 
-	goto st763
-tr375:
+	goto st753
+tr355:
 //line sip.rl:220
 
 	*addrp = addr
@@ -8214,14 +8195,14 @@ tr375:
 	addr = nil
 
 //line sip.rl:268
- {goto st279 } 
-	goto st763
-	st763:
+ {goto st269 } 
+	goto st753
+	st753:
 		if p++; p == pe {
-			goto _test_eof763
+			goto _test_eof753
 		}
-	st_case_763:
-//line msg_parse.go:8216
+	st_case_753:
+//line msg_parse.go:8197
 		goto st0
 	st235:
 		if p++; p == pe {
@@ -8256,11 +8237,19 @@ tr375:
 			goto st237
 		}
 		goto tr345
+tr338:
+//line sip.rl:211
+
+	addr.Uri, err = ParseURI(data[mark:p])
+	if err != nil { return nil, err }
+
+	goto st238
 	st238:
 		if p++; p == pe {
 			goto _test_eof238
 		}
 	st_case_238:
+//line msg_parse.go:8244
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8332,7 +8321,7 @@ tr340:
 			goto _test_eof242
 		}
 	st_case_242:
-//line msg_parse.go:8327
+//line msg_parse.go:8316
 		if data[p] == 10 {
 			goto st243
 		}
@@ -8365,7 +8354,7 @@ tr340:
 			goto st238
 		}
 		goto st0
-tr337:
+tr339:
 //line sip.rl:211
 
 	addr.Uri, err = ParseURI(data[mark:p])
@@ -8377,73 +8366,69 @@ tr337:
 			goto _test_eof245
 		}
 	st_case_245:
-//line msg_parse.go:8372
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
+//line msg_parse.go:8361
+		if data[p] == 10 {
 			goto tr355
+		}
+		goto st0
+	st246:
+		if p++; p == pe {
+			goto _test_eof246
+		}
+	st_case_246:
+		switch data[p] {
 		case 33:
 			goto tr356
-		case 44:
-			goto tr337
-		case 59:
+		case 34:
 			goto tr357
+		case 37:
+			goto tr356
+		case 39:
+			goto tr356
 		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
+			goto tr357
 		case 126:
 			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
 		}
 		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
+		case data[p] < 48:
+			switch {
+			case data[p] > 43:
+				if 45 <= data[p] && data[p] <= 46 {
+					goto tr356
+				}
+			case data[p] >= 42:
+				goto tr356
 			}
-		case _widec > 35:
+		case data[p] > 57:
 			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
+			case data[p] < 95:
+				if 65 <= data[p] && data[p] <= 90 {
+					goto tr358
 				}
-			case _widec >= 36:
+			case data[p] > 96:
+				if 97 <= data[p] && data[p] <= 122 {
+					goto tr358
+				}
+			default:
 				goto tr356
 			}
 		default:
-			goto tr345
+			goto tr356
 		}
 		goto st0
-tr355:
-//line sip.rl:211
+tr356:
+//line sip.rl:80
 
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
+	mark = p
 
-	goto st246
-	st246:
+	goto st247
+	st247:
 		if p++; p == pe {
-			goto _test_eof246
+			goto _test_eof247
 		}
-	st_case_246:
-//line msg_parse.go:8438
+	st_case_247:
+//line msg_parse.go:8423
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8453,48 +8438,48 @@ tr355:
 		}
 		switch _widec {
 		case 9:
-			goto st246
+			goto st248
 		case 32:
-			goto st246
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		case 269:
-			goto tr345
-		case 525:
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 126:
 			goto st247
+		case 525:
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr345
+			goto st247
 		}
 		goto st0
-tr361:
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st764
-	st764:
+	st248:
 		if p++; p == pe {
-			goto _test_eof764
+			goto _test_eof248
 		}
-	st_case_764:
-//line msg_parse.go:8489
+	st_case_248:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -8504,708 +8489,46 @@ tr361:
 		}
 		switch _widec {
 		case 9:
-			goto st238
+			goto st248
 		case 32:
-			goto st238
-		case 269:
-			goto tr349
+			goto st248
+		case 33:
+			goto st247
+		case 37:
+			goto st247
+		case 39:
+			goto st247
+		case 60:
+			goto tr362
+		case 126:
+			goto st247
 		case 525:
-			goto st239
+			goto st249
 		}
 		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
+		case _widec < 48:
+			switch {
+			case _widec > 43:
+				if 45 <= _widec && _widec <= 46 {
+					goto st247
+				}
+			case _widec >= 42:
+				goto st247
+			}
+		case _widec > 57:
+			switch {
+			case _widec > 90:
+				if 95 <= _widec && _widec <= 122 {
+					goto st247
+				}
+			case _widec >= 65:
+				goto st247
 			}
 		default:
-			goto tr349
-		}
-		goto st0
-tr359:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st247
-	st247:
-		if p++; p == pe {
-			goto _test_eof247
-		}
-	st_case_247:
-//line msg_parse.go:8528
-		if data[p] == 10 {
-			goto st248
-		}
-		goto st0
-	st248:
-		if p++; p == pe {
-			goto _test_eof248
-		}
-	st_case_248:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		}
-		goto st0
-	st249:
-		if p++; p == pe {
-			goto _test_eof249
-		}
-	st_case_249:
-		switch data[p] {
-		case 9:
-			goto st249
-		case 32:
-			goto st249
-		case 44:
-			goto st234
-		case 59:
-			goto tr361
-		}
-		goto tr345
-tr356:
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st765
-tr366:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st765
-	st765:
-		if p++; p == pe {
-			goto _test_eof765
-		}
-	st_case_765:
-//line msg_parse.go:8590
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr336
-		case 32:
-			goto tr336
-		case 33:
-			goto st232
-		case 44:
-			goto tr337
-		case 59:
-			goto tr338
-		case 61:
-			goto st232
-		case 93:
-			goto st232
-		case 95:
-			goto st232
-		case 126:
-			goto st232
-		case 269:
-			goto tr339
-		case 525:
-			goto tr340
-		}
-		switch {
-		case _widec < 63:
-			if 36 <= _widec && _widec <= 58 {
-				goto st232
-			}
-		case _widec > 91:
-			if 97 <= _widec && _widec <= 122 {
-				goto st232
-			}
-		default:
-			goto st232
-		}
-		goto st0
-tr338:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st250
-	st250:
-		if p++; p == pe {
-			goto _test_eof250
-		}
-	st_case_250:
-//line msg_parse.go:8647
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr365:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st251
-	st251:
-		if p++; p == pe {
-			goto _test_eof251
-		}
-	st_case_251:
-//line msg_parse.go:8713
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st251
-		case 32:
-			goto st251
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		case 269:
-			goto tr349
-		case 525:
-			goto st252
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr349
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr371:
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st766
-	st766:
-		if p++; p == pe {
-			goto _test_eof766
-		}
-	st_case_766:
-//line msg_parse.go:8758
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st234
-		case 32:
-			goto st234
-		case 269:
-			goto tr345
-		case 525:
-			goto st235
-		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr345
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr369:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st252
-	st252:
-		if p++; p == pe {
-			goto _test_eof252
-		}
-	st_case_252:
-//line msg_parse.go:8797
-		if data[p] == 10 {
-			goto st253
-		}
-		goto st0
-	st253:
-		if p++; p == pe {
-			goto _test_eof253
-		}
-	st_case_253:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		}
-		goto st0
-	st254:
-		if p++; p == pe {
-			goto _test_eof254
-		}
-	st_case_254:
-		switch data[p] {
-		case 9:
-			goto st254
-		case 32:
-			goto st254
-		case 44:
-			goto tr371
-		case 59:
-			goto st238
-		}
-		goto tr349
-tr367:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st767
-	st767:
-		if p++; p == pe {
-			goto _test_eof767
-		}
-	st_case_767:
-//line msg_parse.go:8849
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr355
-		case 32:
-			goto tr355
-		case 33:
-			goto tr356
-		case 44:
-			goto tr337
-		case 59:
-			goto tr357
-		case 60:
-			goto tr345
-		case 62:
-			goto tr345
-		case 92:
-			goto tr345
-		case 94:
-			goto tr345
-		case 96:
-			goto tr345
-		case 126:
-			goto tr356
-		case 269:
-			goto tr358
-		case 525:
-			goto tr359
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr345
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr345
-				}
-			case _widec >= 36:
-				goto tr356
-			}
-		default:
-			goto tr345
-		}
-		goto st0
-tr357:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st768
-	st768:
-		if p++; p == pe {
-			goto _test_eof768
-		}
-	st_case_768:
-//line msg_parse.go:8928
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto tr365
-		case 32:
-			goto tr365
-		case 33:
-			goto tr366
-		case 44:
-			goto tr367
-		case 59:
-			goto tr338
-		case 60:
-			goto tr349
-		case 62:
-			goto tr349
-		case 92:
-			goto tr349
-		case 94:
-			goto tr349
-		case 96:
-			goto tr349
-		case 126:
-			goto tr366
-		case 269:
-			goto tr368
-		case 525:
-			goto tr369
-		}
-		switch {
-		case _widec < 14:
-			if _widec <= 12 {
-				goto tr349
-			}
-		case _widec > 35:
-			switch {
-			case _widec > 122:
-				if 123 <= _widec {
-					goto tr349
-				}
-			case _widec >= 36:
-				goto tr366
-			}
-		default:
-			goto tr349
-		}
-		goto st0
-tr358:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:220
-
-	*addrp = addr
-	addrp = &addr.Next
-	addr = nil
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:263
- {goto st256 } 
-	goto st769
-tr368:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-//line sip.rl:72
-
-	p--
-
-
-//line sip.rl:265
- {goto st153 } 
-	goto st769
-	st769:
-		if p++; p == pe {
-			goto _test_eof769
-		}
-	st_case_769:
-//line msg_parse.go:9021
-		if data[p] == 10 {
-			goto tr375
-		}
-		goto st0
-tr339:
-//line sip.rl:211
-
-	addr.Uri, err = ParseURI(data[mark:p])
-	if err != nil { return nil, err }
-
-	goto st255
-	st255:
-		if p++; p == pe {
-			goto _test_eof255
-		}
-	st_case_255:
-//line msg_parse.go:9038
-		if data[p] == 10 {
-			goto tr375
-		}
-		goto st0
-	st256:
-		if p++; p == pe {
-			goto _test_eof256
-		}
-	st_case_256:
-		switch data[p] {
-		case 33:
-			goto tr376
-		case 34:
-			goto tr377
-		case 37:
-			goto tr376
-		case 39:
-			goto tr376
-		case 60:
-			goto tr377
-		case 126:
-			goto tr376
-		}
-		switch {
-		case data[p] < 48:
-			switch {
-			case data[p] > 43:
-				if 45 <= data[p] && data[p] <= 46 {
-					goto tr376
-				}
-			case data[p] >= 42:
-				goto tr376
-			}
-		case data[p] > 57:
-			switch {
-			case data[p] < 95:
-				if 65 <= data[p] && data[p] <= 90 {
-					goto tr378
-				}
-			case data[p] > 96:
-				if 97 <= data[p] && data[p] <= 122 {
-					goto tr378
-				}
-			default:
-				goto tr376
-			}
-		default:
-			goto tr376
-		}
-		goto st0
-tr376:
-//line sip.rl:80
-
-	mark = p
-
-	goto st257
-	st257:
-		if p++; p == pe {
-			goto _test_eof257
-		}
-	st_case_257:
-//line msg_parse.go:9100
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
-		}
-		goto st0
-	st258:
-		if p++; p == pe {
-			goto _test_eof258
-		}
-	st_case_258:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st258
-		case 32:
-			goto st258
-		case 33:
-			goto st257
-		case 37:
-			goto st257
-		case 39:
-			goto st257
-		case 60:
-			goto tr382
-		case 126:
-			goto st257
-		case 525:
-			goto st259
-		}
-		switch {
-		case _widec < 48:
-			switch {
-			case _widec > 43:
-				if 45 <= _widec && _widec <= 46 {
-					goto st257
-				}
-			case _widec >= 42:
-				goto st257
-			}
-		case _widec > 57:
-			switch {
-			case _widec > 90:
-				if 95 <= _widec && _widec <= 122 {
-					goto st257
-				}
-			case _widec >= 65:
-				goto st257
-			}
-		default:
-			goto st257
+			goto st247
 		}
 		goto st0
-tr377:
+tr357:
 //line sip.rl:195
 
 	addr = new(Addr)
@@ -9217,8 +8540,8 @@ tr377:
 
 //line sip.rl:264
  {goto st188 } 
-	goto st770
-tr382:
+	goto st754
+tr362:
 //line sip.rl:195
 
 	addr = new(Addr)
@@ -9230,8 +8553,8 @@ tr382:
 
 //line sip.rl:264
  {goto st188 } 
-	goto st770
-tr386:
+	goto st754
+tr366:
 //line sip.rl:195
 
 	addr = new(Addr)
@@ -9243,91 +8566,91 @@ tr386:
 
 //line sip.rl:266
  {goto st229 } 
-	goto st770
-	st770:
+	goto st754
+	st754:
 		if p++; p == pe {
-			goto _test_eof770
+			goto _test_eof754
 		}
-	st_case_770:
-//line msg_parse.go:9244
+	st_case_754:
+//line msg_parse.go:8567
 		goto st0
-	st259:
+	st249:
 		if p++; p == pe {
-			goto _test_eof259
+			goto _test_eof249
 		}
-	st_case_259:
+	st_case_249:
 		if data[p] == 10 {
-			goto st260
+			goto st250
 		}
 		goto st0
-	st260:
+	st250:
 		if p++; p == pe {
-			goto _test_eof260
+			goto _test_eof250
 		}
-	st_case_260:
+	st_case_250:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		}
 		goto st0
-	st261:
+	st251:
 		if p++; p == pe {
-			goto _test_eof261
+			goto _test_eof251
 		}
-	st_case_261:
+	st_case_251:
 		switch data[p] {
 		case 9:
-			goto st261
+			goto st251
 		case 32:
-			goto st261
+			goto st251
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 60:
-			goto tr382
+			goto tr362
 		case 126:
-			goto st257
+			goto st247
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 42:
-				goto st257
+				goto st247
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st257
+					goto st247
 				}
 			case data[p] >= 65:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st257
+			goto st247
 		}
 		goto st0
-tr378:
+tr358:
 //line sip.rl:80
 
 	mark = p
 
-	goto st262
-	st262:
+	goto st252
+	st252:
 		if p++; p == pe {
-			goto _test_eof262
+			goto _test_eof252
 		}
-	st_case_262:
-//line msg_parse.go:9322
+	st_case_252:
+//line msg_parse.go:8645
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9337,54 +8660,54 @@ tr378:
 		}
 		switch _widec {
 		case 9:
-			goto st258
+			goto st248
 		case 32:
-			goto st258
+			goto st248
 		case 33:
-			goto st257
+			goto st247
 		case 37:
-			goto st257
+			goto st247
 		case 39:
-			goto st257
+			goto st247
 		case 42:
-			goto st257
+			goto st247
 		case 43:
-			goto st262
+			goto st252
 		case 58:
-			goto tr386
+			goto tr366
 		case 126:
-			goto st257
+			goto st247
 		case 525:
-			goto st259
+			goto st249
 		}
 		switch {
 		case _widec < 65:
 			switch {
 			case _widec > 46:
 				if 48 <= _widec && _widec <= 57 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 45:
-				goto st262
+				goto st252
 			}
 		case _widec > 90:
 			switch {
 			case _widec > 96:
 				if 97 <= _widec && _widec <= 122 {
-					goto st262
+					goto st252
 				}
 			case _widec >= 95:
-				goto st257
+				goto st247
 			}
 		default:
-			goto st262
+			goto st252
 		}
 		goto st0
-	st263:
+	st253:
 		if p++; p == pe {
-			goto _test_eof263
+			goto _test_eof253
 		}
-	st_case_263:
+	st_case_253:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9394,51 +8717,51 @@ tr378:
 		}
 		switch _widec {
 		case 9:
-			goto tr387
+			goto tr367
 		case 269:
-			goto tr393
+			goto tr373
 		case 525:
-			goto tr394
+			goto tr374
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto tr388
+					goto tr368
 				}
 			case _widec >= 32:
-				goto tr387
+				goto tr367
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto tr390
+					goto tr370
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto tr392
+					goto tr372
 				}
 			default:
-				goto tr391
+				goto tr371
 			}
 		default:
-			goto tr389
+			goto tr369
 		}
 		goto st0
-tr387:
+tr367:
 //line sip.rl:80
 
 	mark = p
 
-	goto st264
-	st264:
+	goto st254
+	st254:
 		if p++; p == pe {
-			goto _test_eof264
+			goto _test_eof254
 		}
-	st_case_264:
-//line msg_parse.go:9433
+	st_case_254:
+//line msg_parse.go:8756
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9448,136 +8771,136 @@ tr387:
 		}
 		switch _widec {
 		case 9:
-			goto st264
+			goto st254
 		case 269:
-			goto st270
+			goto st260
 		case 525:
-			goto st271
+			goto st261
 		}
 		switch {
 		case _widec < 224:
 			switch {
 			case _widec > 127:
 				if 192 <= _widec && _widec <= 223 {
-					goto st265
+					goto st255
 				}
 			case _widec >= 32:
-				goto st264
+				goto st254
 			}
 		case _widec > 239:
 			switch {
 			case _widec < 248:
 				if 240 <= _widec && _widec <= 247 {
-					goto st267
+					goto st257
 				}
 			case _widec > 251:
 				if 252 <= _widec && _widec <= 253 {
-					goto st269
+					goto st259
 				}
 			default:
-				goto st268
+				goto st258
 			}
 		default:
-			goto st266
+			goto st256
 		}
 		goto st0
-tr388:
+tr368:
 //line sip.rl:80
 
 	mark = p
 
-	goto st265
-	st265:
+	goto st255
+	st255:
 		if p++; p == pe {
-			goto _test_eof265
+			goto _test_eof255
 		}
-	st_case_265:
-//line msg_parse.go:9487
+	st_case_255:
+//line msg_parse.go:8810
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st264
+			goto st254
 		}
 		goto st0
-tr389:
+tr369:
 //line sip.rl:80
 
 	mark = p
 
-	goto st266
-	st266:
+	goto st256
+	st256:
 		if p++; p == pe {
-			goto _test_eof266
+			goto _test_eof256
 		}
-	st_case_266:
-//line msg_parse.go:9503
+	st_case_256:
+//line msg_parse.go:8826
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st265
+			goto st255
 		}
 		goto st0
-tr390:
+tr370:
 //line sip.rl:80
 
 	mark = p
 
-	goto st267
-	st267:
+	goto st257
+	st257:
 		if p++; p == pe {
-			goto _test_eof267
+			goto _test_eof257
 		}
-	st_case_267:
-//line msg_parse.go:9519
+	st_case_257:
+//line msg_parse.go:8842
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st266
+			goto st256
 		}
 		goto st0
-tr391:
+tr371:
 //line sip.rl:80
 
 	mark = p
 
-	goto st268
-	st268:
+	goto st258
+	st258:
 		if p++; p == pe {
-			goto _test_eof268
+			goto _test_eof258
 		}
-	st_case_268:
-//line msg_parse.go:9535
+	st_case_258:
+//line msg_parse.go:8858
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st267
+			goto st257
 		}
 		goto st0
-tr392:
+tr372:
 //line sip.rl:80
 
 	mark = p
 
-	goto st269
-	st269:
+	goto st259
+	st259:
 		if p++; p == pe {
-			goto _test_eof269
+			goto _test_eof259
 		}
-	st_case_269:
-//line msg_parse.go:9551
+	st_case_259:
+//line msg_parse.go:8874
 		if 128 <= data[p] && data[p] <= 191 {
-			goto st268
+			goto st258
 		}
 		goto st0
-tr393:
+tr373:
 //line sip.rl:80
 
 	mark = p
 
-	goto st270
-	st270:
+	goto st260
+	st260:
 		if p++; p == pe {
-			goto _test_eof270
+			goto _test_eof260
 		}
-	st_case_270:
-//line msg_parse.go:9567
+	st_case_260:
+//line msg_parse.go:8890
 		if data[p] == 10 {
-			goto tr403
+			goto tr383
 		}
 		goto st0
-tr403:
+tr383:
 //line sip.rl:183
 {
 	b := data[mark:p - 1]
@@ -9591,120 +8914,120 @@ tr403:
 	}
 }
 //line sip.rl:268
- {goto st279 } 
-	goto st771
-	st771:
+ {goto st269 } 
+	goto st755
+	st755:
 		if p++; p == pe {
-			goto _test_eof771
+			goto _test_eof755
 		}
-	st_case_771:
-//line msg_parse.go:9593
+	st_case_755:
+//line msg_parse.go:8916
 		goto st0
-tr394:
+tr374:
 //line sip.rl:80
 
 	mark = p
 
-	goto st271
-	st271:
+	goto st261
+	st261:
 		if p++; p == pe {
-			goto _test_eof271
+			goto _test_eof261
 		}
-	st_case_271:
-//line msg_parse.go:9606
+	st_case_261:
+//line msg_parse.go:8929
 		if data[p] == 10 {
-			goto st272
+			goto st262
 		}
 		goto st0
-	st272:
+	st262:
 		if p++; p == pe {
-			goto _test_eof272
+			goto _test_eof262
 		}
-	st_case_272:
+	st_case_262:
 		switch data[p] {
 		case 9:
-			goto st264
+			goto st254
 		case 32:
-			goto st264
+			goto st254
 		}
 		goto st0
-	st273:
+	st263:
 		if p++; p == pe {
-			goto _test_eof273
+			goto _test_eof263
 		}
-	st_case_273:
+	st_case_263:
 		switch data[p] {
 		case 9:
-			goto tr405
+			goto tr385
 		case 32:
-			goto tr405
+			goto tr385
 		case 33:
-			goto st273
+			goto st263
 		case 37:
-			goto st273
+			goto st263
 		case 39:
-			goto st273
+			goto st263
 		case 58:
-			goto tr407
+			goto tr387
 		case 126:
-			goto st273
+			goto st263
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto st273
+					goto st263
 				}
 			case data[p] >= 42:
-				goto st273
+				goto st263
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto st273
+					goto st263
 				}
 			case data[p] >= 65:
-				goto st273
+				goto st263
 			}
 		default:
-			goto st273
+			goto st263
 		}
 		goto st0
-tr405:
+tr385:
 //line sip.rl:179
 
 	name = string(data[mark:p])
 
-	goto st274
-	st274:
+	goto st264
+	st264:
 		if p++; p == pe {
-			goto _test_eof274
+			goto _test_eof264
 		}
-	st_case_274:
-//line msg_parse.go:9678
+	st_case_264:
+//line msg_parse.go:9001
 		switch data[p] {
 		case 9:
-			goto st274
+			goto st264
 		case 32:
-			goto st274
+			goto st264
 		case 58:
-			goto st275
+			goto st265
 		}
 		goto st0
-tr407:
+tr387:
 //line sip.rl:179
 
 	name = string(data[mark:p])
 
-	goto st275
-	st275:
+	goto st265
+	st265:
 		if p++; p == pe {
-			goto _test_eof275
+			goto _test_eof265
 		}
-	st_case_275:
-//line msg_parse.go:9699
+	st_case_265:
+//line msg_parse.go:9022
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -9714,25 +9037,25 @@ tr407:
 		}
 		switch _widec {
 		case 9:
-			goto st275
+			goto st265
 		case 32:
-			goto st275
+			goto st265
 		case 269:
-			goto tr410
+			goto tr390
 		case 525:
-			goto st276
+			goto st266
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr410
+				goto tr390
 			}
 		default:
-			goto tr410
+			goto tr390
 		}
 		goto st0
-tr410:
-//line sip.rl:544
+tr390:
+//line sip.rl:545
 value=nil
 //line sip.rl:72
 
@@ -9740,117 +9063,117 @@ value=nil
 
 
 //line sip.rl:269
- {goto st263 } 
-	goto st772
-	st772:
+ {goto st253 } 
+	goto st756
+	st756:
 		if p++; p == pe {
-			goto _test_eof772
+			goto _test_eof756
 		}
-	st_case_772:
-//line msg_parse.go:9742
+	st_case_756:
+//line msg_parse.go:9065
 		goto st0
-	st276:
+	st266:
 		if p++; p == pe {
-			goto _test_eof276
+			goto _test_eof266
 		}
-	st_case_276:
+	st_case_266:
 		if data[p] == 10 {
-			goto st277
+			goto st267
 		}
 		goto st0
-	st277:
+	st267:
 		if p++; p == pe {
-			goto _test_eof277
+			goto _test_eof267
 		}
-	st_case_277:
+	st_case_267:
 		switch data[p] {
 		case 9:
-			goto st278
+			goto st268
 		case 32:
-			goto st278
+			goto st268
 		}
 		goto st0
-	st278:
+	st268:
 		if p++; p == pe {
-			goto _test_eof278
+			goto _test_eof268
 		}
-	st_case_278:
+	st_case_268:
 		switch data[p] {
 		case 9:
-			goto st278
+			goto st268
 		case 32:
-			goto st278
+			goto st268
 		}
-		goto tr410
-	st279:
+		goto tr390
+	st269:
 		if p++; p == pe {
-			goto _test_eof279
+			goto _test_eof269
 		}
-	st_case_279:
+	st_case_269:
 		switch data[p] {
 		case 13:
-			goto st280
+			goto st270
 		case 33:
-			goto tr415
+			goto tr395
 		case 37:
-			goto tr415
+			goto tr395
 		case 39:
-			goto tr415
+			goto tr395
 		case 126:
-			goto tr415
+			goto tr395
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr415
+					goto tr395
 				}
 			case data[p] >= 42:
-				goto tr415
+				goto tr395
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr415
+					goto tr395
 				}
 			case data[p] >= 65:
-				goto tr415
+				goto tr395
 			}
 		default:
-			goto tr415
+			goto tr395
 		}
 		goto st0
-	st280:
+	st270:
 		if p++; p == pe {
-			goto _test_eof280
+			goto _test_eof270
 		}
-	st_case_280:
+	st_case_270:
 		if data[p] == 10 {
-			goto tr416
+			goto tr396
 		}
 		goto st0
-tr560:
+tr540:
 //line sip.rl:268
- {goto st279 } 
-	goto st773
-tr416:
+ {goto st269 } 
+	goto st757
+tr396:
 //line sip.rl:76
 
-	{p++; cs = 773; goto _out }
+	{p++; cs = 757; goto _out }
 
-	goto st773
-tr443:
+	goto st757
+tr423:
 //line sip.rl:72
 
 	p--
 
 
 //line sip.rl:269
- {goto st263 } 
-	goto st773
-tr542:
+ {goto st253 } 
+	goto st757
+tr522:
 //line sip.rl:72
 
 	p--
@@ -9858,9 +9181,9 @@ tr542:
 
 //line sip.rl:267
  {goto st34 } 
-	goto st773
-tr577:
-//line sip.rl:546
+	goto st757
+tr557:
+//line sip.rl:547
 value=nil
 //line sip.rl:72
 
@@ -9868,9 +9191,9 @@ value=nil
 
 
 //line sip.rl:263
- {goto st256 } 
-	goto st773
-tr963:
+ {goto st246 } 
+	goto st757
+tr943:
 //line sip.rl:139
 
 	via = new(Via)
@@ -9882,15 +9205,15 @@ tr963:
 
 //line sip.rl:270
  {goto st103 } 
-	goto st773
-	st773:
+	goto st757
+	st757:
 		if p++; p == pe {
-			goto _test_eof773
+			goto _test_eof757
 		}
-	st_case_773:
-//line msg_parse.go:9883
+	st_case_757:
+//line msg_parse.go:9206
 		goto st0
-tr415:
+tr395:
 //line sip.rl:80
 
 	mark = p
@@ -9900,423 +9223,423 @@ tr415:
 	p--
 
 
-	goto st281
-	st281:
+	goto st271
+	st271:
 		if p++; p == pe {
-			goto _test_eof281
+			goto _test_eof271
 		}
-	st_case_281:
-//line msg_parse.go:9901
+	st_case_271:
+//line msg_parse.go:9224
 		switch data[p] {
 		case 65:
-			goto st282
+			goto st272
 		case 66:
-			goto st363
+			goto st353
 		case 67:
-			goto st364
+			goto st354
 		case 68:
-			goto st459
+			goto st449
 		case 69:
-			goto st463
+			goto st453
 		case 70:
-			goto st489
+			goto st479
 		case 73:
-			goto st493
+			goto st483
 		case 75:
-			goto st504
+			goto st494
 		case 76:
-			goto st434
+			goto st424
 		case 77:
-			goto st505
+			goto st495
 		case 79:
-			goto st549
+			goto st539
 		case 80:
-			goto st561
+			goto st551
 		case 82:
-			goto st619
+			goto st609
 		case 83:
-			goto st679
+			goto st669
 		case 84:
-			goto st697
+			goto st687
 		case 85:
-			goto st707
+			goto st697
 		case 86:
-			goto st727
+			goto st717
 		case 87:
-			goto st735
+			goto st725
 		case 97:
-			goto st282
+			goto st272
 		case 98:
-			goto st363
+			goto st353
 		case 99:
-			goto st364
+			goto st354
 		case 100:
-			goto st459
+			goto st449
 		case 101:
-			goto st463
+			goto st453
 		case 102:
-			goto st489
+			goto st479
 		case 105:
-			goto st493
+			goto st483
 		case 107:
-			goto st504
+			goto st494
 		case 108:
-			goto st434
+			goto st424
 		case 109:
-			goto st505
+			goto st495
 		case 111:
-			goto st549
+			goto st539
 		case 112:
-			goto st561
+			goto st551
 		case 114:
-			goto st619
+			goto st609
 		case 115:
-			goto st679
+			goto st669
 		case 116:
-			goto st697
+			goto st687
 		case 117:
-			goto st707
+			goto st697
 		case 118:
-			goto st727
+			goto st717
 		case 119:
-			goto st735
+			goto st725
 		}
-		goto tr417
-	st282:
+		goto tr397
+	st272:
 		if p++; p == pe {
-			goto _test_eof282
+			goto _test_eof272
 		}
-	st_case_282:
+	st_case_272:
 		switch data[p] {
 		case 9:
-			goto tr436
+			goto tr416
 		case 32:
-			goto tr436
+			goto tr416
 		case 58:
-			goto tr437
+			goto tr417
 		case 67:
-			goto st288
+			goto st278
 		case 76:
-			goto st317
+			goto st307
 		case 85:
-			goto st336
+			goto st326
 		case 99:
-			goto st288
+			goto st278
 		case 108:
-			goto st317
+			goto st307
 		case 117:
-			goto st336
+			goto st326
 		}
-		goto tr417
-tr436:
-//line sip.rl:462
+		goto tr397
+tr416:
+//line sip.rl:463
 value=&msg.AcceptContact
-	goto st283
-tr451:
-//line sip.rl:461
+	goto st273
+tr431:
+//line sip.rl:462
 value=&msg.Accept
-	goto st283
-tr470:
-//line sip.rl:463
-value=&msg.AcceptEncoding
-	goto st283
-tr479:
+	goto st273
+tr450:
 //line sip.rl:464
+value=&msg.AcceptEncoding
+	goto st273
+tr459:
+//line sip.rl:465
 value=&msg.AcceptLanguage
-	goto st283
-tr490:
-//line sip.rl:467
+	goto st273
+tr470:
+//line sip.rl:468
 value=&msg.AlertInfo
-	goto st283
-tr494:
-//line sip.rl:465
-value=&msg.Allow
-	goto st283
-tr503:
+	goto st273
+tr474:
 //line sip.rl:466
+value=&msg.Allow
+	goto st273
+tr483:
+//line sip.rl:467
 value=&msg.AllowEvents
-	goto st283
-tr523:
-//line sip.rl:468
-value=&msg.AuthenticationInfo
-	goto st283
-tr533:
+	goto st273
+tr503:
 //line sip.rl:469
+value=&msg.AuthenticationInfo
+	goto st273
+tr513:
+//line sip.rl:470
 value=&msg.Authorization
-	goto st283
-tr535:
-//line sip.rl:486
+	goto st273
+tr515:
+//line sip.rl:487
 value=&msg.ReferredBy
-	goto st283
-tr565:
-//line sip.rl:473
+	goto st273
+tr545:
+//line sip.rl:474
 value=&msg.CallInfo
-	goto st283
-tr598:
-//line sip.rl:470
+	goto st273
+tr578:
+//line sip.rl:471
 value=&msg.ContentDisposition
-	goto st283
-tr607:
-//line sip.rl:472
+	goto st273
+tr587:
+//line sip.rl:473
 value=&msg.ContentEncoding
-	goto st283
-tr617:
-//line sip.rl:471
+	goto st273
+tr597:
+//line sip.rl:472
 value=&msg.ContentLanguage
-	goto st283
-tr652:
-//line sip.rl:474
-value=&msg.Date
-	goto st283
-tr665:
+	goto st273
+tr632:
 //line sip.rl:475
-value=&msg.ErrorInfo
-	goto st283
-tr670:
+value=&msg.Date
+	goto st273
+tr645:
 //line sip.rl:476
-value=&msg.Event
-	goto st283
-tr699:
+value=&msg.ErrorInfo
+	goto st273
+tr650:
 //line sip.rl:477
+value=&msg.Event
+	goto st273
+tr679:
+//line sip.rl:478
 value=&msg.InReplyTo
-	goto st283
-tr701:
-//line sip.rl:491
+	goto st273
+tr681:
+//line sip.rl:492
 value=&msg.Supported
-	goto st283
-tr733:
-//line sip.rl:479
-value=&msg.MIMEVersion
-	goto st283
-tr761:
+	goto st273
+tr713:
 //line sip.rl:480
-value=&msg.Organization
-	goto st283
-tr791:
+value=&msg.MIMEVersion
+	goto st273
+tr741:
 //line sip.rl:481
-value=&msg.Priority
-	goto st283
-tr810:
+value=&msg.Organization
+	goto st273
+tr771:
 //line sip.rl:482
-value=&msg.ProxyAuthenticate
-	goto st283
-tr820:
+value=&msg.Priority
+	goto st273
+tr790:
 //line sip.rl:483
-value=&msg.ProxyAuthorization
-	goto st283
-tr828:
+value=&msg.ProxyAuthenticate
+	goto st273
+tr800:
 //line sip.rl:484
-value=&msg.ProxyRequire
-	goto st283
-tr830:
+value=&msg.ProxyAuthorization
+	goto st273
+tr808:
 //line sip.rl:485
+value=&msg.ProxyRequire
+	goto st273
+tr810:
+//line sip.rl:486
 value=&msg.ReferTo
-	goto st283
-tr880:
-//line sip.rl:478
+	goto st273
+tr860:
+//line sip.rl:479
 value=&msg.ReplyTo
-	goto st283
-tr886:
-//line sip.rl:487
-value=&msg.Require
-	goto st283
-tr896:
+	goto st273
+tr866:
 //line sip.rl:488
+value=&msg.Require
+	goto st273
+tr876:
+//line sip.rl:489
 value=&msg.RetryAfter
-	goto st283
-tr903:
-//line sip.rl:490
+	goto st273
+tr883:
+//line sip.rl:491
 value=&msg.Subject
-	goto st283
-tr911:
-//line sip.rl:489
+	goto st273
+tr891:
+//line sip.rl:490
 value=&msg.Server
-	goto st283
-tr935:
-//line sip.rl:492
-value=&msg.Timestamp
-	goto st283
-tr948:
+	goto st273
+tr915:
 //line sip.rl:493
-value=&msg.Unsupported
-	goto st283
-tr958:
+value=&msg.Timestamp
+	goto st273
+tr928:
 //line sip.rl:494
-value=&msg.UserAgent
-	goto st283
-tr975:
+value=&msg.Unsupported
+	goto st273
+tr938:
 //line sip.rl:495
-value=&msg.Warning
-	goto st283
-tr991:
+value=&msg.UserAgent
+	goto st273
+tr955:
 //line sip.rl:496
+value=&msg.Warning
+	goto st273
+tr971:
+//line sip.rl:497
 value=&msg.WWWAuthenticate
-	goto st283
-	st283:
+	goto st273
+	st273:
 		if p++; p == pe {
-			goto _test_eof283
+			goto _test_eof273
 		}
-	st_case_283:
-//line msg_parse.go:10152
+	st_case_273:
+//line msg_parse.go:9475
 		switch data[p] {
 		case 9:
-			goto st283
+			goto st273
 		case 32:
-			goto st283
+			goto st273
 		case 58:
-			goto st284
+			goto st274
 		}
 		goto st0
-tr437:
-//line sip.rl:462
+tr417:
+//line sip.rl:463
 value=&msg.AcceptContact
-	goto st284
-tr453:
-//line sip.rl:461
+	goto st274
+tr433:
+//line sip.rl:462
 value=&msg.Accept
-	goto st284
-tr471:
-//line sip.rl:463
-value=&msg.AcceptEncoding
-	goto st284
-tr480:
+	goto st274
+tr451:
 //line sip.rl:464
+value=&msg.AcceptEncoding
+	goto st274
+tr460:
+//line sip.rl:465
 value=&msg.AcceptLanguage
-	goto st284
-tr491:
-//line sip.rl:467
+	goto st274
+tr471:
+//line sip.rl:468
 value=&msg.AlertInfo
-	goto st284
-tr496:
-//line sip.rl:465
-value=&msg.Allow
-	goto st284
-tr504:
+	goto st274
+tr476:
 //line sip.rl:466
+value=&msg.Allow
+	goto st274
+tr484:
+//line sip.rl:467
 value=&msg.AllowEvents
-	goto st284
-tr524:
-//line sip.rl:468
-value=&msg.AuthenticationInfo
-	goto st284
-tr534:
+	goto st274
+tr504:
 //line sip.rl:469
+value=&msg.AuthenticationInfo
+	goto st274
+tr514:
+//line sip.rl:470
 value=&msg.Authorization
-	goto st284
-tr536:
-//line sip.rl:486
+	goto st274
+tr516:
+//line sip.rl:487
 value=&msg.ReferredBy
-	goto st284
-tr566:
-//line sip.rl:473
+	goto st274
+tr546:
+//line sip.rl:474
 value=&msg.CallInfo
-	goto st284
-tr599:
-//line sip.rl:470
+	goto st274
+tr579:
+//line sip.rl:471
 value=&msg.ContentDisposition
-	goto st284
-tr608:
-//line sip.rl:472
+	goto st274
+tr588:
+//line sip.rl:473
 value=&msg.ContentEncoding
-	goto st284
-tr618:
-//line sip.rl:471
+	goto st274
+tr598:
+//line sip.rl:472
 value=&msg.ContentLanguage
-	goto st284
-tr653:
-//line sip.rl:474
-value=&msg.Date
-	goto st284
-tr666:
+	goto st274
+tr633:
 //line sip.rl:475
-value=&msg.ErrorInfo
-	goto st284
-tr671:
+value=&msg.Date
+	goto st274
+tr646:
 //line sip.rl:476
-value=&msg.Event
-	goto st284
-tr700:
+value=&msg.ErrorInfo
+	goto st274
+tr651:
 //line sip.rl:477
+value=&msg.Event
+	goto st274
+tr680:
+//line sip.rl:478
 value=&msg.InReplyTo
-	goto st284
-tr702:
-//line sip.rl:491
+	goto st274
+tr682:
+//line sip.rl:492
 value=&msg.Supported
-	goto st284
-tr734:
-//line sip.rl:479
-value=&msg.MIMEVersion
-	goto st284
-tr762:
+	goto st274
+tr714:
 //line sip.rl:480
-value=&msg.Organization
-	goto st284
-tr792:
+value=&msg.MIMEVersion
+	goto st274
+tr742:
 //line sip.rl:481
-value=&msg.Priority
-	goto st284
-tr811:
+value=&msg.Organization
+	goto st274
+tr772:
 //line sip.rl:482
-value=&msg.ProxyAuthenticate
-	goto st284
-tr821:
+value=&msg.Priority
+	goto st274
+tr791:
 //line sip.rl:483
-value=&msg.ProxyAuthorization
-	goto st284
-tr829:
+value=&msg.ProxyAuthenticate
+	goto st274
+tr801:
 //line sip.rl:484
-value=&msg.ProxyRequire
-	goto st284
-tr831:
+value=&msg.ProxyAuthorization
+	goto st274
+tr809:
 //line sip.rl:485
+value=&msg.ProxyRequire
+	goto st274
+tr811:
+//line sip.rl:486
 value=&msg.ReferTo
-	goto st284
-tr881:
-//line sip.rl:478
+	goto st274
+tr861:
+//line sip.rl:479
 value=&msg.ReplyTo
-	goto st284
-tr887:
-//line sip.rl:487
-value=&msg.Require
-	goto st284
-tr897:
+	goto st274
+tr867:
 //line sip.rl:488
+value=&msg.Require
+	goto st274
+tr877:
+//line sip.rl:489
 value=&msg.RetryAfter
-	goto st284
-tr904:
-//line sip.rl:490
+	goto st274
+tr884:
+//line sip.rl:491
 value=&msg.Subject
-	goto st284
-tr912:
-//line sip.rl:489
+	goto st274
+tr892:
+//line sip.rl:490
 value=&msg.Server
-	goto st284
-tr936:
-//line sip.rl:492
-value=&msg.Timestamp
-	goto st284
-tr949:
+	goto st274
+tr916:
 //line sip.rl:493
-value=&msg.Unsupported
-	goto st284
-tr959:
+value=&msg.Timestamp
+	goto st274
+tr929:
 //line sip.rl:494
-value=&msg.UserAgent
-	goto st284
-tr976:
+value=&msg.Unsupported
+	goto st274
+tr939:
 //line sip.rl:495
-value=&msg.Warning
-	goto st284
-tr992:
+value=&msg.UserAgent
+	goto st274
+tr956:
 //line sip.rl:496
+value=&msg.Warning
+	goto st274
+tr972:
+//line sip.rl:497
 value=&msg.WWWAuthenticate
-	goto st284
-	st284:
+	goto st274
+	st274:
 		if p++; p == pe {
-			goto _test_eof284
+			goto _test_eof274
 		}
-	st_case_284:
-//line msg_parse.go:10311
+	st_case_274:
+//line msg_parse.go:9634
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -10326,56 +9649,188 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st284
+			goto st274
 		case 32:
-			goto st284
+			goto st274
 		case 269:
-			goto tr443
+			goto tr423
 		case 525:
-			goto st285
+			goto st275
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr443
+				goto tr423
 			}
 		default:
-			goto tr443
+			goto tr423
+		}
+		goto st0
+	st275:
+		if p++; p == pe {
+			goto _test_eof275
+		}
+	st_case_275:
+		if data[p] == 10 {
+			goto st276
+		}
+		goto st0
+	st276:
+		if p++; p == pe {
+			goto _test_eof276
+		}
+	st_case_276:
+		switch data[p] {
+		case 9:
+			goto st277
+		case 32:
+			goto st277
 		}
 		goto st0
+	st277:
+		if p++; p == pe {
+			goto _test_eof277
+		}
+	st_case_277:
+		switch data[p] {
+		case 9:
+			goto st277
+		case 32:
+			goto st277
+		}
+		goto tr423
+	st278:
+		if p++; p == pe {
+			goto _test_eof278
+		}
+	st_case_278:
+		switch data[p] {
+		case 67:
+			goto st279
+		case 99:
+			goto st279
+		}
+		goto tr397
+	st279:
+		if p++; p == pe {
+			goto _test_eof279
+		}
+	st_case_279:
+		switch data[p] {
+		case 69:
+			goto st280
+		case 101:
+			goto st280
+		}
+		goto tr397
+	st280:
+		if p++; p == pe {
+			goto _test_eof280
+		}
+	st_case_280:
+		switch data[p] {
+		case 80:
+			goto st281
+		case 112:
+			goto st281
+		}
+		goto tr397
+	st281:
+		if p++; p == pe {
+			goto _test_eof281
+		}
+	st_case_281:
+		switch data[p] {
+		case 84:
+			goto st282
+		case 116:
+			goto st282
+		}
+		goto tr397
+	st282:
+		if p++; p == pe {
+			goto _test_eof282
+		}
+	st_case_282:
+		switch data[p] {
+		case 9:
+			goto tr431
+		case 32:
+			goto tr431
+		case 45:
+			goto st283
+		case 58:
+			goto tr433
+		}
+		goto tr397
+	st283:
+		if p++; p == pe {
+			goto _test_eof283
+		}
+	st_case_283:
+		switch data[p] {
+		case 67:
+			goto st284
+		case 69:
+			goto st291
+		case 76:
+			goto st299
+		case 99:
+			goto st284
+		case 101:
+			goto st291
+		case 108:
+			goto st299
+		}
+		goto tr397
+	st284:
+		if p++; p == pe {
+			goto _test_eof284
+		}
+	st_case_284:
+		switch data[p] {
+		case 79:
+			goto st285
+		case 111:
+			goto st285
+		}
+		goto tr397
 	st285:
 		if p++; p == pe {
 			goto _test_eof285
 		}
 	st_case_285:
-		if data[p] == 10 {
+		switch data[p] {
+		case 78:
+			goto st286
+		case 110:
 			goto st286
 		}
-		goto st0
+		goto tr397
 	st286:
 		if p++; p == pe {
 			goto _test_eof286
 		}
 	st_case_286:
 		switch data[p] {
-		case 9:
+		case 84:
 			goto st287
-		case 32:
+		case 116:
 			goto st287
 		}
-		goto st0
+		goto tr397
 	st287:
 		if p++; p == pe {
 			goto _test_eof287
 		}
 	st_case_287:
 		switch data[p] {
-		case 9:
-			goto st287
-		case 32:
-			goto st287
+		case 65:
+			goto st288
+		case 97:
+			goto st288
 		}
-		goto tr443
+		goto tr397
 	st288:
 		if p++; p == pe {
 			goto _test_eof288
@@ -10387,422 +9842,416 @@ value=&msg.WWWAuthenticate
 		case 99:
 			goto st289
 		}
-		goto tr417
+		goto tr397
 	st289:
 		if p++; p == pe {
 			goto _test_eof289
 		}
 	st_case_289:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st290
-		case 101:
+		case 116:
 			goto st290
 		}
-		goto tr417
+		goto tr397
 	st290:
 		if p++; p == pe {
 			goto _test_eof290
 		}
 	st_case_290:
 		switch data[p] {
-		case 80:
-			goto st291
-		case 112:
-			goto st291
+		case 9:
+			goto tr416
+		case 32:
+			goto tr416
+		case 58:
+			goto tr417
 		}
-		goto tr417
+		goto tr397
 	st291:
 		if p++; p == pe {
 			goto _test_eof291
 		}
 	st_case_291:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st292
-		case 116:
+		case 110:
 			goto st292
 		}
-		goto tr417
+		goto tr397
 	st292:
 		if p++; p == pe {
 			goto _test_eof292
 		}
 	st_case_292:
 		switch data[p] {
-		case 9:
-			goto tr451
-		case 32:
-			goto tr451
-		case 45:
+		case 67:
+			goto st293
+		case 99:
 			goto st293
-		case 58:
-			goto tr453
 		}
-		goto tr417
+		goto tr397
 	st293:
 		if p++; p == pe {
 			goto _test_eof293
 		}
 	st_case_293:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st294
-		case 69:
-			goto st301
-		case 76:
-			goto st309
-		case 99:
+		case 111:
 			goto st294
-		case 101:
-			goto st301
-		case 108:
-			goto st309
 		}
-		goto tr417
+		goto tr397
 	st294:
 		if p++; p == pe {
 			goto _test_eof294
 		}
 	st_case_294:
 		switch data[p] {
-		case 79:
+		case 68:
 			goto st295
-		case 111:
+		case 100:
 			goto st295
 		}
-		goto tr417
+		goto tr397
 	st295:
 		if p++; p == pe {
 			goto _test_eof295
 		}
 	st_case_295:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st296
-		case 110:
+		case 105:
 			goto st296
 		}
-		goto tr417
+		goto tr397
 	st296:
 		if p++; p == pe {
 			goto _test_eof296
 		}
 	st_case_296:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st297
-		case 116:
+		case 110:
 			goto st297
 		}
-		goto tr417
+		goto tr397
 	st297:
 		if p++; p == pe {
 			goto _test_eof297
 		}
 	st_case_297:
 		switch data[p] {
-		case 65:
+		case 71:
 			goto st298
-		case 97:
+		case 103:
 			goto st298
 		}
-		goto tr417
+		goto tr397
 	st298:
 		if p++; p == pe {
 			goto _test_eof298
 		}
 	st_case_298:
 		switch data[p] {
-		case 67:
-			goto st299
-		case 99:
-			goto st299
+		case 9:
+			goto tr450
+		case 32:
+			goto tr450
+		case 58:
+			goto tr451
 		}
-		goto tr417
+		goto tr397
 	st299:
 		if p++; p == pe {
 			goto _test_eof299
 		}
 	st_case_299:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st300
-		case 116:
+		case 97:
 			goto st300
 		}
-		goto tr417
+		goto tr397
 	st300:
 		if p++; p == pe {
 			goto _test_eof300
 		}
 	st_case_300:
 		switch data[p] {
-		case 9:
-			goto tr436
-		case 32:
-			goto tr436
-		case 58:
-			goto tr437
+		case 78:
+			goto st301
+		case 110:
+			goto st301
 		}
-		goto tr417
+		goto tr397
 	st301:
 		if p++; p == pe {
 			goto _test_eof301
 		}
 	st_case_301:
 		switch data[p] {
-		case 78:
+		case 71:
 			goto st302
-		case 110:
+		case 103:
 			goto st302
 		}
-		goto tr417
+		goto tr397
 	st302:
 		if p++; p == pe {
 			goto _test_eof302
 		}
 	st_case_302:
 		switch data[p] {
-		case 67:
+		case 85:
 			goto st303
-		case 99:
+		case 117:
 			goto st303
 		}
-		goto tr417
+		goto tr397
 	st303:
 		if p++; p == pe {
 			goto _test_eof303
 		}
 	st_case_303:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st304
-		case 111:
+		case 97:
 			goto st304
 		}
-		goto tr417
+		goto tr397
 	st304:
 		if p++; p == pe {
 			goto _test_eof304
 		}
 	st_case_304:
 		switch data[p] {
-		case 68:
+		case 71:
 			goto st305
-		case 100:
+		case 103:
 			goto st305
 		}
-		goto tr417
+		goto tr397
 	st305:
 		if p++; p == pe {
 			goto _test_eof305
 		}
 	st_case_305:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st306
-		case 105:
+		case 101:
 			goto st306
 		}
-		goto tr417
+		goto tr397
 	st306:
 		if p++; p == pe {
 			goto _test_eof306
 		}
 	st_case_306:
 		switch data[p] {
-		case 78:
-			goto st307
-		case 110:
-			goto st307
+		case 9:
+			goto tr459
+		case 32:
+			goto tr459
+		case 58:
+			goto tr460
 		}
-		goto tr417
+		goto tr397
 	st307:
 		if p++; p == pe {
 			goto _test_eof307
 		}
 	st_case_307:
 		switch data[p] {
-		case 71:
+		case 69:
 			goto st308
-		case 103:
+		case 76:
+			goto st316
+		case 101:
 			goto st308
+		case 108:
+			goto st316
 		}
-		goto tr417
+		goto tr397
 	st308:
 		if p++; p == pe {
 			goto _test_eof308
 		}
 	st_case_308:
 		switch data[p] {
-		case 9:
-			goto tr470
-		case 32:
-			goto tr470
-		case 58:
-			goto tr471
+		case 82:
+			goto st309
+		case 114:
+			goto st309
 		}
-		goto tr417
+		goto tr397
 	st309:
 		if p++; p == pe {
 			goto _test_eof309
 		}
 	st_case_309:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st310
-		case 97:
+		case 116:
 			goto st310
 		}
-		goto tr417
+		goto tr397
 	st310:
 		if p++; p == pe {
 			goto _test_eof310
 		}
 	st_case_310:
-		switch data[p] {
-		case 78:
-			goto st311
-		case 110:
+		if data[p] == 45 {
 			goto st311
 		}
-		goto tr417
+		goto tr397
 	st311:
 		if p++; p == pe {
 			goto _test_eof311
 		}
 	st_case_311:
 		switch data[p] {
-		case 71:
+		case 73:
 			goto st312
-		case 103:
+		case 105:
 			goto st312
 		}
-		goto tr417
+		goto tr397
 	st312:
 		if p++; p == pe {
 			goto _test_eof312
 		}
 	st_case_312:
 		switch data[p] {
-		case 85:
+		case 78:
 			goto st313
-		case 117:
+		case 110:
 			goto st313
 		}
-		goto tr417
+		goto tr397
 	st313:
 		if p++; p == pe {
 			goto _test_eof313
 		}
 	st_case_313:
 		switch data[p] {
-		case 65:
+		case 70:
 			goto st314
-		case 97:
+		case 102:
 			goto st314
 		}
-		goto tr417
+		goto tr397
 	st314:
 		if p++; p == pe {
 			goto _test_eof314
 		}
 	st_case_314:
 		switch data[p] {
-		case 71:
+		case 79:
 			goto st315
-		case 103:
+		case 111:
 			goto st315
 		}
-		goto tr417
+		goto tr397
 	st315:
 		if p++; p == pe {
 			goto _test_eof315
 		}
 	st_case_315:
 		switch data[p] {
-		case 69:
-			goto st316
-		case 101:
-			goto st316
+		case 9:
+			goto tr470
+		case 32:
+			goto tr470
+		case 58:
+			goto tr471
 		}
-		goto tr417
+		goto tr397
 	st316:
 		if p++; p == pe {
 			goto _test_eof316
 		}
 	st_case_316:
 		switch data[p] {
-		case 9:
-			goto tr479
-		case 32:
-			goto tr479
-		case 58:
-			goto tr480
+		case 79:
+			goto st317
+		case 111:
+			goto st317
 		}
-		goto tr417
+		goto tr397
 	st317:
 		if p++; p == pe {
 			goto _test_eof317
 		}
 	st_case_317:
 		switch data[p] {
-		case 69:
+		case 87:
 			goto st318
-		case 76:
-			goto st326
-		case 101:
+		case 119:
 			goto st318
-		case 108:
-			goto st326
 		}
-		goto tr417
+		goto tr397
 	st318:
 		if p++; p == pe {
 			goto _test_eof318
 		}
 	st_case_318:
 		switch data[p] {
-		case 82:
-			goto st319
-		case 114:
+		case 9:
+			goto tr474
+		case 32:
+			goto tr474
+		case 45:
 			goto st319
+		case 58:
+			goto tr476
 		}
-		goto tr417
+		goto tr397
 	st319:
 		if p++; p == pe {
 			goto _test_eof319
 		}
 	st_case_319:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st320
-		case 116:
+		case 101:
 			goto st320
 		}
-		goto tr417
+		goto tr397
 	st320:
 		if p++; p == pe {
 			goto _test_eof320
 		}
 	st_case_320:
-		if data[p] == 45 {
+		switch data[p] {
+		case 86:
+			goto st321
+		case 118:
 			goto st321
 		}
-		goto tr417
+		goto tr397
 	st321:
 		if p++; p == pe {
 			goto _test_eof321
 		}
 	st_case_321:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st322
-		case 105:
+		case 101:
 			goto st322
 		}
-		goto tr417
+		goto tr397
 	st322:
 		if p++; p == pe {
 			goto _test_eof322
@@ -10814,31 +10263,31 @@ value=&msg.WWWAuthenticate
 		case 110:
 			goto st323
 		}
-		goto tr417
+		goto tr397
 	st323:
 		if p++; p == pe {
 			goto _test_eof323
 		}
 	st_case_323:
 		switch data[p] {
-		case 70:
+		case 84:
 			goto st324
-		case 102:
+		case 116:
 			goto st324
 		}
-		goto tr417
+		goto tr397
 	st324:
 		if p++; p == pe {
 			goto _test_eof324
 		}
 	st_case_324:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st325
-		case 111:
+		case 115:
 			goto st325
 		}
-		goto tr417
+		goto tr397
 	st325:
 		if p++; p == pe {
 			goto _test_eof325
@@ -10846,251 +10295,244 @@ value=&msg.WWWAuthenticate
 	st_case_325:
 		switch data[p] {
 		case 9:
-			goto tr490
+			goto tr483
 		case 32:
-			goto tr490
+			goto tr483
 		case 58:
-			goto tr491
+			goto tr484
 		}
-		goto tr417
+		goto tr397
 	st326:
 		if p++; p == pe {
 			goto _test_eof326
 		}
 	st_case_326:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st327
-		case 111:
+		case 116:
 			goto st327
 		}
-		goto tr417
+		goto tr397
 	st327:
 		if p++; p == pe {
 			goto _test_eof327
 		}
 	st_case_327:
 		switch data[p] {
-		case 87:
+		case 72:
 			goto st328
-		case 119:
+		case 104:
 			goto st328
 		}
-		goto tr417
+		goto tr397
 	st328:
 		if p++; p == pe {
 			goto _test_eof328
 		}
 	st_case_328:
 		switch data[p] {
-		case 9:
-			goto tr494
-		case 32:
-			goto tr494
-		case 45:
+		case 69:
 			goto st329
-		case 58:
-			goto tr496
+		case 79:
+			goto st344
+		case 101:
+			goto st329
+		case 111:
+			goto st344
 		}
-		goto tr417
+		goto tr397
 	st329:
 		if p++; p == pe {
 			goto _test_eof329
 		}
 	st_case_329:
 		switch data[p] {
-		case 69:
+		case 78:
 			goto st330
-		case 101:
+		case 110:
 			goto st330
 		}
-		goto tr417
+		goto tr397
 	st330:
 		if p++; p == pe {
 			goto _test_eof330
 		}
 	st_case_330:
 		switch data[p] {
-		case 86:
+		case 84:
 			goto st331
-		case 118:
+		case 116:
 			goto st331
 		}
-		goto tr417
+		goto tr397
 	st331:
 		if p++; p == pe {
 			goto _test_eof331
 		}
 	st_case_331:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st332
-		case 101:
+		case 105:
 			goto st332
 		}
-		goto tr417
+		goto tr397
 	st332:
 		if p++; p == pe {
 			goto _test_eof332
 		}
 	st_case_332:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st333
-		case 110:
+		case 99:
 			goto st333
 		}
-		goto tr417
+		goto tr397
 	st333:
 		if p++; p == pe {
 			goto _test_eof333
 		}
 	st_case_333:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st334
-		case 116:
+		case 97:
 			goto st334
 		}
-		goto tr417
+		goto tr397
 	st334:
 		if p++; p == pe {
 			goto _test_eof334
 		}
 	st_case_334:
 		switch data[p] {
-		case 83:
+		case 84:
 			goto st335
-		case 115:
+		case 116:
 			goto st335
 		}
-		goto tr417
+		goto tr397
 	st335:
 		if p++; p == pe {
 			goto _test_eof335
 		}
 	st_case_335:
 		switch data[p] {
-		case 9:
-			goto tr503
-		case 32:
-			goto tr503
-		case 58:
-			goto tr504
+		case 73:
+			goto st336
+		case 105:
+			goto st336
 		}
-		goto tr417
+		goto tr397
 	st336:
 		if p++; p == pe {
 			goto _test_eof336
 		}
 	st_case_336:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st337
-		case 116:
+		case 111:
 			goto st337
 		}
-		goto tr417
+		goto tr397
 	st337:
 		if p++; p == pe {
 			goto _test_eof337
 		}
 	st_case_337:
 		switch data[p] {
-		case 72:
+		case 78:
 			goto st338
-		case 104:
+		case 110:
 			goto st338
 		}
-		goto tr417
+		goto tr397
 	st338:
 		if p++; p == pe {
 			goto _test_eof338
 		}
 	st_case_338:
-		switch data[p] {
-		case 69:
-			goto st339
-		case 79:
-			goto st354
-		case 101:
+		if data[p] == 45 {
 			goto st339
-		case 111:
-			goto st354
 		}
-		goto tr417
+		goto tr397
 	st339:
 		if p++; p == pe {
 			goto _test_eof339
 		}
 	st_case_339:
 		switch data[p] {
-		case 78:
+		case 73:
 			goto st340
-		case 110:
+		case 105:
 			goto st340
 		}
-		goto tr417
+		goto tr397
 	st340:
 		if p++; p == pe {
 			goto _test_eof340
 		}
 	st_case_340:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st341
-		case 116:
+		case 110:
 			goto st341
 		}
-		goto tr417
+		goto tr397
 	st341:
 		if p++; p == pe {
 			goto _test_eof341
 		}
 	st_case_341:
 		switch data[p] {
-		case 73:
+		case 70:
 			goto st342
-		case 105:
+		case 102:
 			goto st342
 		}
-		goto tr417
+		goto tr397
 	st342:
 		if p++; p == pe {
 			goto _test_eof342
 		}
 	st_case_342:
 		switch data[p] {
-		case 67:
+		case 79:
 			goto st343
-		case 99:
+		case 111:
 			goto st343
 		}
-		goto tr417
+		goto tr397
 	st343:
 		if p++; p == pe {
 			goto _test_eof343
 		}
 	st_case_343:
 		switch data[p] {
-		case 65:
-			goto st344
-		case 97:
-			goto st344
+		case 9:
+			goto tr503
+		case 32:
+			goto tr503
+		case 58:
+			goto tr504
 		}
-		goto tr417
+		goto tr397
 	st344:
 		if p++; p == pe {
 			goto _test_eof344
 		}
 	st_case_344:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st345
-		case 116:
+		case 114:
 			goto st345
 		}
-		goto tr417
+		goto tr397
 	st345:
 		if p++; p == pe {
 			goto _test_eof345
@@ -11102,40 +10544,43 @@ value=&msg.WWWAuthenticate
 		case 105:
 			goto st346
 		}
-		goto tr417
+		goto tr397
 	st346:
 		if p++; p == pe {
 			goto _test_eof346
 		}
 	st_case_346:
 		switch data[p] {
-		case 79:
+		case 90:
 			goto st347
-		case 111:
+		case 122:
 			goto st347
 		}
-		goto tr417
+		goto tr397
 	st347:
 		if p++; p == pe {
 			goto _test_eof347
 		}
 	st_case_347:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st348
-		case 110:
+		case 97:
 			goto st348
 		}
-		goto tr417
+		goto tr397
 	st348:
 		if p++; p == pe {
 			goto _test_eof348
 		}
 	st_case_348:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st349
+		case 116:
 			goto st349
 		}
-		goto tr417
+		goto tr397
 	st349:
 		if p++; p == pe {
 			goto _test_eof349
@@ -11147,43 +10592,45 @@ value=&msg.WWWAuthenticate
 		case 105:
 			goto st350
 		}
-		goto tr417
+		goto tr397
 	st350:
 		if p++; p == pe {
 			goto _test_eof350
 		}
 	st_case_350:
 		switch data[p] {
-		case 78:
+		case 79:
 			goto st351
-		case 110:
+		case 111:
 			goto st351
 		}
-		goto tr417
+		goto tr397
 	st351:
 		if p++; p == pe {
 			goto _test_eof351
 		}
 	st_case_351:
 		switch data[p] {
-		case 70:
+		case 78:
 			goto st352
-		case 102:
+		case 110:
 			goto st352
 		}
-		goto tr417
+		goto tr397
 	st352:
 		if p++; p == pe {
 			goto _test_eof352
 		}
 	st_case_352:
 		switch data[p] {
-		case 79:
-			goto st353
-		case 111:
-			goto st353
+		case 9:
+			goto tr513
+		case 32:
+			goto tr513
+		case 58:
+			goto tr514
 		}
-		goto tr417
+		goto tr397
 	st353:
 		if p++; p == pe {
 			goto _test_eof353
@@ -11191,182 +10638,58 @@ value=&msg.WWWAuthenticate
 	st_case_353:
 		switch data[p] {
 		case 9:
-			goto tr523
+			goto tr515
 		case 32:
-			goto tr523
+			goto tr515
 		case 58:
-			goto tr524
+			goto tr516
 		}
-		goto tr417
+		goto tr397
 	st354:
 		if p++; p == pe {
 			goto _test_eof354
 		}
 	st_case_354:
 		switch data[p] {
-		case 82:
+		case 9:
 			goto st355
-		case 114:
+		case 32:
 			goto st355
-		}
-		goto tr417
-	st355:
-		if p++; p == pe {
-			goto _test_eof355
-		}
-	st_case_355:
-		switch data[p] {
-		case 73:
-			goto st356
-		case 105:
+		case 58:
 			goto st356
-		}
-		goto tr417
-	st356:
-		if p++; p == pe {
-			goto _test_eof356
-		}
-	st_case_356:
-		switch data[p] {
-		case 90:
-			goto st357
-		case 122:
-			goto st357
-		}
-		goto tr417
-	st357:
-		if p++; p == pe {
-			goto _test_eof357
-		}
-	st_case_357:
-		switch data[p] {
 		case 65:
-			goto st358
-		case 97:
-			goto st358
-		}
-		goto tr417
-	st358:
-		if p++; p == pe {
-			goto _test_eof358
-		}
-	st_case_358:
-		switch data[p] {
-		case 84:
-			goto st359
-		case 116:
-			goto st359
-		}
-		goto tr417
-	st359:
-		if p++; p == pe {
-			goto _test_eof359
-		}
-	st_case_359:
-		switch data[p] {
-		case 73:
-			goto st360
-		case 105:
 			goto st360
-		}
-		goto tr417
-	st360:
-		if p++; p == pe {
-			goto _test_eof360
-		}
-	st_case_360:
-		switch data[p] {
-		case 79:
-			goto st361
-		case 111:
-			goto st361
-		}
-		goto tr417
-	st361:
-		if p++; p == pe {
-			goto _test_eof361
-		}
-	st_case_361:
-		switch data[p] {
-		case 78:
-			goto st362
-		case 110:
-			goto st362
-		}
-		goto tr417
-	st362:
-		if p++; p == pe {
-			goto _test_eof362
-		}
-	st_case_362:
-		switch data[p] {
-		case 9:
-			goto tr533
-		case 32:
-			goto tr533
-		case 58:
-			goto tr534
-		}
-		goto tr417
-	st363:
-		if p++; p == pe {
-			goto _test_eof363
-		}
-	st_case_363:
-		switch data[p] {
-		case 9:
-			goto tr535
-		case 32:
-			goto tr535
-		case 58:
-			goto tr536
-		}
-		goto tr417
-	st364:
-		if p++; p == pe {
-			goto _test_eof364
-		}
-	st_case_364:
-		switch data[p] {
-		case 9:
-			goto st365
-		case 32:
-			goto st365
-		case 58:
-			goto st366
-		case 65:
-			goto st370
 		case 79:
-			goto st388
+			goto st378
 		case 83:
-			goto st445
+			goto st435
 		case 97:
-			goto st370
+			goto st360
 		case 111:
-			goto st388
+			goto st378
 		case 115:
-			goto st445
+			goto st435
 		}
-		goto tr417
-	st365:
+		goto tr397
+	st355:
 		if p++; p == pe {
-			goto _test_eof365
+			goto _test_eof355
 		}
-	st_case_365:
+	st_case_355:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st355
 		case 32:
-			goto st365
+			goto st355
 		case 58:
-			goto st366
+			goto st356
 		}
 		goto st0
-	st366:
+	st356:
 		if p++; p == pe {
-			goto _test_eof366
+			goto _test_eof356
 		}
-	st_case_366:
+	st_case_356:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11376,150 +10699,150 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st366
+			goto st356
 		case 32:
-			goto st366
+			goto st356
 		case 269:
-			goto tr542
+			goto tr522
 		case 525:
-			goto st367
+			goto st357
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr542
+				goto tr522
 			}
 		default:
-			goto tr542
+			goto tr522
 		}
 		goto st0
-	st367:
+	st357:
 		if p++; p == pe {
-			goto _test_eof367
+			goto _test_eof357
 		}
-	st_case_367:
+	st_case_357:
 		if data[p] == 10 {
-			goto st368
+			goto st358
 		}
 		goto st0
-	st368:
+	st358:
 		if p++; p == pe {
-			goto _test_eof368
+			goto _test_eof358
 		}
-	st_case_368:
+	st_case_358:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st359
 		case 32:
-			goto st369
+			goto st359
 		}
 		goto st0
-	st369:
+	st359:
 		if p++; p == pe {
-			goto _test_eof369
+			goto _test_eof359
 		}
-	st_case_369:
+	st_case_359:
 		switch data[p] {
 		case 9:
-			goto st369
+			goto st359
 		case 32:
-			goto st369
+			goto st359
 		}
-		goto tr542
-	st370:
+		goto tr522
+	st360:
 		if p++; p == pe {
-			goto _test_eof370
+			goto _test_eof360
 		}
-	st_case_370:
+	st_case_360:
 		switch data[p] {
 		case 76:
-			goto st371
+			goto st361
 		case 108:
-			goto st371
+			goto st361
 		}
-		goto tr417
-	st371:
+		goto tr397
+	st361:
 		if p++; p == pe {
-			goto _test_eof371
+			goto _test_eof361
 		}
-	st_case_371:
+	st_case_361:
 		switch data[p] {
 		case 76:
-			goto st372
+			goto st362
 		case 108:
-			goto st372
+			goto st362
 		}
-		goto tr417
-	st372:
+		goto tr397
+	st362:
 		if p++; p == pe {
-			goto _test_eof372
+			goto _test_eof362
 		}
-	st_case_372:
+	st_case_362:
 		if data[p] == 45 {
-			goto st373
+			goto st363
 		}
-		goto tr417
-	st373:
+		goto tr397
+	st363:
 		if p++; p == pe {
-			goto _test_eof373
+			goto _test_eof363
 		}
-	st_case_373:
+	st_case_363:
 		switch data[p] {
 		case 73:
-			goto st374
+			goto st364
 		case 105:
-			goto st374
+			goto st364
 		}
-		goto tr417
-	st374:
+		goto tr397
+	st364:
 		if p++; p == pe {
-			goto _test_eof374
+			goto _test_eof364
 		}
-	st_case_374:
+	st_case_364:
 		switch data[p] {
 		case 68:
-			goto st375
+			goto st365
 		case 78:
-			goto st385
-		case 100:
 			goto st375
+		case 100:
+			goto st365
 		case 110:
-			goto st385
+			goto st375
 		}
-		goto tr417
-	st375:
+		goto tr397
+	st365:
 		if p++; p == pe {
-			goto _test_eof375
+			goto _test_eof365
 		}
-	st_case_375:
+	st_case_365:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st366
 		case 32:
-			goto st376
+			goto st366
 		case 58:
-			goto st377
+			goto st367
 		}
-		goto tr417
-	st376:
+		goto tr397
+	st366:
 		if p++; p == pe {
-			goto _test_eof376
+			goto _test_eof366
 		}
-	st_case_376:
+	st_case_366:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto st366
 		case 32:
-			goto st376
+			goto st366
 		case 58:
-			goto st377
+			goto st367
 		}
 		goto st0
-	st377:
+	st367:
 		if p++; p == pe {
-			goto _test_eof377
+			goto _test_eof367
 		}
-	st_case_377:
+	st_case_367:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11529,59 +10852,59 @@ value=&msg.WWWAuthenticate
 		}
 		switch _widec {
 		case 9:
-			goto st377
+			goto st367
 		case 32:
-			goto st377
+			goto st367
 		case 37:
-			goto tr554
+			goto tr534
 		case 60:
-			goto tr554
+			goto tr534
 		case 525:
-			goto st382
+			goto st372
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto tr554
+					goto tr534
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto tr554
+					goto tr534
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		default:
-			goto tr554
+			goto tr534
 		}
 		goto st0
-tr554:
+tr534:
 //line sip.rl:80
 
 	mark = p
 
-	goto st378
-	st378:
+	goto st368
+	st368:
 		if p++; p == pe {
-			goto _test_eof378
+			goto _test_eof368
 		}
-	st_case_378:
-//line msg_parse.go:11576
+	st_case_368:
+//line msg_parse.go:10899
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11591,88 +10914,88 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st378
+			goto st368
 		case 60:
-			goto st378
+			goto st368
 		case 64:
-			goto st379
+			goto st369
 		case 269:
-			goto tr558
+			goto tr538
 		}
 		switch {
 		case _widec < 45:
 			switch {
 			case _widec > 34:
 				if 39 <= _widec && _widec <= 43 {
-					goto st378
+					goto st368
 				}
 			case _widec >= 33:
-				goto st378
+				goto st368
 			}
 		case _widec > 58:
 			switch {
 			case _widec < 95:
 				if 62 <= _widec && _widec <= 93 {
-					goto st378
+					goto st368
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st378
+					goto st368
 				}
 			default:
-				goto st378
+				goto st368
 			}
 		default:
-			goto st378
+			goto st368
 		}
 		goto st0
-	st379:
+	st369:
 		if p++; p == pe {
-			goto _test_eof379
+			goto _test_eof369
 		}
-	st_case_379:
+	st_case_369:
 		switch data[p] {
 		case 37:
-			goto st380
+			goto st370
 		case 60:
-			goto st380
+			goto st370
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto st380
+					goto st370
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto st380
+					goto st370
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		default:
-			goto st380
+			goto st370
 		}
 		goto st0
-	st380:
+	st370:
 		if p++; p == pe {
-			goto _test_eof380
+			goto _test_eof370
 		}
-	st_case_380:
+	st_case_370:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -11682,325 +11005,325 @@ tr554:
 		}
 		switch _widec {
 		case 37:
-			goto st380
+			goto st370
 		case 60:
-			goto st380
+			goto st370
 		case 269:
-			goto tr558
+			goto tr538
 		}
 		switch {
 		case _widec < 62:
 			switch {
 			case _widec < 39:
 				if 33 <= _widec && _widec <= 34 {
-					goto st380
+					goto st370
 				}
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 58 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		case _widec > 63:
 			switch {
 			case _widec < 95:
 				if 65 <= _widec && _widec <= 93 {
-					goto st380
+					goto st370
 				}
 			case _widec > 123:
 				if 125 <= _widec && _widec <= 126 {
-					goto st380
+					goto st370
 				}
 			default:
-				goto st380
+				goto st370
 			}
 		default:
-			goto st380
+			goto st370
 		}
 		goto st0
-tr558:
+tr538:
 //line sip.rl:226
 
 	msg.CallID = string(data[mark:p])
 
-	goto st381
-tr644:
+	goto st371
+tr624:
 //line sip.rl:244
 
 	msg.CSeqMethod = string(data[mark:p])
 
-	goto st381
-	st381:
+	goto st371
+	st371:
 		if p++; p == pe {
-			goto _test_eof381
+			goto _test_eof371
 		}
-	st_case_381:
-//line msg_parse.go:11731
+	st_case_371:
+//line msg_parse.go:11054
 		if data[p] == 10 {
-			goto tr560
+			goto tr540
 		}
 		goto st0
-	st382:
+	st372:
 		if p++; p == pe {
-			goto _test_eof382
+			goto _test_eof372
 		}
-	st_case_382:
+	st_case_372:
 		if data[p] == 10 {
-			goto st383
+			goto st373
 		}
 		goto st0
-	st383:
+	st373:
 		if p++; p == pe {
-			goto _test_eof383
+			goto _test_eof373
 		}
-	st_case_383:
+	st_case_373:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st374
 		case 32:
-			goto st384
+			goto st374
 		}
 		goto st0
-	st384:
+	st374:
 		if p++; p == pe {
-			goto _test_eof384
+			goto _test_eof374
 		}
-	st_case_384:
+	st_case_374:
 		switch data[p] {
 		case 9:
-			goto st384
+			goto st374
 		case 32:
-			goto st384
+			goto st374
 		case 37:
-			goto tr554
+			goto tr534
 		case 60:
-			goto tr554
+			goto tr534
 		}
 		switch {
 		case data[p] < 62:
 			switch {
 			case data[p] < 39:
 				if 33 <= data[p] && data[p] <= 34 {
-					goto tr554
+					goto tr534
 				}
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 58 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		case data[p] > 63:
 			switch {
 			case data[p] < 95:
 				if 65 <= data[p] && data[p] <= 93 {
-					goto tr554
+					goto tr534
 				}
 			case data[p] > 123:
 				if 125 <= data[p] && data[p] <= 126 {
-					goto tr554
+					goto tr534
 				}
 			default:
-				goto tr554
+				goto tr534
 			}
 		default:
-			goto tr554
+			goto tr534
 		}
 		goto st0
-	st385:
+	st375:
 		if p++; p == pe {
-			goto _test_eof385
+			goto _test_eof375
 		}
-	st_case_385:
+	st_case_375:
 		switch data[p] {
 		case 70:
-			goto st386
+			goto st376
 		case 102:
-			goto st386
+			goto st376
 		}
-		goto tr417
-	st386:
+		goto tr397
+	st376:
 		if p++; p == pe {
-			goto _test_eof386
+			goto _test_eof376
 		}
-	st_case_386:
+	st_case_376:
 		switch data[p] {
 		case 79:
-			goto st387
+			goto st377
 		case 111:
-			goto st387
+			goto st377
 		}
-		goto tr417
-	st387:
+		goto tr397
+	st377:
 		if p++; p == pe {
-			goto _test_eof387
+			goto _test_eof377
 		}
-	st_case_387:
+	st_case_377:
 		switch data[p] {
 		case 9:
-			goto tr565
+			goto tr545
 		case 32:
-			goto tr565
+			goto tr545
 		case 58:
-			goto tr566
+			goto tr546
 		}
-		goto tr417
-	st388:
+		goto tr397
+	st378:
 		if p++; p == pe {
-			goto _test_eof388
+			goto _test_eof378
 		}
-	st_case_388:
+	st_case_378:
 		switch data[p] {
 		case 78:
-			goto st389
+			goto st379
 		case 110:
-			goto st389
+			goto st379
 		}
-		goto tr417
-	st389:
+		goto tr397
+	st379:
 		if p++; p == pe {
-			goto _test_eof389
+			goto _test_eof379
 		}
-	st_case_389:
+	st_case_379:
 		switch data[p] {
 		case 84:
-			goto st390
+			goto st380
 		case 116:
-			goto st390
+			goto st380
 		}
-		goto tr417
-	st390:
+		goto tr397
+	st380:
 		if p++; p == pe {
-			goto _test_eof390
+			goto _test_eof380
 		}
-	st_case_390:
+	st_case_380:
 		switch data[p] {
 		case 65:
-			goto st391
+			goto st381
 		case 69:
-			goto st399
+			goto st389
 		case 97:
-			goto st391
+			goto st381
 		case 101:
-			goto st399
+			goto st389
 		}
-		goto tr417
-	st391:
+		goto tr397
+	st381:
 		if p++; p == pe {
-			goto _test_eof391
+			goto _test_eof381
 		}
-	st_case_391:
+	st_case_381:
 		switch data[p] {
 		case 67:
-			goto st392
+			goto st382
 		case 99:
-			goto st392
+			goto st382
 		}
-		goto tr417
-	st392:
+		goto tr397
+	st382:
 		if p++; p == pe {
-			goto _test_eof392
+			goto _test_eof382
 		}
-	st_case_392:
+	st_case_382:
 		switch data[p] {
 		case 84:
-			goto st393
+			goto st383
 		case 116:
-			goto st393
+			goto st383
 		}
-		goto tr417
-	st393:
+		goto tr397
+	st383:
 		if p++; p == pe {
-			goto _test_eof393
+			goto _test_eof383
 		}
-	st_case_393:
+	st_case_383:
 		switch data[p] {
 		case 9:
-			goto tr573
+			goto tr553
 		case 32:
-			goto tr573
+			goto tr553
 		case 58:
-			goto tr574
+			goto tr554
 		}
-		goto tr417
-tr573:
-//line sip.rl:448
-addrp=lastAddr(&msg.Contact)
-	goto st394
-tr684:
+		goto tr397
+tr553:
 //line sip.rl:449
-addrp=lastAddr(&msg.From)
-	goto st394
-tr782:
+addrp=lastAddr(&msg.Contact)
+	goto st384
+tr664:
 //line sip.rl:450
-addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st394
-tr849:
+addrp=lastAddr(&msg.From)
+	goto st384
+tr762:
 //line sip.rl:451
-addrp=lastAddr(&msg.RecordRoute)
-	goto st394
-tr873:
+addrp=lastAddr(&msg.PAssertedIdentity)
+	goto st384
+tr829:
 //line sip.rl:452
-addrp=lastAddr(&msg.RemotePartyID)
-	goto st394
-tr901:
+addrp=lastAddr(&msg.RecordRoute)
+	goto st384
+tr853:
 //line sip.rl:453
-addrp=lastAddr(&msg.Route)
-	goto st394
-tr924:
+addrp=lastAddr(&msg.RemotePartyID)
+	goto st384
+tr881:
 //line sip.rl:454
+addrp=lastAddr(&msg.Route)
+	goto st384
+tr904:
+//line sip.rl:455
 addrp=lastAddr(&msg.To)
-	goto st394
-	st394:
+	goto st384
+	st384:
 		if p++; p == pe {
-			goto _test_eof394
+			goto _test_eof384
 		}
-	st_case_394:
-//line msg_parse.go:11952
+	st_case_384:
+//line msg_parse.go:11275
 		switch data[p] {
 		case 9:
-			goto st394
+			goto st384
 		case 32:
-			goto st394
+			goto st384
 		case 58:
-			goto st395
+			goto st385
 		}
 		goto st0
-tr574:
-//line sip.rl:448
-addrp=lastAddr(&msg.Contact)
-	goto st395
-tr685:
+tr554:
 //line sip.rl:449
-addrp=lastAddr(&msg.From)
-	goto st395
-tr783:
+addrp=lastAddr(&msg.Contact)
+	goto st385
+tr665:
 //line sip.rl:450
-addrp=lastAddr(&msg.PAssertedIdentity)
-	goto st395
-tr850:
+addrp=lastAddr(&msg.From)
+	goto st385
+tr763:
 //line sip.rl:451
-addrp=lastAddr(&msg.RecordRoute)
-	goto st395
-tr874:
+addrp=lastAddr(&msg.PAssertedIdentity)
+	goto st385
+tr830:
 //line sip.rl:452
-addrp=lastAddr(&msg.RemotePartyID)
-	goto st395
-tr902:
+addrp=lastAddr(&msg.RecordRoute)
+	goto st385
+tr854:
 //line sip.rl:453
-addrp=lastAddr(&msg.Route)
-	goto st395
-tr925:
+addrp=lastAddr(&msg.RemotePartyID)
+	goto st385
+tr882:
 //line sip.rl:454
+addrp=lastAddr(&msg.Route)
+	goto st385
+tr905:
+//line sip.rl:455
 addrp=lastAddr(&msg.To)
-	goto st395
-	st395:
+	goto st385
+	st385:
 		if p++; p == pe {
-			goto _test_eof395
+			goto _test_eof385
 		}
-	st_case_395:
-//line msg_parse.go:11995
+	st_case_385:
+//line msg_parse.go:11318
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12010,528 +11333,528 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st395
+			goto st385
 		case 32:
-			goto st395
+			goto st385
 		case 269:
-			goto tr577
+			goto tr557
 		case 525:
-			goto st396
+			goto st386
 		}
 		switch {
 		case _widec > 12:
 			if 14 <= _widec {
-				goto tr577
+				goto tr557
 			}
 		default:
-			goto tr577
+			goto tr557
 		}
 		goto st0
-	st396:
+	st386:
 		if p++; p == pe {
-			goto _test_eof396
+			goto _test_eof386
 		}
-	st_case_396:
+	st_case_386:
 		if data[p] == 10 {
-			goto st397
+			goto st387
 		}
 		goto st0
-	st397:
+	st387:
 		if p++; p == pe {
-			goto _test_eof397
+			goto _test_eof387
 		}
-	st_case_397:
+	st_case_387:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st388
 		case 32:
-			goto st398
+			goto st388
 		}
 		goto st0
-	st398:
+	st388:
 		if p++; p == pe {
-			goto _test_eof398
+			goto _test_eof388
 		}
-	st_case_398:
+	st_case_388:
 		switch data[p] {
 		case 9:
-			goto st398
+			goto st388
 		case 32:
-			goto st398
+			goto st388
 		}
-		goto tr577
-	st399:
+		goto tr557
+	st389:
 		if p++; p == pe {
-			goto _test_eof399
+			goto _test_eof389
 		}
-	st_case_399:
+	st_case_389:
 		switch data[p] {
 		case 78:
-			goto st400
+			goto st390
 		case 110:
-			goto st400
+			goto st390
 		}
-		goto tr417
-	st400:
+		goto tr397
+	st390:
 		if p++; p == pe {
-			goto _test_eof400
+			goto _test_eof390
 		}
-	st_case_400:
+	st_case_390:
 		switch data[p] {
 		case 84:
-			goto st401
+			goto st391
 		case 116:
-			goto st401
+			goto st391
 		}
-		goto tr417
-	st401:
+		goto tr397
+	st391:
 		if p++; p == pe {
-			goto _test_eof401
+			goto _test_eof391
 		}
-	st_case_401:
+	st_case_391:
 		if data[p] == 45 {
-			goto st402
+			goto st392
 		}
-		goto tr417
-	st402:
+		goto tr397
+	st392:
 		if p++; p == pe {
-			goto _test_eof402
+			goto _test_eof392
 		}
-	st_case_402:
+	st_case_392:
 		switch data[p] {
 		case 68:
-			goto st403
+			goto st393
 		case 69:
-			goto st414
+			goto st404
 		case 76:
-			goto st422
+			goto st412
 		case 84:
-			goto st441
+			goto st431
 		case 100:
-			goto st403
+			goto st393
 		case 101:
-			goto st414
+			goto st404
 		case 108:
-			goto st422
+			goto st412
 		case 116:
-			goto st441
+			goto st431
 		}
-		goto tr417
-	st403:
+		goto tr397
+	st393:
 		if p++; p == pe {
-			goto _test_eof403
+			goto _test_eof393
 		}
-	st_case_403:
+	st_case_393:
 		switch data[p] {
 		case 73:
-			goto st404
+			goto st394
 		case 105:
-			goto st404
+			goto st394
 		}
-		goto tr417
-	st404:
+		goto tr397
+	st394:
 		if p++; p == pe {
-			goto _test_eof404
+			goto _test_eof394
 		}
-	st_case_404:
+	st_case_394:
 		switch data[p] {
 		case 83:
-			goto st405
+			goto st395
 		case 115:
-			goto st405
+			goto st395
 		}
-		goto tr417
-	st405:
+		goto tr397
+	st395:
 		if p++; p == pe {
-			goto _test_eof405
+			goto _test_eof395
 		}
-	st_case_405:
+	st_case_395:
 		switch data[p] {
 		case 80:
-			goto st406
+			goto st396
 		case 112:
-			goto st406
+			goto st396
 		}
-		goto tr417
-	st406:
+		goto tr397
+	st396:
 		if p++; p == pe {
-			goto _test_eof406
+			goto _test_eof396
 		}
-	st_case_406:
+	st_case_396:
 		switch data[p] {
 		case 79:
-			goto st407
+			goto st397
 		case 111:
-			goto st407
+			goto st397
 		}
-		goto tr417
-	st407:
+		goto tr397
+	st397:
 		if p++; p == pe {
-			goto _test_eof407
+			goto _test_eof397
 		}
-	st_case_407:
+	st_case_397:
 		switch data[p] {
 		case 83:
-			goto st408
+			goto st398
 		case 115:
-			goto st408
+			goto st398
 		}
-		goto tr417
-	st408:
+		goto tr397
+	st398:
 		if p++; p == pe {
-			goto _test_eof408
+			goto _test_eof398
 		}
-	st_case_408:
+	st_case_398:
 		switch data[p] {
 		case 73:
-			goto st409
+			goto st399
 		case 105:
-			goto st409
+			goto st399
 		}
-		goto tr417
-	st409:
+		goto tr397
+	st399:
 		if p++; p == pe {
-			goto _test_eof409
+			goto _test_eof399
 		}
-	st_case_409:
+	st_case_399:
 		switch data[p] {
 		case 84:
-			goto st410
+			goto st400
 		case 116:
-			goto st410
+			goto st400
 		}
-		goto tr417
-	st410:
+		goto tr397
+	st400:
 		if p++; p == pe {
-			goto _test_eof410
+			goto _test_eof400
 		}
-	st_case_410:
+	st_case_400:
 		switch data[p] {
 		case 73:
-			goto st411
+			goto st401
 		case 105:
-			goto st411
+			goto st401
 		}
-		goto tr417
-	st411:
+		goto tr397
+	st401:
 		if p++; p == pe {
-			goto _test_eof411
+			goto _test_eof401
 		}
-	st_case_411:
+	st_case_401:
 		switch data[p] {
 		case 79:
-			goto st412
+			goto st402
 		case 111:
-			goto st412
+			goto st402
 		}
-		goto tr417
-	st412:
+		goto tr397
+	st402:
 		if p++; p == pe {
-			goto _test_eof412
+			goto _test_eof402
 		}
-	st_case_412:
+	st_case_402:
 		switch data[p] {
 		case 78:
-			goto st413
+			goto st403
 		case 110:
-			goto st413
+			goto st403
 		}
-		goto tr417
-	st413:
+		goto tr397
+	st403:
 		if p++; p == pe {
-			goto _test_eof413
+			goto _test_eof403
 		}
-	st_case_413:
+	st_case_403:
 		switch data[p] {
 		case 9:
-			goto tr598
+			goto tr578
 		case 32:
-			goto tr598
+			goto tr578
 		case 58:
-			goto tr599
+			goto tr579
 		}
-		goto tr417
-	st414:
+		goto tr397
+	st404:
 		if p++; p == pe {
-			goto _test_eof414
+			goto _test_eof404
 		}
-	st_case_414:
+	st_case_404:
 		switch data[p] {
 		case 78:
-			goto st415
+			goto st405
 		case 110:
-			goto st415
+			goto st405
 		}
-		goto tr417
-	st415:
+		goto tr397
+	st405:
 		if p++; p == pe {
-			goto _test_eof415
+			goto _test_eof405
 		}
-	st_case_415:
+	st_case_405:
 		switch data[p] {
 		case 67:
-			goto st416
+			goto st406
 		case 99:
-			goto st416
+			goto st406
 		}
-		goto tr417
-	st416:
+		goto tr397
+	st406:
 		if p++; p == pe {
-			goto _test_eof416
+			goto _test_eof406
 		}
-	st_case_416:
+	st_case_406:
 		switch data[p] {
 		case 79:
-			goto st417
+			goto st407
 		case 111:
-			goto st417
+			goto st407
 		}
-		goto tr417
-	st417:
+		goto tr397
+	st407:
 		if p++; p == pe {
-			goto _test_eof417
+			goto _test_eof407
 		}
-	st_case_417:
+	st_case_407:
 		switch data[p] {
 		case 68:
-			goto st418
+			goto st408
 		case 100:
-			goto st418
+			goto st408
 		}
-		goto tr417
-	st418:
+		goto tr397
+	st408:
 		if p++; p == pe {
-			goto _test_eof418
+			goto _test_eof408
 		}
-	st_case_418:
+	st_case_408:
 		switch data[p] {
 		case 73:
-			goto st419
+			goto st409
 		case 105:
-			goto st419
+			goto st409
 		}
-		goto tr417
-	st419:
+		goto tr397
+	st409:
 		if p++; p == pe {
-			goto _test_eof419
+			goto _test_eof409
 		}
-	st_case_419:
+	st_case_409:
 		switch data[p] {
 		case 78:
-			goto st420
+			goto st410
 		case 110:
-			goto st420
+			goto st410
 		}
-		goto tr417
-	st420:
+		goto tr397
+	st410:
 		if p++; p == pe {
-			goto _test_eof420
+			goto _test_eof410
 		}
-	st_case_420:
+	st_case_410:
 		switch data[p] {
 		case 71:
-			goto st421
+			goto st411
 		case 103:
-			goto st421
+			goto st411
 		}
-		goto tr417
-	st421:
+		goto tr397
+	st411:
 		if p++; p == pe {
-			goto _test_eof421
+			goto _test_eof411
 		}
-	st_case_421:
+	st_case_411:
 		switch data[p] {
 		case 9:
-			goto tr607
+			goto tr587
 		case 32:
-			goto tr607
+			goto tr587
 		case 58:
-			goto tr608
+			goto tr588
 		}
-		goto tr417
-	st422:
+		goto tr397
+	st412:
 		if p++; p == pe {
-			goto _test_eof422
+			goto _test_eof412
 		}
-	st_case_422:
+	st_case_412:
 		switch data[p] {
 		case 65:
-			goto st423
+			goto st413
 		case 69:
-			goto st430
+			goto st420
 		case 97:
-			goto st423
+			goto st413
 		case 101:
-			goto st430
+			goto st420
 		}
-		goto tr417
-	st423:
+		goto tr397
+	st413:
 		if p++; p == pe {
-			goto _test_eof423
+			goto _test_eof413
 		}
-	st_case_423:
+	st_case_413:
 		switch data[p] {
 		case 78:
-			goto st424
+			goto st414
 		case 110:
-			goto st424
+			goto st414
 		}
-		goto tr417
-	st424:
+		goto tr397
+	st414:
 		if p++; p == pe {
-			goto _test_eof424
+			goto _test_eof414
 		}
-	st_case_424:
+	st_case_414:
 		switch data[p] {
 		case 71:
-			goto st425
+			goto st415
 		case 103:
-			goto st425
+			goto st415
 		}
-		goto tr417
-	st425:
+		goto tr397
+	st415:
 		if p++; p == pe {
-			goto _test_eof425
+			goto _test_eof415
 		}
-	st_case_425:
+	st_case_415:
 		switch data[p] {
 		case 85:
-			goto st426
+			goto st416
 		case 117:
-			goto st426
+			goto st416
 		}
-		goto tr417
-	st426:
+		goto tr397
+	st416:
 		if p++; p == pe {
-			goto _test_eof426
+			goto _test_eof416
 		}
-	st_case_426:
+	st_case_416:
 		switch data[p] {
 		case 65:
-			goto st427
+			goto st417
 		case 97:
-			goto st427
+			goto st417
 		}
-		goto tr417
-	st427:
+		goto tr397
+	st417:
 		if p++; p == pe {
-			goto _test_eof427
+			goto _test_eof417
 		}
-	st_case_427:
+	st_case_417:
 		switch data[p] {
 		case 71:
-			goto st428
+			goto st418
 		case 103:
-			goto st428
+			goto st418
 		}
-		goto tr417
-	st428:
+		goto tr397
+	st418:
 		if p++; p == pe {
-			goto _test_eof428
+			goto _test_eof418
 		}
-	st_case_428:
+	st_case_418:
 		switch data[p] {
 		case 69:
-			goto st429
+			goto st419
 		case 101:
-			goto st429
+			goto st419
 		}
-		goto tr417
-	st429:
+		goto tr397
+	st419:
 		if p++; p == pe {
-			goto _test_eof429
+			goto _test_eof419
 		}
-	st_case_429:
+	st_case_419:
 		switch data[p] {
 		case 9:
-			goto tr617
+			goto tr597
 		case 32:
-			goto tr617
+			goto tr597
 		case 58:
-			goto tr618
+			goto tr598
 		}
-		goto tr417
-	st430:
+		goto tr397
+	st420:
 		if p++; p == pe {
-			goto _test_eof430
+			goto _test_eof420
 		}
-	st_case_430:
+	st_case_420:
 		switch data[p] {
 		case 78:
-			goto st431
+			goto st421
 		case 110:
-			goto st431
+			goto st421
 		}
-		goto tr417
-	st431:
+		goto tr397
+	st421:
 		if p++; p == pe {
-			goto _test_eof431
+			goto _test_eof421
 		}
-	st_case_431:
+	st_case_421:
 		switch data[p] {
 		case 71:
-			goto st432
+			goto st422
 		case 103:
-			goto st432
+			goto st422
 		}
-		goto tr417
-	st432:
+		goto tr397
+	st422:
 		if p++; p == pe {
-			goto _test_eof432
+			goto _test_eof422
 		}
-	st_case_432:
+	st_case_422:
 		switch data[p] {
 		case 84:
-			goto st433
+			goto st423
 		case 116:
-			goto st433
+			goto st423
 		}
-		goto tr417
-	st433:
+		goto tr397
+	st423:
 		if p++; p == pe {
-			goto _test_eof433
+			goto _test_eof423
 		}
-	st_case_433:
+	st_case_423:
 		switch data[p] {
 		case 72:
-			goto st434
+			goto st424
 		case 104:
-			goto st434
+			goto st424
 		}
-		goto tr417
-	st434:
+		goto tr397
+	st424:
 		if p++; p == pe {
-			goto _test_eof434
+			goto _test_eof424
 		}
-	st_case_434:
+	st_case_424:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st425
 		case 32:
-			goto st435
+			goto st425
 		case 58:
-			goto st436
+			goto st426
 		}
-		goto tr417
-	st435:
+		goto tr397
+	st425:
 		if p++; p == pe {
-			goto _test_eof435
+			goto _test_eof425
 		}
-	st_case_435:
+	st_case_425:
 		switch data[p] {
 		case 9:
-			goto st435
+			goto st425
 		case 32:
-			goto st435
+			goto st425
 		case 58:
-			goto st436
+			goto st426
 		}
 		goto st0
-	st436:
+	st426:
 		if p++; p == pe {
-			goto _test_eof436
+			goto _test_eof426
 		}
-	st_case_436:
+	st_case_426:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12541,38 +11864,38 @@ addrp=lastAddr(&msg.To)
 		}
 		switch _widec {
 		case 9:
-			goto st436
+			goto st426
 		case 32:
-			goto st436
+			goto st426
 		case 525:
-			goto st438
+			goto st428
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr624
+			goto tr604
 		}
 		goto st0
-tr624:
-//line sip.rl:504
+tr604:
+//line sip.rl:505
 clen=0
 //line sip.rl:230
 
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st437
-tr626:
+	goto st427
+tr606:
 //line sip.rl:230
 
 	clen = shift(clen, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st437
-	st437:
+	goto st427
+	st427:
 		if p++; p == pe {
-			goto _test_eof437
+			goto _test_eof427
 		}
-	st_case_437:
-//line msg_parse.go:12567
+	st_case_427:
+//line msg_parse.go:11890
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12581,155 +11904,155 @@ tr626:
 			}
 		}
 		if _widec == 269 {
-			goto st381
+			goto st371
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr626
+			goto tr606
 		}
 		goto st0
-	st438:
+	st428:
 		if p++; p == pe {
-			goto _test_eof438
+			goto _test_eof428
 		}
-	st_case_438:
+	st_case_428:
 		if data[p] == 10 {
-			goto st439
+			goto st429
 		}
 		goto st0
-	st439:
+	st429:
 		if p++; p == pe {
-			goto _test_eof439
+			goto _test_eof429
 		}
-	st_case_439:
+	st_case_429:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st430
 		case 32:
-			goto st440
+			goto st430
 		}
 		goto st0
-	st440:
+	st430:
 		if p++; p == pe {
-			goto _test_eof440
+			goto _test_eof430
 		}
-	st_case_440:
+	st_case_430:
 		switch data[p] {
 		case 9:
-			goto st440
+			goto st430
 		case 32:
-			goto st440
+			goto st430
 		}
 		if 48 <= data[p] && data[p] <= 57 {
-			goto tr624
+			goto tr604
 		}
 		goto st0
-	st441:
+	st431:
 		if p++; p == pe {
-			goto _test_eof441
+			goto _test_eof431
 		}
-	st_case_441:
+	st_case_431:
 		switch data[p] {
 		case 89:
-			goto st442
+			goto st432
 		case 121:
-			goto st442
+			goto st432
 		}
-		goto tr417
-	st442:
+		goto tr397
+	st432:
 		if p++; p == pe {
-			goto _test_eof442
+			goto _test_eof432
 		}
-	st_case_442:
+	st_case_432:
 		switch data[p] {
 		case 80:
-			goto st443
+			goto st433
 		case 112:
-			goto st443
+			goto st433
 		}
-		goto tr417
-	st443:
+		goto tr397
+	st433:
 		if p++; p == pe {
-			goto _test_eof443
+			goto _test_eof433
 		}
-	st_case_443:
+	st_case_433:
 		switch data[p] {
 		case 69:
-			goto st444
+			goto st434
 		case 101:
-			goto st444
+			goto st434
 		}
-		goto tr417
-	st444:
+		goto tr397
+	st434:
 		if p++; p == pe {
-			goto _test_eof444
+			goto _test_eof434
 		}
-	st_case_444:
+	st_case_434:
 		switch data[p] {
 		case 9:
-			goto st365
+			goto st355
 		case 32:
-			goto st365
+			goto st355
 		case 58:
-			goto st366
+			goto st356
 		}
-		goto tr417
-	st445:
+		goto tr397
+	st435:
 		if p++; p == pe {
-			goto _test_eof445
+			goto _test_eof435
 		}
-	st_case_445:
+	st_case_435:
 		switch data[p] {
 		case 69:
-			goto st446
+			goto st436
 		case 101:
-			goto st446
+			goto st436
 		}
-		goto tr417
-	st446:
+		goto tr397
+	st436:
 		if p++; p == pe {
-			goto _test_eof446
+			goto _test_eof436
 		}
-	st_case_446:
+	st_case_436:
 		switch data[p] {
 		case 81:
-			goto st447
+			goto st437
 		case 113:
-			goto st447
+			goto st437
 		}
-		goto tr417
-	st447:
+		goto tr397
+	st437:
 		if p++; p == pe {
-			goto _test_eof447
+			goto _test_eof437
 		}
-	st_case_447:
+	st_case_437:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st438
 		case 32:
-			goto st448
+			goto st438
 		case 58:
-			goto st449
+			goto st439
 		}
-		goto tr417
-	st448:
+		goto tr397
+	st438:
 		if p++; p == pe {
-			goto _test_eof448
+			goto _test_eof438
 		}
-	st_case_448:
+	st_case_438:
 		switch data[p] {
 		case 9:
-			goto st448
+			goto st438
 		case 32:
-			goto st448
+			goto st438
 		case 58:
-			goto st449
+			goto st439
 		}
 		goto st0
-	st449:
+	st439:
 		if p++; p == pe {
-			goto _test_eof449
+			goto _test_eof439
 		}
-	st_case_449:
+	st_case_439:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12739,38 +12062,38 @@ tr626:
 		}
 		switch _widec {
 		case 9:
-			goto st449
+			goto st439
 		case 32:
-			goto st449
+			goto st439
 		case 525:
-			goto st456
+			goto st446
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr637
+			goto tr617
 		}
 		goto st0
-tr637:
-//line sip.rl:505
+tr617:
+//line sip.rl:506
 msg.CSeq=0
 //line sip.rl:239
 
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st450
-tr640:
+	goto st440
+tr620:
 //line sip.rl:239
 
 	msg.CSeq = shift(msg.CSeq, data[p], maxInt, &err)
 	if err != nil { return nil, err }
 
-	goto st450
-	st450:
+	goto st440
+	st440:
 		if p++; p == pe {
-			goto _test_eof450
+			goto _test_eof440
 		}
-	st_case_450:
-//line msg_parse.go:12765
+	st_case_440:
+//line msg_parse.go:12088
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12780,21 +12103,21 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st441
 		case 32:
-			goto st451
+			goto st441
 		case 525:
-			goto st453
+			goto st443
 		}
 		if 48 <= _widec && _widec <= 57 {
-			goto tr640
+			goto tr620
 		}
 		goto st0
-	st451:
+	st441:
 		if p++; p == pe {
-			goto _test_eof451
+			goto _test_eof441
 		}
-	st_case_451:
+	st_case_441:
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12804,55 +12127,55 @@ tr640:
 		}
 		switch _widec {
 		case 9:
-			goto st451
+			goto st441
 		case 32:
-			goto st451
+			goto st441
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		case 525:
-			goto st453
+			goto st443
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 42:
-				goto tr642
+				goto tr622
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case _widec >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
 		}
 		goto st0
-tr642:
+tr622:
 //line sip.rl:80
 
 	mark = p
 
-	goto st452
-	st452:
+	goto st442
+	st442:
 		if p++; p == pe {
-			goto _test_eof452
+			goto _test_eof442
 		}
-	st_case_452:
-//line msg_parse.go:12847
+	st_case_442:
+//line msg_parse.go:12170
 		_widec = int16(data[p])
 		if 13 <= data[p] && data[p] <= 13 {
 			_widec = 256 + (int16(data[p]) - 0)
@@ -12862,174 +12185,307 @@ tr642:
 		}
 		switch _widec {
 		case 33:
-			goto st452
+			goto st442
 		case 37:
-			goto st452
+			goto st442
 		case 39:
-			goto st452
+			goto st442
 		case 126:
-			goto st452
+			goto st442
 		case 269:
-			goto tr644
+			goto tr624
 		}
 		switch {
 		case _widec < 48:
 			switch {
 			case _widec > 43:
 				if 45 <= _widec && _widec <= 46 {
-					goto st452
+					goto st442
 				}
 			case _widec >= 42:
-				goto st452
+				goto st442
 			}
 		case _widec > 57:
 			switch {
 			case _widec > 90:
 				if 95 <= _widec && _widec <= 122 {
-					goto st452
+					goto st442
 				}
 			case _widec >= 65:
-				goto st452
+				goto st442
 			}
 		default:
-			goto st452
+			goto st442
 		}
 		goto st0
-	st453:
+	st443:
 		if p++; p == pe {
-			goto _test_eof453
+			goto _test_eof443
 		}
-	st_case_453:
+	st_case_443:
 		if data[p] == 10 {
-			goto st454
+			goto st444
 		}
 		goto st0
-	st454:
+	st444:
 		if p++; p == pe {
-			goto _test_eof454
+			goto _test_eof444
 		}
-	st_case_454:
+	st_case_444:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st445
 		case 32:
-			goto st455
+			goto st445
 		}
 		goto st0
-	st455:
+	st445:
 		if p++; p == pe {
-			goto _test_eof455
+			goto _test_eof445
 		}
-	st_case_455:
+	st_case_445:
 		switch data[p] {
 		case 9:
-			goto st455
+			goto st445
 		case 32:
-			goto st455
+			goto st445
 		case 33:
-			goto tr642
+			goto tr622
 		case 37:
-			goto tr642
+			goto tr622
 		case 39:
-			goto tr642
+			goto tr622
 		case 126:
-			goto tr642
+			goto tr622
 		}
 		switch {
 		case data[p] < 48:
 			switch {
 			case data[p] > 43:
 				if 45 <= data[p] && data[p] <= 46 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 42:
-				goto tr642
+				goto tr622
 			}
 		case data[p] > 57:
 			switch {
 			case data[p] > 90:
 				if 95 <= data[p] && data[p] <= 122 {
-					goto tr642
+					goto tr622
 				}
 			case data[p] >= 65:
-				goto tr642
+				goto tr622
 			}
 		default:
-			goto tr642
+			goto tr622
+		}
+		goto st0
+	st446:
+		if p++; p == pe {
+			goto _test_eof446
+		}
+	st_case_446:
+		if data[p] == 10 {
+			goto st447
+		}
+		goto st0
+	st447:
+		if p++; p == pe {
+			goto _test_eof447
+		}
+	st_case_447:
+		switch data[p] {
+		case 9:
+			goto st448
+		case 32:
+			goto st448
+		}
+		goto st0
+	st448:
+		if p++; p == pe {
+			goto _test_eof448
+		}
+	st_case_448:
+		switch data[p] {
+		case 9:
+			goto st448
+		case 32:
+			goto st448
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr617
 		}
 		goto st0
+	st449:
+		if p++; p == pe {
+			goto _test_eof449
+		}
+	st_case_449:
+		switch data[p] {
+		case 65:
+			goto st450
+		case 97:
+			goto st450
+		}
+		goto tr397
+	st450:
+		if p++; p == pe {
+			goto _test_eof450
+		}
+	st_case_450:
+		switch data[p] {
+		case 84:
+			goto st451
+		case 116:
+			goto st451
+		}
+		goto tr397
+	st451:
+		if p++; p == pe {
+			goto _test_eof451
+		}
+	st_case_451:
+		switch data[p] {
+		case 69:
+			goto st452
+		case 101:
+			goto st452
+		}
+		goto tr397
+	st452:
+		if p++; p == pe {
+			goto _test_eof452
+		}
+	st_case_452:
+		switch data[p] {
+		case 9:
+			goto tr632
+		case 32:
+			goto tr632
+		case 58:
+			goto tr633
+		}
+		goto tr397
+	st453:
+		if p++; p == pe {
+			goto _test_eof453
+		}
+	st_case_453:
+		switch data[p] {
+		case 9:
+			goto tr587
+		case 32:
+			goto tr587
+		case 58:
+			goto tr588
+		case 82:
+			goto st454
+		case 86:
+			goto st463
+		case 88:
+			goto st467
+		case 114:
+			goto st454
+		case 118:
+			goto st463
+		case 120:
+			goto st467
+		}
+		goto tr397
+	st454:
+		if p++; p == pe {
+			goto _test_eof454
+		}
+	st_case_454:
+		switch data[p] {
+		case 82:
+			goto st455
+		case 114:
+			goto st455
+		}
+		goto tr397
+	st455:
+		if p++; p == pe {
+			goto _test_eof455
+		}
+	st_case_455:
+		switch data[p] {
+		case 79:
+			goto st456
+		case 111:
+			goto st456
+		}
+		goto tr397
 	st456:
 		if p++; p == pe {
 			goto _test_eof456
 		}
 	st_case_456:
-		if data[p] == 10 {
+		switch data[p] {
+		case 82:
+			goto st457
+		case 114:
 			goto st457
 		}
-		goto st0
+		goto tr397
 	st457:
 		if p++; p == pe {
 			goto _test_eof457
 		}
 	st_case_457:
-		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
+		if data[p] == 45 {
 			goto st458
 		}
-		goto st0
+		goto tr397
 	st458:
 		if p++; p == pe {
 			goto _test_eof458
 		}
 	st_case_458:
 		switch data[p] {
-		case 9:
-			goto st458
-		case 32:
-			goto st458
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr637
+		case 73:
+			goto st459
+		case 105:
+			goto st459
 		}
-		goto st0
+		goto tr397
 	st459:
 		if p++; p == pe {
 			goto _test_eof459
 		}
 	st_case_459:
 		switch data[p] {
-		case 65:
+		case 78:
 			goto st460
-		case 97:
+		case 110:
 			goto st460
 		}
-		goto tr417
+		goto tr397
 	st460:
 		if p++; p == pe {
 			goto _test_eof460
 		}
 	st_case_460:
 		switch data[p] {
-		case 84:
+		case 70:
 			goto st461
-		case 116:
+		case 102:
 			goto st461
 		}
-		goto tr417
+		goto tr397
 	st461:
 		if p++; p == pe {
 			goto _test_eof461
 		}
 	st_case_461:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st462
-		case 101:
+		case 111:
 			goto st462
 		}
-		goto tr417
+		goto tr397
 	st462:
 		if p++; p == pe {
 			goto _test_eof462
@@ -13037,84 +12493,75 @@ tr642:
 	st_case_462:
 		switch data[p] {
 		case 9:
-			goto tr652
+			goto tr645
 		case 32:
-			goto tr652
+			goto tr645
 		case 58:
-			goto tr653
+			goto tr646
 		}
-		goto tr417
+		goto tr397
 	st463:
 		if p++; p == pe {
 			goto _test_eof463
 		}
 	st_case_463:
 		switch data[p] {
-		case 9:
-			goto tr607
-		case 32:
-			goto tr607
-		case 58:
-			goto tr608
-		case 82:
+		case 69:
 			goto st464
-		case 86:
-			goto st473
-		case 88:
-			goto st477
-		case 114:
+		case 101:
 			goto st464
-		case 118:
-			goto st473
-		case 120:
-			goto st477
 		}
-		goto tr417
+		goto tr397
 	st464:
 		if p++; p == pe {
 			goto _test_eof464
 		}
 	st_case_464:
 		switch data[p] {
-		case 82:
+		case 78:
 			goto st465
-		case 114:
+		case 110:
 			goto st465
 		}
-		goto tr417
+		goto tr397
 	st465:
 		if p++; p == pe {
 			goto _test_eof465
 		}
 	st_case_465:
 		switch data[p] {
-		case 79:
+		case 84:
 			goto st466
-		case 111:
+		case 116:
 			goto st466
 		}
-		goto tr417
+		goto tr397
 	st466:
 		if p++; p == pe {
 			goto _test_eof466
 		}
 	st_case_466:
 		switch data[p] {
-		case 82:
-			goto st467
-		case 114:
-			goto st467
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		}
-		goto tr417
+		goto tr397
 	st467:
 		if p++; p == pe {
 			goto _test_eof467
 		}
 	st_case_467:
-		if data[p] == 45 {
+		switch data[p] {
+		case 80:
+			goto st468
+		case 112:
 			goto st468
 		}
-		goto tr417
+		goto tr397
 	st468:
 		if p++; p == pe {
 			goto _test_eof468
@@ -13126,43 +12573,43 @@ tr642:
 		case 105:
 			goto st469
 		}
-		goto tr417
+		goto tr397
 	st469:
 		if p++; p == pe {
 			goto _test_eof469
 		}
 	st_case_469:
 		switch data[p] {
-		case 78:
+		case 82:
 			goto st470
-		case 110:
+		case 114:
 			goto st470
 		}
-		goto tr417
+		goto tr397
 	st470:
 		if p++; p == pe {
 			goto _test_eof470
 		}
 	st_case_470:
 		switch data[p] {
-		case 70:
+		case 69:
 			goto st471
-		case 102:
+		case 101:
 			goto st471
 		}
-		goto tr417
+		goto tr397
 	st471:
 		if p++; p == pe {
 			goto _test_eof471
 		}
 	st_case_471:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st472
-		case 111:
+		case 115:
 			goto st472
 		}
-		goto tr417
+		goto tr397
 	st472:
 		if p++; p == pe {
 			goto _test_eof472
@@ -13170,123 +12617,165 @@ tr642:
 	st_case_472:
 		switch data[p] {
 		case 9:
-			goto tr665
+			goto st473
 		case 32:
-			goto tr665
+			goto st473
 		case 58:
-			goto tr666
+			goto st474
 		}
-		goto tr417
+		goto tr397
 	st473:
 		if p++; p == pe {
 			goto _test_eof473
 		}
 	st_case_473:
 		switch data[p] {
-		case 69:
-			goto st474
-		case 101:
+		case 9:
+			goto st473
+		case 32:
+			goto st473
+		case 58:
 			goto st474
 		}
-		goto tr417
+		goto st0
 	st474:
 		if p++; p == pe {
 			goto _test_eof474
 		}
 	st_case_474:
-		switch data[p] {
-		case 78:
-			goto st475
-		case 110:
-			goto st475
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st474
+		case 32:
+			goto st474
+		case 525:
+			goto st476
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr659
 		}
-		goto tr417
+		goto st0
+tr659:
+//line sip.rl:507
+msg.Expires=0
+//line sip.rl:248
+
+	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
+
+	goto st475
+tr661:
+//line sip.rl:248
+
+	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
+
+	goto st475
 	st475:
 		if p++; p == pe {
 			goto _test_eof475
 		}
 	st_case_475:
-		switch data[p] {
-		case 84:
-			goto st476
-		case 116:
-			goto st476
+//line msg_parse.go:12678
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st371
 		}
-		goto tr417
+		if 48 <= _widec && _widec <= 57 {
+			goto tr661
+		}
+		goto st0
 	st476:
 		if p++; p == pe {
 			goto _test_eof476
 		}
 	st_case_476:
-		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
+		if data[p] == 10 {
+			goto st477
 		}
-		goto tr417
+		goto st0
 	st477:
 		if p++; p == pe {
 			goto _test_eof477
 		}
 	st_case_477:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st478
-		case 112:
+		case 32:
 			goto st478
 		}
-		goto tr417
+		goto st0
 	st478:
 		if p++; p == pe {
 			goto _test_eof478
 		}
 	st_case_478:
 		switch data[p] {
-		case 73:
-			goto st479
-		case 105:
-			goto st479
+		case 9:
+			goto st478
+		case 32:
+			goto st478
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr659
 		}
-		goto tr417
+		goto st0
 	st479:
 		if p++; p == pe {
 			goto _test_eof479
 		}
 	st_case_479:
 		switch data[p] {
+		case 9:
+			goto tr664
+		case 32:
+			goto tr664
+		case 58:
+			goto tr665
 		case 82:
 			goto st480
 		case 114:
 			goto st480
 		}
-		goto tr417
+		goto tr397
 	st480:
 		if p++; p == pe {
 			goto _test_eof480
 		}
 	st_case_480:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st481
-		case 101:
+		case 111:
 			goto st481
 		}
-		goto tr417
+		goto tr397
 	st481:
 		if p++; p == pe {
 			goto _test_eof481
 		}
 	st_case_481:
 		switch data[p] {
-		case 83:
+		case 77:
 			goto st482
-		case 115:
+		case 109:
 			goto st482
 		}
-		goto tr417
+		goto tr397
 	st482:
 		if p++; p == pe {
 			goto _test_eof482
@@ -13294,13 +12783,13 @@ tr642:
 	st_case_482:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto tr664
 		case 32:
-			goto st483
+			goto tr664
 		case 58:
-			goto st484
+			goto tr665
 		}
-		goto tr417
+		goto tr397
 	st483:
 		if p++; p == pe {
 			goto _test_eof483
@@ -13308,165 +12797,119 @@ tr642:
 	st_case_483:
 		switch data[p] {
 		case 9:
-			goto st483
+			goto st366
 		case 32:
-			goto st483
+			goto st366
 		case 58:
+			goto st367
+		case 78:
+			goto st484
+		case 110:
 			goto st484
 		}
-		goto st0
+		goto tr397
 	st484:
 		if p++; p == pe {
 			goto _test_eof484
 		}
 	st_case_484:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st484
-		case 32:
-			goto st484
-		case 525:
-			goto st486
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr679
+		if data[p] == 45 {
+			goto st485
 		}
-		goto st0
-tr679:
-//line sip.rl:506
-msg.Expires=0
-//line sip.rl:248
-
-	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
-	if err != nil { return nil, err }
-
-	goto st485
-tr681:
-//line sip.rl:248
-
-	msg.Expires = shift(msg.Expires, data[p], maxInt, &err)
-	if err != nil { return nil, err }
-
-	goto st485
+		goto tr397
 	st485:
 		if p++; p == pe {
 			goto _test_eof485
 		}
 	st_case_485:
-//line msg_parse.go:13355
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr681
+		switch data[p] {
+		case 82:
+			goto st486
+		case 114:
+			goto st486
 		}
-		goto st0
+		goto tr397
 	st486:
 		if p++; p == pe {
 			goto _test_eof486
 		}
 	st_case_486:
-		if data[p] == 10 {
+		switch data[p] {
+		case 69:
+			goto st487
+		case 101:
 			goto st487
 		}
-		goto st0
+		goto tr397
 	st487:
 		if p++; p == pe {
 			goto _test_eof487
 		}
 	st_case_487:
 		switch data[p] {
-		case 9:
+		case 80:
 			goto st488
-		case 32:
+		case 112:
 			goto st488
 		}
-		goto st0
+		goto tr397
 	st488:
 		if p++; p == pe {
 			goto _test_eof488
 		}
-	st_case_488:
-		switch data[p] {
-		case 9:
-			goto st488
-		case 32:
-			goto st488
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr679
+	st_case_488:
+		switch data[p] {
+		case 76:
+			goto st489
+		case 108:
+			goto st489
 		}
-		goto st0
+		goto tr397
 	st489:
 		if p++; p == pe {
 			goto _test_eof489
 		}
 	st_case_489:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
-		case 82:
+		case 89:
 			goto st490
-		case 114:
+		case 121:
 			goto st490
 		}
-		goto tr417
+		goto tr397
 	st490:
 		if p++; p == pe {
 			goto _test_eof490
 		}
 	st_case_490:
-		switch data[p] {
-		case 79:
-			goto st491
-		case 111:
+		if data[p] == 45 {
 			goto st491
 		}
-		goto tr417
+		goto tr397
 	st491:
 		if p++; p == pe {
 			goto _test_eof491
 		}
 	st_case_491:
 		switch data[p] {
-		case 77:
+		case 84:
 			goto st492
-		case 109:
+		case 116:
 			goto st492
 		}
-		goto tr417
+		goto tr397
 	st492:
 		if p++; p == pe {
 			goto _test_eof492
 		}
 	st_case_492:
 		switch data[p] {
-		case 9:
-			goto tr684
-		case 32:
-			goto tr684
-		case 58:
-			goto tr685
+		case 79:
+			goto st493
+		case 111:
+			goto st493
 		}
-		goto tr417
+		goto tr397
 	st493:
 		if p++; p == pe {
 			goto _test_eof493
@@ -13474,531 +12917,532 @@ tr681:
 	st_case_493:
 		switch data[p] {
 		case 9:
-			goto st376
+			goto tr679
 		case 32:
-			goto st376
+			goto tr679
 		case 58:
-			goto st377
-		case 78:
-			goto st494
-		case 110:
-			goto st494
+			goto tr680
 		}
-		goto tr417
+		goto tr397
 	st494:
 		if p++; p == pe {
 			goto _test_eof494
 		}
 	st_case_494:
-		if data[p] == 45 {
-			goto st495
+		switch data[p] {
+		case 9:
+			goto tr681
+		case 32:
+			goto tr681
+		case 58:
+			goto tr682
 		}
-		goto tr417
+		goto tr397
 	st495:
 		if p++; p == pe {
 			goto _test_eof495
 		}
 	st_case_495:
 		switch data[p] {
-		case 82:
+		case 9:
+			goto tr553
+		case 32:
+			goto tr553
+		case 58:
+			goto tr554
+		case 65:
 			goto st496
-		case 114:
+		case 73:
+			goto st513
+		case 97:
 			goto st496
+		case 105:
+			goto st513
 		}
-		goto tr417
+		goto tr397
 	st496:
 		if p++; p == pe {
 			goto _test_eof496
 		}
 	st_case_496:
 		switch data[p] {
-		case 69:
+		case 88:
 			goto st497
-		case 101:
+		case 120:
 			goto st497
 		}
-		goto tr417
+		goto tr397
 	st497:
 		if p++; p == pe {
 			goto _test_eof497
 		}
 	st_case_497:
-		switch data[p] {
-		case 80:
-			goto st498
-		case 112:
+		if data[p] == 45 {
 			goto st498
 		}
-		goto tr417
+		goto tr397
 	st498:
 		if p++; p == pe {
 			goto _test_eof498
 		}
 	st_case_498:
 		switch data[p] {
-		case 76:
+		case 70:
 			goto st499
-		case 108:
+		case 102:
 			goto st499
 		}
-		goto tr417
+		goto tr397
 	st499:
 		if p++; p == pe {
 			goto _test_eof499
 		}
 	st_case_499:
 		switch data[p] {
-		case 89:
+		case 79:
 			goto st500
-		case 121:
+		case 111:
 			goto st500
 		}
-		goto tr417
+		goto tr397
 	st500:
 		if p++; p == pe {
 			goto _test_eof500
 		}
 	st_case_500:
-		if data[p] == 45 {
+		switch data[p] {
+		case 82:
+			goto st501
+		case 114:
 			goto st501
 		}
-		goto tr417
+		goto tr397
 	st501:
 		if p++; p == pe {
 			goto _test_eof501
 		}
 	st_case_501:
 		switch data[p] {
-		case 84:
+		case 87:
 			goto st502
-		case 116:
+		case 119:
 			goto st502
 		}
-		goto tr417
+		goto tr397
 	st502:
 		if p++; p == pe {
 			goto _test_eof502
 		}
 	st_case_502:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st503
-		case 111:
+		case 97:
 			goto st503
 		}
-		goto tr417
+		goto tr397
 	st503:
 		if p++; p == pe {
 			goto _test_eof503
 		}
 	st_case_503:
 		switch data[p] {
-		case 9:
-			goto tr699
-		case 32:
-			goto tr699
-		case 58:
-			goto tr700
+		case 82:
+			goto st504
+		case 114:
+			goto st504
 		}
-		goto tr417
+		goto tr397
 	st504:
 		if p++; p == pe {
 			goto _test_eof504
 		}
 	st_case_504:
 		switch data[p] {
-		case 9:
-			goto tr701
-		case 32:
-			goto tr701
-		case 58:
-			goto tr702
+		case 68:
+			goto st505
+		case 100:
+			goto st505
 		}
-		goto tr417
+		goto tr397
 	st505:
 		if p++; p == pe {
 			goto _test_eof505
 		}
 	st_case_505:
 		switch data[p] {
-		case 9:
-			goto tr573
-		case 32:
-			goto tr573
-		case 58:
-			goto tr574
-		case 65:
+		case 83:
 			goto st506
-		case 73:
-			goto st523
-		case 97:
+		case 115:
 			goto st506
-		case 105:
-			goto st523
 		}
-		goto tr417
+		goto tr397
 	st506:
 		if p++; p == pe {
 			goto _test_eof506
 		}
 	st_case_506:
 		switch data[p] {
-		case 88:
+		case 9:
 			goto st507
-		case 120:
+		case 32:
 			goto st507
+		case 58:
+			goto st508
 		}
-		goto tr417
+		goto tr397
 	st507:
 		if p++; p == pe {
 			goto _test_eof507
 		}
 	st_case_507:
-		if data[p] == 45 {
+		switch data[p] {
+		case 9:
+			goto st507
+		case 32:
+			goto st507
+		case 58:
 			goto st508
 		}
-		goto tr417
+		goto st0
 	st508:
 		if p++; p == pe {
 			goto _test_eof508
 		}
 	st_case_508:
-		switch data[p] {
-		case 70:
-			goto st509
-		case 102:
-			goto st509
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st508
+		case 32:
+			goto st508
+		case 525:
+			goto st510
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr697
 		}
-		goto tr417
+		goto st0
+tr697:
+//line sip.rl:508
+msg.MaxForwards=0
+//line sip.rl:253
+
+	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
+	if err != nil { return nil, err }
+
+	goto st509
+tr699:
+//line sip.rl:253
+
+	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
+	if err != nil { return nil, err }
+
+	goto st509
 	st509:
 		if p++; p == pe {
 			goto _test_eof509
 		}
 	st_case_509:
-		switch data[p] {
-		case 79:
-			goto st510
-		case 111:
-			goto st510
+//line msg_parse.go:13145
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
 		}
-		goto tr417
+		if _widec == 269 {
+			goto st371
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr699
+		}
+		goto st0
 	st510:
 		if p++; p == pe {
 			goto _test_eof510
 		}
 	st_case_510:
-		switch data[p] {
-		case 82:
-			goto st511
-		case 114:
+		if data[p] == 10 {
 			goto st511
 		}
-		goto tr417
+		goto st0
 	st511:
 		if p++; p == pe {
 			goto _test_eof511
 		}
 	st_case_511:
 		switch data[p] {
-		case 87:
+		case 9:
 			goto st512
-		case 119:
+		case 32:
 			goto st512
 		}
-		goto tr417
+		goto st0
 	st512:
 		if p++; p == pe {
 			goto _test_eof512
 		}
 	st_case_512:
 		switch data[p] {
-		case 65:
-			goto st513
-		case 97:
-			goto st513
+		case 9:
+			goto st512
+		case 32:
+			goto st512
+		}
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr697
 		}
-		goto tr417
+		goto st0
 	st513:
 		if p++; p == pe {
 			goto _test_eof513
 		}
 	st_case_513:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st514
-		case 114:
+		case 78:
+			goto st524
+		case 109:
 			goto st514
+		case 110:
+			goto st524
 		}
-		goto tr417
+		goto tr397
 	st514:
 		if p++; p == pe {
 			goto _test_eof514
 		}
 	st_case_514:
 		switch data[p] {
-		case 68:
+		case 69:
 			goto st515
-		case 100:
+		case 101:
 			goto st515
 		}
-		goto tr417
+		goto tr397
 	st515:
 		if p++; p == pe {
 			goto _test_eof515
 		}
 	st_case_515:
-		switch data[p] {
-		case 83:
-			goto st516
-		case 115:
+		if data[p] == 45 {
 			goto st516
 		}
-		goto tr417
+		goto tr397
 	st516:
 		if p++; p == pe {
 			goto _test_eof516
 		}
 	st_case_516:
 		switch data[p] {
-		case 9:
+		case 86:
 			goto st517
-		case 32:
+		case 118:
 			goto st517
-		case 58:
-			goto st518
 		}
-		goto tr417
+		goto tr397
 	st517:
 		if p++; p == pe {
 			goto _test_eof517
 		}
 	st_case_517:
 		switch data[p] {
-		case 9:
-			goto st517
-		case 32:
-			goto st517
-		case 58:
-			goto st518
-		}
-		goto st0
-	st518:
-		if p++; p == pe {
-			goto _test_eof518
-		}
-	st_case_518:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
+		case 69:
 			goto st518
-		case 32:
+		case 101:
 			goto st518
-		case 525:
-			goto st520
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr717
+		goto tr397
+	st518:
+		if p++; p == pe {
+			goto _test_eof518
+		}
+	st_case_518:
+		switch data[p] {
+		case 82:
+			goto st519
+		case 114:
+			goto st519
 		}
-		goto st0
-tr717:
-//line sip.rl:507
-msg.MaxForwards=0
-//line sip.rl:253
-
-	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
-	if err != nil { return nil, err }
-
-	goto st519
-tr719:
-//line sip.rl:253
-
-	msg.MaxForwards = shift(msg.MaxForwards, data[p], maxInt, &err)
-	if err != nil { return nil, err }
-
-	goto st519
+		goto tr397
 	st519:
 		if p++; p == pe {
 			goto _test_eof519
 		}
 	st_case_519:
-//line msg_parse.go:13822
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr719
+		switch data[p] {
+		case 83:
+			goto st520
+		case 115:
+			goto st520
 		}
-		goto st0
+		goto tr397
 	st520:
 		if p++; p == pe {
 			goto _test_eof520
 		}
 	st_case_520:
-		if data[p] == 10 {
+		switch data[p] {
+		case 73:
+			goto st521
+		case 105:
 			goto st521
 		}
-		goto st0
+		goto tr397
 	st521:
 		if p++; p == pe {
 			goto _test_eof521
 		}
 	st_case_521:
 		switch data[p] {
-		case 9:
+		case 79:
 			goto st522
-		case 32:
+		case 111:
 			goto st522
 		}
-		goto st0
+		goto tr397
 	st522:
 		if p++; p == pe {
 			goto _test_eof522
 		}
 	st_case_522:
 		switch data[p] {
-		case 9:
-			goto st522
-		case 32:
-			goto st522
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr717
+		case 78:
+			goto st523
+		case 110:
+			goto st523
 		}
-		goto st0
+		goto tr397
 	st523:
 		if p++; p == pe {
 			goto _test_eof523
 		}
 	st_case_523:
 		switch data[p] {
-		case 77:
-			goto st524
-		case 78:
-			goto st534
-		case 109:
-			goto st524
-		case 110:
-			goto st534
+		case 9:
+			goto tr713
+		case 32:
+			goto tr713
+		case 58:
+			goto tr714
 		}
-		goto tr417
+		goto tr397
 	st524:
 		if p++; p == pe {
 			goto _test_eof524
 		}
 	st_case_524:
-		switch data[p] {
-		case 69:
-			goto st525
-		case 101:
+		if data[p] == 45 {
 			goto st525
 		}
-		goto tr417
+		goto tr397
 	st525:
 		if p++; p == pe {
 			goto _test_eof525
 		}
 	st_case_525:
-		if data[p] == 45 {
+		switch data[p] {
+		case 69:
+			goto st526
+		case 101:
 			goto st526
 		}
-		goto tr417
+		goto tr397
 	st526:
 		if p++; p == pe {
 			goto _test_eof526
 		}
 	st_case_526:
 		switch data[p] {
-		case 86:
+		case 88:
 			goto st527
-		case 118:
+		case 120:
 			goto st527
 		}
-		goto tr417
+		goto tr397
 	st527:
 		if p++; p == pe {
 			goto _test_eof527
 		}
 	st_case_527:
 		switch data[p] {
-		case 69:
+		case 80:
 			goto st528
-		case 101:
+		case 112:
 			goto st528
 		}
-		goto tr417
+		goto tr397
 	st528:
 		if p++; p == pe {
 			goto _test_eof528
 		}
 	st_case_528:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st529
-		case 114:
+		case 105:
 			goto st529
 		}
-		goto tr417
+		goto tr397
 	st529:
 		if p++; p == pe {
 			goto _test_eof529
 		}
 	st_case_529:
 		switch data[p] {
-		case 83:
+		case 82:
 			goto st530
-		case 115:
+		case 114:
 			goto st530
 		}
-		goto tr417
+		goto tr397
 	st530:
 		if p++; p == pe {
 			goto _test_eof530
 		}
 	st_case_530:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st531
-		case 105:
+		case 101:
 			goto st531
 		}
-		goto tr417
+		goto tr397
 	st531:
 		if p++; p == pe {
 			goto _test_eof531
 		}
 	st_case_531:
 		switch data[p] {
-		case 79:
+		case 83:
 			goto st532
-		case 111:
+		case 115:
 			goto st532
 		}
-		goto tr417
+		goto tr397
 	st532:
 		if p++; p == pe {
 			goto _test_eof532
 		}
 	st_case_532:
 		switch data[p] {
-		case 78:
+		case 9:
 			goto st533
-		case 110:
+		case 32:
 			goto st533
+		case 58:
+			goto st534
 		}
-		goto tr417
+		goto tr397
 	st533:
 		if p++; p == pe {
 			goto _test_eof533
@@ -14006,456 +13450,452 @@ tr719:
 	st_case_533:
 		switch data[p] {
 		case 9:
-			goto tr733
+			goto st533
 		case 32:
-			goto tr733
+			goto st533
 		case 58:
-			goto tr734
+			goto st534
 		}
-		goto tr417
+		goto st0
 	st534:
 		if p++; p == pe {
 			goto _test_eof534
 		}
 	st_case_534:
-		if data[p] == 45 {
-			goto st535
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st534
+		case 32:
+			goto st534
+		case 525:
+			goto st536
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr725
 		}
-		goto tr417
+		goto st0
+tr725:
+//line sip.rl:509
+msg.MinExpires=0
+//line sip.rl:258
+
+	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
+
+	goto st535
+tr727:
+//line sip.rl:258
+
+	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
+	if err != nil { return nil, err }
+
+	goto st535
 	st535:
 		if p++; p == pe {
 			goto _test_eof535
 		}
 	st_case_535:
-		switch data[p] {
-		case 69:
-			goto st536
-		case 101:
-			goto st536
+//line msg_parse.go:13497
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		if _widec == 269 {
+			goto st371
+		}
+		if 48 <= _widec && _widec <= 57 {
+			goto tr727
 		}
-		goto tr417
+		goto st0
 	st536:
 		if p++; p == pe {
 			goto _test_eof536
 		}
 	st_case_536:
-		switch data[p] {
-		case 88:
-			goto st537
-		case 120:
+		if data[p] == 10 {
 			goto st537
 		}
-		goto tr417
+		goto st0
 	st537:
 		if p++; p == pe {
 			goto _test_eof537
 		}
 	st_case_537:
 		switch data[p] {
-		case 80:
+		case 9:
 			goto st538
-		case 112:
+		case 32:
 			goto st538
 		}
-		goto tr417
+		goto st0
 	st538:
 		if p++; p == pe {
 			goto _test_eof538
 		}
 	st_case_538:
 		switch data[p] {
-		case 73:
-			goto st539
-		case 105:
-			goto st539
+		case 9:
+			goto st538
+		case 32:
+			goto st538
 		}
-		goto tr417
+		if 48 <= data[p] && data[p] <= 57 {
+			goto tr725
+		}
+		goto st0
 	st539:
 		if p++; p == pe {
 			goto _test_eof539
 		}
 	st_case_539:
 		switch data[p] {
+		case 9:
+			goto tr650
+		case 32:
+			goto tr650
+		case 58:
+			goto tr651
 		case 82:
 			goto st540
 		case 114:
 			goto st540
 		}
-		goto tr417
+		goto tr397
 	st540:
 		if p++; p == pe {
 			goto _test_eof540
 		}
 	st_case_540:
 		switch data[p] {
-		case 69:
+		case 71:
 			goto st541
-		case 101:
+		case 103:
 			goto st541
 		}
-		goto tr417
+		goto tr397
 	st541:
 		if p++; p == pe {
 			goto _test_eof541
 		}
 	st_case_541:
 		switch data[p] {
-		case 83:
+		case 65:
 			goto st542
-		case 115:
+		case 97:
 			goto st542
 		}
-		goto tr417
+		goto tr397
 	st542:
 		if p++; p == pe {
 			goto _test_eof542
 		}
 	st_case_542:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st543
-		case 32:
+		case 110:
 			goto st543
-		case 58:
-			goto st544
 		}
-		goto tr417
+		goto tr397
 	st543:
 		if p++; p == pe {
 			goto _test_eof543
 		}
 	st_case_543:
 		switch data[p] {
-		case 9:
-			goto st543
-		case 32:
-			goto st543
-		case 58:
+		case 73:
+			goto st544
+		case 105:
 			goto st544
 		}
-		goto st0
+		goto tr397
 	st544:
 		if p++; p == pe {
 			goto _test_eof544
 		}
 	st_case_544:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st544
-		case 32:
-			goto st544
-		case 525:
-			goto st546
-		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr745
-		}
-		goto st0
-tr745:
-//line sip.rl:508
-msg.MinExpires=0
-//line sip.rl:258
-
-	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
-	if err != nil { return nil, err }
-
-	goto st545
-tr747:
-//line sip.rl:258
-
-	msg.MinExpires = shift(msg.MinExpires, data[p], maxInt, &err)
-	if err != nil { return nil, err }
-
-	goto st545
-	st545:
-		if p++; p == pe {
-			goto _test_eof545
-		}
-	st_case_545:
-//line msg_parse.go:14174
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		if _widec == 269 {
-			goto st381
+		switch data[p] {
+		case 90:
+			goto st545
+		case 122:
+			goto st545
 		}
-		if 48 <= _widec && _widec <= 57 {
-			goto tr747
+		goto tr397
+	st545:
+		if p++; p == pe {
+			goto _test_eof545
 		}
-		goto st0
+	st_case_545:
+		switch data[p] {
+		case 65:
+			goto st546
+		case 97:
+			goto st546
+		}
+		goto tr397
 	st546:
 		if p++; p == pe {
 			goto _test_eof546
 		}
 	st_case_546:
-		if data[p] == 10 {
+		switch data[p] {
+		case 84:
+			goto st547
+		case 116:
 			goto st547
 		}
-		goto st0
+		goto tr397
 	st547:
 		if p++; p == pe {
 			goto _test_eof547
 		}
 	st_case_547:
 		switch data[p] {
-		case 9:
+		case 73:
 			goto st548
-		case 32:
+		case 105:
 			goto st548
 		}
-		goto st0
+		goto tr397
 	st548:
 		if p++; p == pe {
 			goto _test_eof548
 		}
 	st_case_548:
 		switch data[p] {
-		case 9:
-			goto st548
-		case 32:
-			goto st548
-		}
-		if 48 <= data[p] && data[p] <= 57 {
-			goto tr745
+		case 79:
+			goto st549
+		case 111:
+			goto st549
 		}
-		goto st0
+		goto tr397
 	st549:
 		if p++; p == pe {
 			goto _test_eof549
 		}
 	st_case_549:
 		switch data[p] {
-		case 9:
-			goto tr670
-		case 32:
-			goto tr670
-		case 58:
-			goto tr671
-		case 82:
+		case 78:
 			goto st550
-		case 114:
+		case 110:
 			goto st550
 		}
-		goto tr417
+		goto tr397
 	st550:
 		if p++; p == pe {
 			goto _test_eof550
 		}
 	st_case_550:
 		switch data[p] {
-		case 71:
-			goto st551
-		case 103:
-			goto st551
+		case 9:
+			goto tr741
+		case 32:
+			goto tr741
+		case 58:
+			goto tr742
 		}
-		goto tr417
+		goto tr397
 	st551:
 		if p++; p == pe {
 			goto _test_eof551
 		}
 	st_case_551:
 		switch data[p] {
-		case 65:
-			goto st552
-		case 97:
+		case 45:
 			goto st552
+		case 82:
+			goto st570
+		case 114:
+			goto st570
 		}
-		goto tr417
+		goto tr397
 	st552:
 		if p++; p == pe {
 			goto _test_eof552
 		}
 	st_case_552:
 		switch data[p] {
-		case 78:
+		case 65:
 			goto st553
-		case 110:
+		case 97:
 			goto st553
 		}
-		goto tr417
+		goto tr397
 	st553:
 		if p++; p == pe {
 			goto _test_eof553
 		}
 	st_case_553:
 		switch data[p] {
-		case 73:
+		case 83:
 			goto st554
-		case 105:
+		case 115:
 			goto st554
 		}
-		goto tr417
+		goto tr397
 	st554:
 		if p++; p == pe {
 			goto _test_eof554
 		}
 	st_case_554:
 		switch data[p] {
-		case 90:
+		case 83:
 			goto st555
-		case 122:
+		case 115:
 			goto st555
 		}
-		goto tr417
+		goto tr397
 	st555:
 		if p++; p == pe {
 			goto _test_eof555
 		}
 	st_case_555:
 		switch data[p] {
-		case 65:
+		case 69:
 			goto st556
-		case 97:
+		case 101:
 			goto st556
 		}
-		goto tr417
+		goto tr397
 	st556:
 		if p++; p == pe {
 			goto _test_eof556
 		}
 	st_case_556:
 		switch data[p] {
-		case 84:
+		case 82:
 			goto st557
-		case 116:
+		case 114:
 			goto st557
 		}
-		goto tr417
+		goto tr397
 	st557:
 		if p++; p == pe {
 			goto _test_eof557
 		}
 	st_case_557:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st558
-		case 105:
+		case 116:
 			goto st558
 		}
-		goto tr417
+		goto tr397
 	st558:
 		if p++; p == pe {
 			goto _test_eof558
 		}
 	st_case_558:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st559
-		case 111:
+		case 101:
 			goto st559
 		}
-		goto tr417
+		goto tr397
 	st559:
 		if p++; p == pe {
 			goto _test_eof559
 		}
 	st_case_559:
 		switch data[p] {
-		case 78:
+		case 68:
 			goto st560
-		case 110:
+		case 100:
 			goto st560
 		}
-		goto tr417
+		goto tr397
 	st560:
 		if p++; p == pe {
 			goto _test_eof560
 		}
 	st_case_560:
-		switch data[p] {
-		case 9:
-			goto tr761
-		case 32:
-			goto tr761
-		case 58:
-			goto tr762
+		if data[p] == 45 {
+			goto st561
 		}
-		goto tr417
+		goto tr397
 	st561:
 		if p++; p == pe {
 			goto _test_eof561
 		}
 	st_case_561:
 		switch data[p] {
-		case 45:
+		case 73:
+			goto st562
+		case 105:
 			goto st562
-		case 82:
-			goto st580
-		case 114:
-			goto st580
 		}
-		goto tr417
+		goto tr397
 	st562:
 		if p++; p == pe {
 			goto _test_eof562
 		}
 	st_case_562:
 		switch data[p] {
-		case 65:
+		case 68:
 			goto st563
-		case 97:
+		case 100:
 			goto st563
 		}
-		goto tr417
+		goto tr397
 	st563:
 		if p++; p == pe {
 			goto _test_eof563
 		}
 	st_case_563:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st564
-		case 115:
+		case 101:
 			goto st564
 		}
-		goto tr417
+		goto tr397
 	st564:
 		if p++; p == pe {
 			goto _test_eof564
 		}
 	st_case_564:
 		switch data[p] {
-		case 83:
+		case 78:
 			goto st565
-		case 115:
+		case 110:
 			goto st565
 		}
-		goto tr417
+		goto tr397
 	st565:
 		if p++; p == pe {
 			goto _test_eof565
 		}
 	st_case_565:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st566
-		case 101:
+		case 116:
 			goto st566
 		}
-		goto tr417
+		goto tr397
 	st566:
 		if p++; p == pe {
 			goto _test_eof566
 		}
 	st_case_566:
 		switch data[p] {
-		case 82:
+		case 73:
 			goto st567
-		case 114:
+		case 105:
 			goto st567
 		}
-		goto tr417
+		goto tr397
 	st567:
 		if p++; p == pe {
 			goto _test_eof567
@@ -14467,124 +13907,135 @@ tr747:
 		case 116:
 			goto st568
 		}
-		goto tr417
+		goto tr397
 	st568:
 		if p++; p == pe {
 			goto _test_eof568
 		}
 	st_case_568:
 		switch data[p] {
-		case 69:
+		case 89:
 			goto st569
-		case 101:
+		case 121:
 			goto st569
 		}
-		goto tr417
+		goto tr397
 	st569:
 		if p++; p == pe {
 			goto _test_eof569
 		}
 	st_case_569:
 		switch data[p] {
-		case 68:
-			goto st570
-		case 100:
-			goto st570
+		case 9:
+			goto tr762
+		case 32:
+			goto tr762
+		case 58:
+			goto tr763
 		}
-		goto tr417
+		goto tr397
 	st570:
 		if p++; p == pe {
 			goto _test_eof570
 		}
 	st_case_570:
-		if data[p] == 45 {
+		switch data[p] {
+		case 73:
+			goto st571
+		case 79:
+			goto st577
+		case 105:
 			goto st571
+		case 111:
+			goto st577
 		}
-		goto tr417
+		goto tr397
 	st571:
 		if p++; p == pe {
 			goto _test_eof571
 		}
 	st_case_571:
 		switch data[p] {
-		case 73:
+		case 79:
 			goto st572
-		case 105:
+		case 111:
 			goto st572
 		}
-		goto tr417
+		goto tr397
 	st572:
 		if p++; p == pe {
 			goto _test_eof572
 		}
 	st_case_572:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st573
-		case 100:
+		case 114:
 			goto st573
 		}
-		goto tr417
+		goto tr397
 	st573:
 		if p++; p == pe {
 			goto _test_eof573
 		}
 	st_case_573:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st574
-		case 101:
+		case 105:
 			goto st574
 		}
-		goto tr417
+		goto tr397
 	st574:
 		if p++; p == pe {
 			goto _test_eof574
 		}
 	st_case_574:
 		switch data[p] {
-		case 78:
+		case 84:
 			goto st575
-		case 110:
+		case 116:
 			goto st575
 		}
-		goto tr417
+		goto tr397
 	st575:
 		if p++; p == pe {
 			goto _test_eof575
 		}
 	st_case_575:
 		switch data[p] {
-		case 84:
+		case 89:
 			goto st576
-		case 116:
+		case 121:
 			goto st576
 		}
-		goto tr417
+		goto tr397
 	st576:
 		if p++; p == pe {
 			goto _test_eof576
 		}
 	st_case_576:
 		switch data[p] {
-		case 73:
-			goto st577
-		case 105:
-			goto st577
+		case 9:
+			goto tr771
+		case 32:
+			goto tr771
+		case 58:
+			goto tr772
 		}
-		goto tr417
+		goto tr397
 	st577:
 		if p++; p == pe {
 			goto _test_eof577
 		}
 	st_case_577:
 		switch data[p] {
-		case 84:
+		case 88:
 			goto st578
-		case 116:
+		case 120:
 			goto st578
 		}
-		goto tr417
+		goto tr397
 	st578:
 		if p++; p == pe {
 			goto _test_eof578
@@ -14596,572 +14047,563 @@ tr747:
 		case 121:
 			goto st579
 		}
-		goto tr417
+		goto tr397
 	st579:
 		if p++; p == pe {
 			goto _test_eof579
 		}
 	st_case_579:
-		switch data[p] {
-		case 9:
-			goto tr782
-		case 32:
-			goto tr782
-		case 58:
-			goto tr783
+		if data[p] == 45 {
+			goto st580
 		}
-		goto tr417
+		goto tr397
 	st580:
 		if p++; p == pe {
 			goto _test_eof580
 		}
 	st_case_580:
 		switch data[p] {
-		case 73:
+		case 65:
 			goto st581
-		case 79:
-			goto st587
-		case 105:
+		case 82:
+			goto st602
+		case 97:
 			goto st581
-		case 111:
-			goto st587
+		case 114:
+			goto st602
 		}
-		goto tr417
+		goto tr397
 	st581:
 		if p++; p == pe {
 			goto _test_eof581
 		}
 	st_case_581:
 		switch data[p] {
-		case 79:
+		case 85:
 			goto st582
-		case 111:
+		case 117:
 			goto st582
 		}
-		goto tr417
+		goto tr397
 	st582:
 		if p++; p == pe {
 			goto _test_eof582
 		}
 	st_case_582:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st583
-		case 114:
+		case 116:
 			goto st583
 		}
-		goto tr417
+		goto tr397
 	st583:
 		if p++; p == pe {
 			goto _test_eof583
 		}
 	st_case_583:
 		switch data[p] {
-		case 73:
+		case 72:
 			goto st584
-		case 105:
+		case 104:
 			goto st584
 		}
-		goto tr417
+		goto tr397
 	st584:
 		if p++; p == pe {
 			goto _test_eof584
 		}
 	st_case_584:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st585
-		case 116:
+		case 79:
+			goto st593
+		case 101:
 			goto st585
+		case 111:
+			goto st593
 		}
-		goto tr417
+		goto tr397
 	st585:
 		if p++; p == pe {
 			goto _test_eof585
 		}
 	st_case_585:
 		switch data[p] {
-		case 89:
+		case 78:
 			goto st586
-		case 121:
+		case 110:
 			goto st586
 		}
-		goto tr417
+		goto tr397
 	st586:
 		if p++; p == pe {
 			goto _test_eof586
 		}
 	st_case_586:
 		switch data[p] {
-		case 9:
-			goto tr791
-		case 32:
-			goto tr791
-		case 58:
-			goto tr792
+		case 84:
+			goto st587
+		case 116:
+			goto st587
 		}
-		goto tr417
+		goto tr397
 	st587:
 		if p++; p == pe {
 			goto _test_eof587
 		}
 	st_case_587:
 		switch data[p] {
-		case 88:
+		case 73:
 			goto st588
-		case 120:
+		case 105:
 			goto st588
 		}
-		goto tr417
+		goto tr397
 	st588:
 		if p++; p == pe {
 			goto _test_eof588
 		}
 	st_case_588:
 		switch data[p] {
-		case 89:
+		case 67:
 			goto st589
-		case 121:
+		case 99:
 			goto st589
 		}
-		goto tr417
+		goto tr397
 	st589:
 		if p++; p == pe {
 			goto _test_eof589
 		}
 	st_case_589:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st590
+		case 97:
 			goto st590
 		}
-		goto tr417
+		goto tr397
 	st590:
 		if p++; p == pe {
 			goto _test_eof590
 		}
 	st_case_590:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st591
-		case 82:
-			goto st612
-		case 97:
+		case 116:
 			goto st591
-		case 114:
-			goto st612
 		}
-		goto tr417
+		goto tr397
 	st591:
 		if p++; p == pe {
 			goto _test_eof591
 		}
 	st_case_591:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st592
-		case 117:
+		case 101:
 			goto st592
 		}
-		goto tr417
+		goto tr397
 	st592:
 		if p++; p == pe {
 			goto _test_eof592
 		}
 	st_case_592:
 		switch data[p] {
-		case 84:
-			goto st593
-		case 116:
-			goto st593
+		case 9:
+			goto tr790
+		case 32:
+			goto tr790
+		case 58:
+			goto tr791
 		}
-		goto tr417
+		goto tr397
 	st593:
 		if p++; p == pe {
 			goto _test_eof593
 		}
 	st_case_593:
 		switch data[p] {
-		case 72:
+		case 82:
 			goto st594
-		case 104:
+		case 114:
 			goto st594
 		}
-		goto tr417
+		goto tr397
 	st594:
 		if p++; p == pe {
 			goto _test_eof594
 		}
 	st_case_594:
 		switch data[p] {
-		case 69:
+		case 73:
 			goto st595
-		case 79:
-			goto st603
-		case 101:
+		case 105:
 			goto st595
-		case 111:
-			goto st603
 		}
-		goto tr417
+		goto tr397
 	st595:
 		if p++; p == pe {
 			goto _test_eof595
 		}
 	st_case_595:
 		switch data[p] {
-		case 78:
+		case 90:
 			goto st596
-		case 110:
+		case 122:
 			goto st596
 		}
-		goto tr417
+		goto tr397
 	st596:
 		if p++; p == pe {
 			goto _test_eof596
 		}
 	st_case_596:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st597
-		case 116:
+		case 97:
 			goto st597
 		}
-		goto tr417
+		goto tr397
 	st597:
 		if p++; p == pe {
 			goto _test_eof597
 		}
 	st_case_597:
 		switch data[p] {
-		case 73:
+		case 84:
 			goto st598
-		case 105:
+		case 116:
 			goto st598
 		}
-		goto tr417
+		goto tr397
 	st598:
 		if p++; p == pe {
 			goto _test_eof598
 		}
 	st_case_598:
 		switch data[p] {
-		case 67:
+		case 73:
 			goto st599
-		case 99:
+		case 105:
 			goto st599
 		}
-		goto tr417
+		goto tr397
 	st599:
 		if p++; p == pe {
 			goto _test_eof599
 		}
 	st_case_599:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st600
-		case 97:
+		case 111:
 			goto st600
 		}
-		goto tr417
+		goto tr397
 	st600:
 		if p++; p == pe {
 			goto _test_eof600
 		}
 	st_case_600:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st601
-		case 116:
+		case 110:
 			goto st601
 		}
-		goto tr417
+		goto tr397
 	st601:
 		if p++; p == pe {
 			goto _test_eof601
 		}
 	st_case_601:
 		switch data[p] {
-		case 69:
-			goto st602
-		case 101:
-			goto st602
+		case 9:
+			goto tr800
+		case 32:
+			goto tr800
+		case 58:
+			goto tr801
 		}
-		goto tr417
+		goto tr397
 	st602:
 		if p++; p == pe {
 			goto _test_eof602
 		}
 	st_case_602:
 		switch data[p] {
-		case 9:
-			goto tr810
-		case 32:
-			goto tr810
-		case 58:
-			goto tr811
+		case 69:
+			goto st603
+		case 101:
+			goto st603
 		}
-		goto tr417
+		goto tr397
 	st603:
 		if p++; p == pe {
 			goto _test_eof603
 		}
 	st_case_603:
 		switch data[p] {
-		case 82:
+		case 81:
 			goto st604
-		case 114:
+		case 113:
 			goto st604
 		}
-		goto tr417
+		goto tr397
 	st604:
 		if p++; p == pe {
 			goto _test_eof604
 		}
 	st_case_604:
 		switch data[p] {
-		case 73:
+		case 85:
 			goto st605
-		case 105:
+		case 117:
 			goto st605
 		}
-		goto tr417
+		goto tr397
 	st605:
 		if p++; p == pe {
 			goto _test_eof605
 		}
 	st_case_605:
 		switch data[p] {
-		case 90:
+		case 73:
 			goto st606
-		case 122:
+		case 105:
 			goto st606
 		}
-		goto tr417
+		goto tr397
 	st606:
 		if p++; p == pe {
 			goto _test_eof606
 		}
 	st_case_606:
 		switch data[p] {
-		case 65:
+		case 82:
 			goto st607
-		case 97:
+		case 114:
 			goto st607
 		}
-		goto tr417
+		goto tr397
 	st607:
 		if p++; p == pe {
 			goto _test_eof607
 		}
 	st_case_607:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st608
-		case 116:
+		case 101:
 			goto st608
 		}
-		goto tr417
+		goto tr397
 	st608:
 		if p++; p == pe {
 			goto _test_eof608
 		}
 	st_case_608:
 		switch data[p] {
-		case 73:
-			goto st609
-		case 105:
-			goto st609
+		case 9:
+			goto tr808
+		case 32:
+			goto tr808
+		case 58:
+			goto tr809
 		}
-		goto tr417
+		goto tr397
 	st609:
 		if p++; p == pe {
 			goto _test_eof609
 		}
 	st_case_609:
 		switch data[p] {
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
+		case 69:
+			goto st610
 		case 79:
+			goto st665
+		case 101:
 			goto st610
 		case 111:
-			goto st610
+			goto st665
 		}
-		goto tr417
+		goto tr397
 	st610:
 		if p++; p == pe {
 			goto _test_eof610
 		}
 	st_case_610:
 		switch data[p] {
-		case 78:
+		case 67:
 			goto st611
-		case 110:
+		case 70:
+			goto st621
+		case 77:
+			goto st632
+		case 80:
+			goto st645
+		case 81:
+			goto st651
+		case 84:
+			goto st656
+		case 99:
 			goto st611
+		case 102:
+			goto st621
+		case 109:
+			goto st632
+		case 112:
+			goto st645
+		case 113:
+			goto st651
+		case 116:
+			goto st656
 		}
-		goto tr417
+		goto tr397
 	st611:
 		if p++; p == pe {
 			goto _test_eof611
 		}
 	st_case_611:
 		switch data[p] {
-		case 9:
-			goto tr820
-		case 32:
-			goto tr820
-		case 58:
-			goto tr821
+		case 79:
+			goto st612
+		case 111:
+			goto st612
 		}
-		goto tr417
+		goto tr397
 	st612:
 		if p++; p == pe {
 			goto _test_eof612
 		}
 	st_case_612:
 		switch data[p] {
-		case 69:
+		case 82:
 			goto st613
-		case 101:
+		case 114:
 			goto st613
 		}
-		goto tr417
+		goto tr397
 	st613:
 		if p++; p == pe {
 			goto _test_eof613
 		}
 	st_case_613:
 		switch data[p] {
-		case 81:
+		case 68:
 			goto st614
-		case 113:
+		case 100:
 			goto st614
 		}
-		goto tr417
+		goto tr397
 	st614:
 		if p++; p == pe {
 			goto _test_eof614
 		}
 	st_case_614:
-		switch data[p] {
-		case 85:
-			goto st615
-		case 117:
+		if data[p] == 45 {
 			goto st615
 		}
-		goto tr417
+		goto tr397
 	st615:
 		if p++; p == pe {
 			goto _test_eof615
 		}
 	st_case_615:
 		switch data[p] {
-		case 73:
+		case 82:
 			goto st616
-		case 105:
+		case 114:
 			goto st616
 		}
-		goto tr417
+		goto tr397
 	st616:
 		if p++; p == pe {
 			goto _test_eof616
 		}
 	st_case_616:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st617
-		case 114:
+		case 111:
 			goto st617
 		}
-		goto tr417
+		goto tr397
 	st617:
 		if p++; p == pe {
 			goto _test_eof617
 		}
 	st_case_617:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st618
-		case 101:
+		case 117:
 			goto st618
 		}
-		goto tr417
+		goto tr397
 	st618:
 		if p++; p == pe {
 			goto _test_eof618
 		}
 	st_case_618:
 		switch data[p] {
-		case 9:
-			goto tr828
-		case 32:
-			goto tr828
-		case 58:
-			goto tr829
+		case 84:
+			goto st619
+		case 116:
+			goto st619
 		}
-		goto tr417
+		goto tr397
 	st619:
 		if p++; p == pe {
 			goto _test_eof619
 		}
 	st_case_619:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
 		case 69:
 			goto st620
-		case 79:
-			goto st675
 		case 101:
 			goto st620
-		case 111:
-			goto st675
 		}
-		goto tr417
+		goto tr397
 	st620:
 		if p++; p == pe {
 			goto _test_eof620
 		}
 	st_case_620:
 		switch data[p] {
-		case 67:
-			goto st621
-		case 70:
-			goto st631
-		case 77:
-			goto st642
-		case 80:
-			goto st655
-		case 81:
-			goto st661
-		case 84:
-			goto st666
-		case 99:
-			goto st621
-		case 102:
-			goto st631
-		case 109:
-			goto st642
-		case 112:
-			goto st655
-		case 113:
-			goto st661
-		case 116:
-			goto st666
+		case 9:
+			goto tr829
+		case 32:
+			goto tr829
+		case 58:
+			goto tr830
 		}
-		goto tr417
+		goto tr397
 	st621:
 		if p++; p == pe {
 			goto _test_eof621
 		}
 	st_case_621:
 		switch data[p] {
-		case 79:
+		case 69:
 			goto st622
-		case 111:
+		case 101:
 			goto st622
 		}
-		goto tr417
+		goto tr397
 	st622:
 		if p++; p == pe {
 			goto _test_eof622
@@ -15173,349 +14615,351 @@ tr747:
 		case 114:
 			goto st623
 		}
-		goto tr417
+		goto tr397
 	st623:
 		if p++; p == pe {
 			goto _test_eof623
 		}
 	st_case_623:
 		switch data[p] {
-		case 68:
-			goto st624
-		case 100:
+		case 45:
 			goto st624
+		case 82:
+			goto st627
+		case 114:
+			goto st627
 		}
-		goto tr417
+		goto tr397
 	st624:
 		if p++; p == pe {
 			goto _test_eof624
 		}
 	st_case_624:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st625
+		case 116:
 			goto st625
 		}
-		goto tr417
+		goto tr397
 	st625:
 		if p++; p == pe {
 			goto _test_eof625
 		}
 	st_case_625:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st626
-		case 114:
+		case 111:
 			goto st626
 		}
-		goto tr417
+		goto tr397
 	st626:
 		if p++; p == pe {
 			goto _test_eof626
 		}
 	st_case_626:
 		switch data[p] {
-		case 79:
-			goto st627
-		case 111:
-			goto st627
+		case 9:
+			goto tr810
+		case 32:
+			goto tr810
+		case 58:
+			goto tr811
 		}
-		goto tr417
+		goto tr397
 	st627:
 		if p++; p == pe {
 			goto _test_eof627
 		}
 	st_case_627:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st628
-		case 117:
+		case 101:
 			goto st628
 		}
-		goto tr417
+		goto tr397
 	st628:
 		if p++; p == pe {
 			goto _test_eof628
 		}
 	st_case_628:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st629
-		case 116:
+		case 100:
 			goto st629
 		}
-		goto tr417
+		goto tr397
 	st629:
 		if p++; p == pe {
 			goto _test_eof629
 		}
 	st_case_629:
-		switch data[p] {
-		case 69:
-			goto st630
-		case 101:
+		if data[p] == 45 {
 			goto st630
 		}
-		goto tr417
+		goto tr397
 	st630:
 		if p++; p == pe {
 			goto _test_eof630
 		}
 	st_case_630:
 		switch data[p] {
-		case 9:
-			goto tr849
-		case 32:
-			goto tr849
-		case 58:
-			goto tr850
+		case 66:
+			goto st631
+		case 98:
+			goto st631
 		}
-		goto tr417
+		goto tr397
 	st631:
 		if p++; p == pe {
 			goto _test_eof631
 		}
-	st_case_631:
-		switch data[p] {
-		case 69:
-			goto st632
-		case 101:
-			goto st632
+	st_case_631:
+		switch data[p] {
+		case 89:
+			goto st353
+		case 121:
+			goto st353
 		}
-		goto tr417
+		goto tr397
 	st632:
 		if p++; p == pe {
 			goto _test_eof632
 		}
 	st_case_632:
 		switch data[p] {
-		case 82:
+		case 79:
 			goto st633
-		case 114:
+		case 111:
 			goto st633
 		}
-		goto tr417
+		goto tr397
 	st633:
 		if p++; p == pe {
 			goto _test_eof633
 		}
 	st_case_633:
 		switch data[p] {
-		case 45:
+		case 84:
+			goto st634
+		case 116:
 			goto st634
-		case 82:
-			goto st637
-		case 114:
-			goto st637
 		}
-		goto tr417
+		goto tr397
 	st634:
 		if p++; p == pe {
 			goto _test_eof634
 		}
 	st_case_634:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st635
-		case 116:
+		case 101:
 			goto st635
 		}
-		goto tr417
+		goto tr397
 	st635:
 		if p++; p == pe {
 			goto _test_eof635
 		}
 	st_case_635:
-		switch data[p] {
-		case 79:
-			goto st636
-		case 111:
+		if data[p] == 45 {
 			goto st636
 		}
-		goto tr417
+		goto tr397
 	st636:
 		if p++; p == pe {
 			goto _test_eof636
 		}
 	st_case_636:
 		switch data[p] {
-		case 9:
-			goto tr830
-		case 32:
-			goto tr830
-		case 58:
-			goto tr831
+		case 80:
+			goto st637
+		case 112:
+			goto st637
 		}
-		goto tr417
+		goto tr397
 	st637:
 		if p++; p == pe {
 			goto _test_eof637
 		}
 	st_case_637:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st638
-		case 101:
+		case 97:
 			goto st638
 		}
-		goto tr417
+		goto tr397
 	st638:
 		if p++; p == pe {
 			goto _test_eof638
 		}
 	st_case_638:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st639
-		case 100:
+		case 114:
 			goto st639
 		}
-		goto tr417
+		goto tr397
 	st639:
 		if p++; p == pe {
 			goto _test_eof639
 		}
 	st_case_639:
-		if data[p] == 45 {
+		switch data[p] {
+		case 84:
+			goto st640
+		case 116:
 			goto st640
 		}
-		goto tr417
+		goto tr397
 	st640:
 		if p++; p == pe {
 			goto _test_eof640
 		}
 	st_case_640:
 		switch data[p] {
-		case 66:
+		case 89:
 			goto st641
-		case 98:
+		case 121:
 			goto st641
 		}
-		goto tr417
+		goto tr397
 	st641:
 		if p++; p == pe {
 			goto _test_eof641
 		}
 	st_case_641:
-		switch data[p] {
-		case 89:
-			goto st363
-		case 121:
-			goto st363
+		if data[p] == 45 {
+			goto st642
 		}
-		goto tr417
+		goto tr397
 	st642:
 		if p++; p == pe {
 			goto _test_eof642
 		}
 	st_case_642:
 		switch data[p] {
-		case 79:
+		case 73:
 			goto st643
-		case 111:
+		case 105:
 			goto st643
 		}
-		goto tr417
+		goto tr397
 	st643:
 		if p++; p == pe {
 			goto _test_eof643
 		}
 	st_case_643:
 		switch data[p] {
-		case 84:
+		case 68:
 			goto st644
-		case 116:
+		case 100:
 			goto st644
 		}
-		goto tr417
+		goto tr397
 	st644:
 		if p++; p == pe {
 			goto _test_eof644
 		}
 	st_case_644:
 		switch data[p] {
-		case 69:
-			goto st645
-		case 101:
-			goto st645
+		case 9:
+			goto tr853
+		case 32:
+			goto tr853
+		case 58:
+			goto tr854
 		}
-		goto tr417
+		goto tr397
 	st645:
 		if p++; p == pe {
 			goto _test_eof645
 		}
 	st_case_645:
-		if data[p] == 45 {
+		switch data[p] {
+		case 76:
+			goto st646
+		case 108:
 			goto st646
 		}
-		goto tr417
+		goto tr397
 	st646:
 		if p++; p == pe {
 			goto _test_eof646
 		}
 	st_case_646:
 		switch data[p] {
-		case 80:
+		case 89:
 			goto st647
-		case 112:
+		case 121:
 			goto st647
 		}
-		goto tr417
+		goto tr397
 	st647:
 		if p++; p == pe {
 			goto _test_eof647
 		}
 	st_case_647:
-		switch data[p] {
-		case 65:
-			goto st648
-		case 97:
+		if data[p] == 45 {
 			goto st648
 		}
-		goto tr417
+		goto tr397
 	st648:
 		if p++; p == pe {
 			goto _test_eof648
 		}
 	st_case_648:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st649
-		case 114:
+		case 116:
 			goto st649
 		}
-		goto tr417
+		goto tr397
 	st649:
 		if p++; p == pe {
 			goto _test_eof649
 		}
 	st_case_649:
 		switch data[p] {
-		case 84:
+		case 79:
 			goto st650
-		case 116:
+		case 111:
 			goto st650
 		}
-		goto tr417
+		goto tr397
 	st650:
 		if p++; p == pe {
 			goto _test_eof650
 		}
 	st_case_650:
 		switch data[p] {
-		case 89:
-			goto st651
-		case 121:
-			goto st651
+		case 9:
+			goto tr860
+		case 32:
+			goto tr860
+		case 58:
+			goto tr861
 		}
-		goto tr417
+		goto tr397
 	st651:
 		if p++; p == pe {
 			goto _test_eof651
 		}
 	st_case_651:
-		if data[p] == 45 {
+		switch data[p] {
+		case 85:
+			goto st652
+		case 117:
 			goto st652
 		}
-		goto tr417
+		goto tr397
 	st652:
 		if p++; p == pe {
 			goto _test_eof652
@@ -15527,128 +14971,126 @@ tr747:
 		case 105:
 			goto st653
 		}
-		goto tr417
+		goto tr397
 	st653:
 		if p++; p == pe {
 			goto _test_eof653
 		}
 	st_case_653:
 		switch data[p] {
-		case 68:
+		case 82:
 			goto st654
-		case 100:
+		case 114:
 			goto st654
 		}
-		goto tr417
+		goto tr397
 	st654:
 		if p++; p == pe {
 			goto _test_eof654
 		}
 	st_case_654:
 		switch data[p] {
-		case 9:
-			goto tr873
-		case 32:
-			goto tr873
-		case 58:
-			goto tr874
+		case 69:
+			goto st655
+		case 101:
+			goto st655
 		}
-		goto tr417
+		goto tr397
 	st655:
 		if p++; p == pe {
 			goto _test_eof655
 		}
 	st_case_655:
 		switch data[p] {
-		case 76:
-			goto st656
-		case 108:
-			goto st656
+		case 9:
+			goto tr866
+		case 32:
+			goto tr866
+		case 58:
+			goto tr867
 		}
-		goto tr417
+		goto tr397
 	st656:
 		if p++; p == pe {
 			goto _test_eof656
 		}
 	st_case_656:
 		switch data[p] {
-		case 89:
+		case 82:
 			goto st657
-		case 121:
+		case 114:
 			goto st657
 		}
-		goto tr417
+		goto tr397
 	st657:
 		if p++; p == pe {
 			goto _test_eof657
 		}
 	st_case_657:
-		if data[p] == 45 {
+		switch data[p] {
+		case 89:
+			goto st658
+		case 121:
 			goto st658
 		}
-		goto tr417
+		goto tr397
 	st658:
 		if p++; p == pe {
 			goto _test_eof658
 		}
 	st_case_658:
-		switch data[p] {
-		case 84:
-			goto st659
-		case 116:
+		if data[p] == 45 {
 			goto st659
 		}
-		goto tr417
+		goto tr397
 	st659:
 		if p++; p == pe {
 			goto _test_eof659
 		}
 	st_case_659:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st660
-		case 111:
+		case 97:
 			goto st660
 		}
-		goto tr417
+		goto tr397
 	st660:
 		if p++; p == pe {
 			goto _test_eof660
 		}
 	st_case_660:
 		switch data[p] {
-		case 9:
-			goto tr880
-		case 32:
-			goto tr880
-		case 58:
-			goto tr881
+		case 70:
+			goto st661
+		case 102:
+			goto st661
 		}
-		goto tr417
+		goto tr397
 	st661:
 		if p++; p == pe {
 			goto _test_eof661
 		}
 	st_case_661:
 		switch data[p] {
-		case 85:
+		case 84:
 			goto st662
-		case 117:
+		case 116:
 			goto st662
 		}
-		goto tr417
+		goto tr397
 	st662:
 		if p++; p == pe {
 			goto _test_eof662
 		}
 	st_case_662:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st663
-		case 105:
+		case 101:
 			goto st663
 		}
-		goto tr417
+		goto tr397
 	st663:
 		if p++; p == pe {
 			goto _test_eof663
@@ -15660,102 +15102,117 @@ tr747:
 		case 114:
 			goto st664
 		}
-		goto tr417
+		goto tr397
 	st664:
 		if p++; p == pe {
 			goto _test_eof664
 		}
 	st_case_664:
 		switch data[p] {
-		case 69:
-			goto st665
-		case 101:
-			goto st665
+		case 9:
+			goto tr876
+		case 32:
+			goto tr876
+		case 58:
+			goto tr877
 		}
-		goto tr417
+		goto tr397
 	st665:
 		if p++; p == pe {
 			goto _test_eof665
 		}
 	st_case_665:
 		switch data[p] {
-		case 9:
-			goto tr886
-		case 32:
-			goto tr886
-		case 58:
-			goto tr887
+		case 85:
+			goto st666
+		case 117:
+			goto st666
 		}
-		goto tr417
+		goto tr397
 	st666:
 		if p++; p == pe {
 			goto _test_eof666
 		}
 	st_case_666:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st667
-		case 114:
+		case 116:
 			goto st667
 		}
-		goto tr417
+		goto tr397
 	st667:
 		if p++; p == pe {
 			goto _test_eof667
 		}
 	st_case_667:
 		switch data[p] {
-		case 89:
+		case 69:
 			goto st668
-		case 121:
+		case 101:
 			goto st668
 		}
-		goto tr417
+		goto tr397
 	st668:
 		if p++; p == pe {
 			goto _test_eof668
 		}
 	st_case_668:
-		if data[p] == 45 {
-			goto st669
+		switch data[p] {
+		case 9:
+			goto tr881
+		case 32:
+			goto tr881
+		case 58:
+			goto tr882
 		}
-		goto tr417
+		goto tr397
 	st669:
 		if p++; p == pe {
 			goto _test_eof669
 		}
 	st_case_669:
 		switch data[p] {
-		case 65:
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
+		case 69:
 			goto st670
-		case 97:
+		case 85:
+			goto st675
+		case 101:
 			goto st670
+		case 117:
+			goto st675
 		}
-		goto tr417
+		goto tr397
 	st670:
 		if p++; p == pe {
 			goto _test_eof670
 		}
 	st_case_670:
 		switch data[p] {
-		case 70:
+		case 82:
 			goto st671
-		case 102:
+		case 114:
 			goto st671
 		}
-		goto tr417
+		goto tr397
 	st671:
 		if p++; p == pe {
 			goto _test_eof671
 		}
 	st_case_671:
 		switch data[p] {
-		case 84:
+		case 86:
 			goto st672
-		case 116:
+		case 118:
 			goto st672
 		}
-		goto tr417
+		goto tr397
 	st672:
 		if p++; p == pe {
 			goto _test_eof672
@@ -15767,7 +15224,7 @@ tr747:
 		case 101:
 			goto st673
 		}
-		goto tr417
+		goto tr397
 	st673:
 		if p++; p == pe {
 			goto _test_eof673
@@ -15779,7 +15236,7 @@ tr747:
 		case 114:
 			goto st674
 		}
-		goto tr417
+		goto tr397
 	st674:
 		if p++; p == pe {
 			goto _test_eof674
@@ -15787,37 +15244,41 @@ tr747:
 	st_case_674:
 		switch data[p] {
 		case 9:
-			goto tr896
+			goto tr891
 		case 32:
-			goto tr896
+			goto tr891
 		case 58:
-			goto tr897
+			goto tr892
 		}
-		goto tr417
+		goto tr397
 	st675:
 		if p++; p == pe {
 			goto _test_eof675
 		}
 	st_case_675:
 		switch data[p] {
-		case 85:
+		case 66:
 			goto st676
-		case 117:
+		case 80:
+			goto st681
+		case 98:
 			goto st676
+		case 112:
+			goto st681
 		}
-		goto tr417
+		goto tr397
 	st676:
 		if p++; p == pe {
 			goto _test_eof676
 		}
 	st_case_676:
 		switch data[p] {
-		case 84:
+		case 74:
 			goto st677
-		case 116:
+		case 106:
 			goto st677
 		}
-		goto tr417
+		goto tr397
 	st677:
 		if p++; p == pe {
 			goto _test_eof677
@@ -15829,79 +15290,69 @@ tr747:
 		case 101:
 			goto st678
 		}
-		goto tr417
+		goto tr397
 	st678:
 		if p++; p == pe {
 			goto _test_eof678
 		}
 	st_case_678:
 		switch data[p] {
-		case 9:
-			goto tr901
-		case 32:
-			goto tr901
-		case 58:
-			goto tr902
+		case 67:
+			goto st679
+		case 99:
+			goto st679
 		}
-		goto tr417
+		goto tr397
 	st679:
 		if p++; p == pe {
 			goto _test_eof679
 		}
 	st_case_679:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
-		case 69:
+		case 84:
 			goto st680
-		case 85:
-			goto st685
-		case 101:
+		case 116:
 			goto st680
-		case 117:
-			goto st685
 		}
-		goto tr417
+		goto tr397
 	st680:
 		if p++; p == pe {
 			goto _test_eof680
 		}
 	st_case_680:
 		switch data[p] {
-		case 82:
-			goto st681
-		case 114:
-			goto st681
+		case 9:
+			goto tr883
+		case 32:
+			goto tr883
+		case 58:
+			goto tr884
 		}
-		goto tr417
+		goto tr397
 	st681:
 		if p++; p == pe {
 			goto _test_eof681
 		}
 	st_case_681:
 		switch data[p] {
-		case 86:
+		case 80:
 			goto st682
-		case 118:
+		case 112:
 			goto st682
 		}
-		goto tr417
+		goto tr397
 	st682:
 		if p++; p == pe {
 			goto _test_eof682
 		}
 	st_case_682:
 		switch data[p] {
-		case 69:
+		case 79:
 			goto st683
-		case 101:
+		case 111:
 			goto st683
 		}
-		goto tr417
+		goto tr397
 	st683:
 		if p++; p == pe {
 			goto _test_eof683
@@ -15913,171 +15364,177 @@ tr747:
 		case 114:
 			goto st684
 		}
-		goto tr417
+		goto tr397
 	st684:
 		if p++; p == pe {
 			goto _test_eof684
 		}
 	st_case_684:
 		switch data[p] {
-		case 9:
-			goto tr911
-		case 32:
-			goto tr911
-		case 58:
-			goto tr912
+		case 84:
+			goto st685
+		case 116:
+			goto st685
 		}
-		goto tr417
+		goto tr397
 	st685:
 		if p++; p == pe {
 			goto _test_eof685
 		}
 	st_case_685:
 		switch data[p] {
-		case 66:
+		case 69:
 			goto st686
-		case 80:
-			goto st691
-		case 98:
+		case 101:
 			goto st686
-		case 112:
-			goto st691
 		}
-		goto tr417
+		goto tr397
 	st686:
 		if p++; p == pe {
 			goto _test_eof686
 		}
 	st_case_686:
 		switch data[p] {
-		case 74:
-			goto st687
-		case 106:
-			goto st687
+		case 68:
+			goto st494
+		case 100:
+			goto st494
 		}
-		goto tr417
+		goto tr397
 	st687:
 		if p++; p == pe {
 			goto _test_eof687
 		}
 	st_case_687:
 		switch data[p] {
-		case 69:
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
+		case 73:
 			goto st688
-		case 101:
+		case 79:
+			goto st696
+		case 105:
 			goto st688
+		case 111:
+			goto st696
 		}
-		goto tr417
+		goto tr397
 	st688:
 		if p++; p == pe {
 			goto _test_eof688
 		}
 	st_case_688:
 		switch data[p] {
-		case 67:
+		case 77:
 			goto st689
-		case 99:
+		case 109:
 			goto st689
 		}
-		goto tr417
+		goto tr397
 	st689:
 		if p++; p == pe {
 			goto _test_eof689
 		}
 	st_case_689:
 		switch data[p] {
-		case 84:
+		case 69:
 			goto st690
-		case 116:
+		case 101:
 			goto st690
 		}
-		goto tr417
+		goto tr397
 	st690:
 		if p++; p == pe {
 			goto _test_eof690
 		}
 	st_case_690:
 		switch data[p] {
-		case 9:
-			goto tr903
-		case 32:
-			goto tr903
-		case 58:
-			goto tr904
+		case 83:
+			goto st691
+		case 115:
+			goto st691
 		}
-		goto tr417
+		goto tr397
 	st691:
 		if p++; p == pe {
 			goto _test_eof691
 		}
 	st_case_691:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st692
-		case 112:
+		case 116:
 			goto st692
 		}
-		goto tr417
+		goto tr397
 	st692:
 		if p++; p == pe {
 			goto _test_eof692
 		}
 	st_case_692:
 		switch data[p] {
-		case 79:
+		case 65:
 			goto st693
-		case 111:
+		case 97:
 			goto st693
 		}
-		goto tr417
+		goto tr397
 	st693:
 		if p++; p == pe {
 			goto _test_eof693
 		}
 	st_case_693:
 		switch data[p] {
-		case 82:
+		case 77:
 			goto st694
-		case 114:
+		case 109:
 			goto st694
 		}
-		goto tr417
+		goto tr397
 	st694:
 		if p++; p == pe {
 			goto _test_eof694
 		}
 	st_case_694:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st695
-		case 116:
+		case 112:
 			goto st695
 		}
-		goto tr417
+		goto tr397
 	st695:
 		if p++; p == pe {
 			goto _test_eof695
 		}
 	st_case_695:
 		switch data[p] {
-		case 69:
-			goto st696
-		case 101:
-			goto st696
+		case 9:
+			goto tr915
+		case 32:
+			goto tr915
+		case 58:
+			goto tr916
 		}
-		goto tr417
+		goto tr397
 	st696:
 		if p++; p == pe {
 			goto _test_eof696
 		}
 	st_case_696:
 		switch data[p] {
-		case 68:
-			goto st504
-		case 100:
-			goto st504
+		case 9:
+			goto tr904
+		case 32:
+			goto tr904
+		case 58:
+			goto tr905
 		}
-		goto tr417
+		goto tr397
 	st697:
 		if p++; p == pe {
 			goto _test_eof697
@@ -16085,133 +15542,129 @@ tr747:
 	st_case_697:
 		switch data[p] {
 		case 9:
-			goto tr924
+			goto tr483
 		case 32:
-			goto tr924
+			goto tr483
 		case 58:
-			goto tr925
-		case 73:
+			goto tr484
+		case 78:
 			goto st698
-		case 79:
-			goto st706
-		case 105:
+		case 83:
+			goto st708
+		case 110:
 			goto st698
-		case 111:
-			goto st706
+		case 115:
+			goto st708
 		}
-		goto tr417
+		goto tr397
 	st698:
 		if p++; p == pe {
 			goto _test_eof698
 		}
 	st_case_698:
 		switch data[p] {
-		case 77:
+		case 83:
 			goto st699
-		case 109:
+		case 115:
 			goto st699
 		}
-		goto tr417
+		goto tr397
 	st699:
 		if p++; p == pe {
 			goto _test_eof699
 		}
 	st_case_699:
 		switch data[p] {
-		case 69:
+		case 85:
 			goto st700
-		case 101:
+		case 117:
 			goto st700
 		}
-		goto tr417
+		goto tr397
 	st700:
 		if p++; p == pe {
 			goto _test_eof700
 		}
 	st_case_700:
 		switch data[p] {
-		case 83:
+		case 80:
 			goto st701
-		case 115:
+		case 112:
 			goto st701
 		}
-		goto tr417
+		goto tr397
 	st701:
 		if p++; p == pe {
 			goto _test_eof701
 		}
 	st_case_701:
 		switch data[p] {
-		case 84:
+		case 80:
 			goto st702
-		case 116:
+		case 112:
 			goto st702
 		}
-		goto tr417
+		goto tr397
 	st702:
 		if p++; p == pe {
 			goto _test_eof702
 		}
 	st_case_702:
 		switch data[p] {
-		case 65:
+		case 79:
 			goto st703
-		case 97:
+		case 111:
 			goto st703
 		}
-		goto tr417
+		goto tr397
 	st703:
 		if p++; p == pe {
 			goto _test_eof703
 		}
 	st_case_703:
 		switch data[p] {
-		case 77:
+		case 82:
 			goto st704
-		case 109:
+		case 114:
 			goto st704
 		}
-		goto tr417
+		goto tr397
 	st704:
 		if p++; p == pe {
 			goto _test_eof704
 		}
 	st_case_704:
 		switch data[p] {
-		case 80:
+		case 84:
 			goto st705
-		case 112:
+		case 116:
 			goto st705
 		}
-		goto tr417
+		goto tr397
 	st705:
 		if p++; p == pe {
 			goto _test_eof705
 		}
 	st_case_705:
 		switch data[p] {
-		case 9:
-			goto tr935
-		case 32:
-			goto tr935
-		case 58:
-			goto tr936
+		case 69:
+			goto st706
+		case 101:
+			goto st706
 		}
-		goto tr417
+		goto tr397
 	st706:
 		if p++; p == pe {
 			goto _test_eof706
 		}
 	st_case_706:
 		switch data[p] {
-		case 9:
-			goto tr924
-		case 32:
-			goto tr924
-		case 58:
-			goto tr925
+		case 68:
+			goto st707
+		case 100:
+			goto st707
 		}
-		goto tr417
+		goto tr397
 	st707:
 		if p++; p == pe {
 			goto _test_eof707
@@ -16219,129 +15672,120 @@ tr747:
 	st_case_707:
 		switch data[p] {
 		case 9:
-			goto tr503
+			goto tr928
 		case 32:
-			goto tr503
+			goto tr928
 		case 58:
-			goto tr504
-		case 78:
-			goto st708
-		case 83:
-			goto st718
-		case 110:
-			goto st708
-		case 115:
-			goto st718
+			goto tr929
 		}
-		goto tr417
+		goto tr397
 	st708:
 		if p++; p == pe {
 			goto _test_eof708
 		}
 	st_case_708:
 		switch data[p] {
-		case 83:
+		case 69:
 			goto st709
-		case 115:
+		case 101:
 			goto st709
 		}
-		goto tr417
+		goto tr397
 	st709:
 		if p++; p == pe {
 			goto _test_eof709
 		}
 	st_case_709:
 		switch data[p] {
-		case 85:
+		case 82:
 			goto st710
-		case 117:
+		case 114:
 			goto st710
 		}
-		goto tr417
+		goto tr397
 	st710:
 		if p++; p == pe {
 			goto _test_eof710
 		}
 	st_case_710:
-		switch data[p] {
-		case 80:
-			goto st711
-		case 112:
+		if data[p] == 45 {
 			goto st711
 		}
-		goto tr417
+		goto tr397
 	st711:
 		if p++; p == pe {
 			goto _test_eof711
 		}
 	st_case_711:
 		switch data[p] {
-		case 80:
+		case 65:
 			goto st712
-		case 112:
+		case 97:
 			goto st712
 		}
-		goto tr417
+		goto tr397
 	st712:
 		if p++; p == pe {
 			goto _test_eof712
 		}
 	st_case_712:
 		switch data[p] {
-		case 79:
+		case 71:
 			goto st713
-		case 111:
+		case 103:
 			goto st713
 		}
-		goto tr417
+		goto tr397
 	st713:
 		if p++; p == pe {
 			goto _test_eof713
 		}
 	st_case_713:
 		switch data[p] {
-		case 82:
+		case 69:
 			goto st714
-		case 114:
+		case 101:
 			goto st714
 		}
-		goto tr417
+		goto tr397
 	st714:
 		if p++; p == pe {
 			goto _test_eof714
 		}
 	st_case_714:
 		switch data[p] {
-		case 84:
+		case 78:
 			goto st715
-		case 116:
+		case 110:
 			goto st715
 		}
-		goto tr417
+		goto tr397
 	st715:
 		if p++; p == pe {
 			goto _test_eof715
 		}
 	st_case_715:
 		switch data[p] {
-		case 69:
+		case 84:
 			goto st716
-		case 101:
+		case 116:
 			goto st716
 		}
-		goto tr417
+		goto tr397
 	st716:
 		if p++; p == pe {
 			goto _test_eof716
 		}
 	st_case_716:
 		switch data[p] {
-		case 68:
-			goto st717
-		case 100:
-			goto st717
+		case 9:
+			goto tr938
+		case 32:
+			goto tr938
+		case 58:
+			goto tr939
 		}
-		goto tr417
+		goto tr397
 	st717:
 		if p++; p == pe {
 			goto _test_eof717
@@ -16349,192 +15793,197 @@ tr747:
 	st_case_717:
 		switch data[p] {
 		case 9:
-			goto tr948
+			goto st718
 		case 32:
-			goto tr948
+			goto st718
 		case 58:
-			goto tr949
+			goto st719
+		case 73:
+			goto st723
+		case 105:
+			goto st723
 		}
-		goto tr417
+		goto tr397
 	st718:
 		if p++; p == pe {
 			goto _test_eof718
 		}
 	st_case_718:
 		switch data[p] {
-		case 69:
-			goto st719
-		case 101:
+		case 9:
+			goto st718
+		case 32:
+			goto st718
+		case 58:
 			goto st719
 		}
-		goto tr417
+		goto st0
 	st719:
 		if p++; p == pe {
 			goto _test_eof719
 		}
 	st_case_719:
-		switch data[p] {
-		case 82:
-			goto st720
-		case 114:
+		_widec = int16(data[p])
+		if 13 <= data[p] && data[p] <= 13 {
+			_widec = 256 + (int16(data[p]) - 0)
+			if  lookAheadWSP(data, p, pe)  {
+				_widec += 256
+			}
+		}
+		switch _widec {
+		case 9:
+			goto st719
+		case 32:
+			goto st719
+		case 269:
+			goto tr943
+		case 525:
 			goto st720
 		}
-		goto tr417
+		switch {
+		case _widec > 12:
+			if 14 <= _widec {
+				goto tr943
+			}
+		default:
+			goto tr943
+		}
+		goto st0
 	st720:
 		if p++; p == pe {
 			goto _test_eof720
 		}
 	st_case_720:
-		if data[p] == 45 {
+		if data[p] == 10 {
 			goto st721
 		}
-		goto tr417
+		goto st0
 	st721:
 		if p++; p == pe {
 			goto _test_eof721
 		}
 	st_case_721:
 		switch data[p] {
-		case 65:
+		case 9:
 			goto st722
-		case 97:
+		case 32:
 			goto st722
 		}
-		goto tr417
+		goto st0
 	st722:
 		if p++; p == pe {
 			goto _test_eof722
 		}
 	st_case_722:
 		switch data[p] {
-		case 71:
-			goto st723
-		case 103:
-			goto st723
+		case 9:
+			goto st722
+		case 32:
+			goto st722
 		}
-		goto tr417
+		goto tr943
 	st723:
 		if p++; p == pe {
 			goto _test_eof723
 		}
 	st_case_723:
 		switch data[p] {
-		case 69:
+		case 65:
 			goto st724
-		case 101:
+		case 97:
 			goto st724
 		}
-		goto tr417
+		goto tr397
 	st724:
 		if p++; p == pe {
 			goto _test_eof724
 		}
 	st_case_724:
 		switch data[p] {
-		case 78:
-			goto st725
-		case 110:
-			goto st725
+		case 9:
+			goto st718
+		case 32:
+			goto st718
+		case 58:
+			goto st719
 		}
-		goto tr417
+		goto tr397
 	st725:
 		if p++; p == pe {
 			goto _test_eof725
 		}
 	st_case_725:
 		switch data[p] {
-		case 84:
+		case 65:
 			goto st726
-		case 116:
+		case 87:
+			goto st732
+		case 97:
 			goto st726
+		case 119:
+			goto st732
 		}
-		goto tr417
+		goto tr397
 	st726:
 		if p++; p == pe {
 			goto _test_eof726
 		}
 	st_case_726:
 		switch data[p] {
-		case 9:
-			goto tr958
-		case 32:
-			goto tr958
-		case 58:
-			goto tr959
+		case 82:
+			goto st727
+		case 114:
+			goto st727
 		}
-		goto tr417
+		goto tr397
 	st727:
 		if p++; p == pe {
 			goto _test_eof727
 		}
 	st_case_727:
 		switch data[p] {
-		case 9:
+		case 78:
 			goto st728
-		case 32:
+		case 110:
 			goto st728
-		case 58:
-			goto st729
-		case 73:
-			goto st733
-		case 105:
-			goto st733
 		}
-		goto tr417
+		goto tr397
 	st728:
 		if p++; p == pe {
 			goto _test_eof728
 		}
 	st_case_728:
 		switch data[p] {
-		case 9:
-			goto st728
-		case 32:
-			goto st728
-		case 58:
+		case 73:
+			goto st729
+		case 105:
 			goto st729
 		}
-		goto st0
+		goto tr397
 	st729:
 		if p++; p == pe {
 			goto _test_eof729
 		}
 	st_case_729:
-		_widec = int16(data[p])
-		if 13 <= data[p] && data[p] <= 13 {
-			_widec = 256 + (int16(data[p]) - 0)
-			if  lookAheadWSP(data, p, pe)  {
-				_widec += 256
-			}
-		}
-		switch _widec {
-		case 9:
-			goto st729
-		case 32:
-			goto st729
-		case 269:
-			goto tr963
-		case 525:
+		switch data[p] {
+		case 78:
+			goto st730
+		case 110:
 			goto st730
 		}
-		switch {
-		case _widec > 12:
-			if 14 <= _widec {
-				goto tr963
-			}
-		default:
-			goto tr963
-		}
-		goto st0
+		goto tr397
 	st730:
 		if p++; p == pe {
 			goto _test_eof730
 		}
 	st_case_730:
-		if data[p] == 10 {
+		switch data[p] {
+		case 71:
+			goto st731
+		case 103:
 			goto st731
 		}
-		goto st0
+		goto tr397
 	st731:
 		if p++; p == pe {
 			goto _test_eof731
@@ -16542,101 +15991,94 @@ tr747:
 	st_case_731:
 		switch data[p] {
 		case 9:
-			goto st732
+			goto tr955
 		case 32:
-			goto st732
+			goto tr955
+		case 58:
+			goto tr956
 		}
-		goto st0
+		goto tr397
 	st732:
 		if p++; p == pe {
 			goto _test_eof732
 		}
 	st_case_732:
 		switch data[p] {
-		case 9:
-			goto st732
-		case 32:
-			goto st732
+		case 87:
+			goto st733
+		case 119:
+			goto st733
 		}
-		goto tr963
+		goto tr397
 	st733:
 		if p++; p == pe {
 			goto _test_eof733
 		}
 	st_case_733:
-		switch data[p] {
-		case 65:
-			goto st734
-		case 97:
+		if data[p] == 45 {
 			goto st734
 		}
-		goto tr417
+		goto tr397
 	st734:
 		if p++; p == pe {
 			goto _test_eof734
 		}
 	st_case_734:
 		switch data[p] {
-		case 9:
-			goto st728
-		case 32:
-			goto st728
-		case 58:
-			goto st729
+		case 65:
+			goto st735
+		case 97:
+			goto st735
 		}
-		goto tr417
+		goto tr397
 	st735:
 		if p++; p == pe {
 			goto _test_eof735
 		}
 	st_case_735:
 		switch data[p] {
-		case 65:
+		case 85:
 			goto st736
-		case 87:
-			goto st742
-		case 97:
+		case 117:
 			goto st736
-		case 119:
-			goto st742
 		}
-		goto tr417
+		goto tr397
 	st736:
 		if p++; p == pe {
 			goto _test_eof736
 		}
 	st_case_736:
 		switch data[p] {
-		case 82:
+		case 84:
 			goto st737
-		case 114:
+		case 116:
 			goto st737
 		}
-		goto tr417
+		goto tr397
 	st737:
 		if p++; p == pe {
 			goto _test_eof737
 		}
 	st_case_737:
 		switch data[p] {
-		case 78:
+		case 72:
 			goto st738
-		case 110:
+		case 104:
 			goto st738
 		}
-		goto tr417
+		goto tr397
 	st738:
 		if p++; p == pe {
 			goto _test_eof738
 		}
 	st_case_738:
 		switch data[p] {
-		case 73:
+		case 69:
 			goto st739
-		case 105:
+		case 101:
 			goto st739
 		}
-		goto tr417
+		goto tr397
 	st739:
 		if p++; p == pe {
 			goto _test_eof739
@@ -16648,212 +16090,93 @@ tr747:
 		case 110:
 			goto st740
 		}
-		goto tr417
+		goto tr397
 	st740:
 		if p++; p == pe {
 			goto _test_eof740
 		}
 	st_case_740:
 		switch data[p] {
-		case 71:
+		case 84:
 			goto st741
-		case 103:
+		case 116:
 			goto st741
 		}
-		goto tr417
+		goto tr397
 	st741:
 		if p++; p == pe {
 			goto _test_eof741
 		}
 	st_case_741:
 		switch data[p] {
-		case 9:
-			goto tr975
-		case 32:
-			goto tr975
-		case 58:
-			goto tr976
+		case 73:
+			goto st742
+		case 105:
+			goto st742
 		}
-		goto tr417
+		goto tr397
 	st742:
 		if p++; p == pe {
 			goto _test_eof742
 		}
 	st_case_742:
 		switch data[p] {
-		case 87:
+		case 67:
 			goto st743
-		case 119:
+		case 99:
 			goto st743
 		}
-		goto tr417
+		goto tr397
 	st743:
 		if p++; p == pe {
 			goto _test_eof743
 		}
 	st_case_743:
-		if data[p] == 45 {
+		switch data[p] {
+		case 65:
+			goto st744
+		case 97:
 			goto st744
 		}
-		goto tr417
+		goto tr397
 	st744:
 		if p++; p == pe {
 			goto _test_eof744
 		}
 	st_case_744:
 		switch data[p] {
-		case 65:
+		case 84:
 			goto st745
-		case 97:
+		case 116:
 			goto st745
 		}
-		goto tr417
+		goto tr397
 	st745:
 		if p++; p == pe {
 			goto _test_eof745
 		}
 	st_case_745:
 		switch data[p] {
-		case 85:
+		case 69:
 			goto st746
-		case 117:
+		case 101:
 			goto st746
 		}
-		goto tr417
+		goto tr397
 	st746:
 		if p++; p == pe {
 			goto _test_eof746
 		}
 	st_case_746:
-		switch data[p] {
-		case 84:
-			goto st747
-		case 116:
-			goto st747
-		}
-		goto tr417
-	st747:
-		if p++; p == pe {
-			goto _test_eof747
-		}
-	st_case_747:
-		switch data[p] {
-		case 72:
-			goto st748
-		case 104:
-			goto st748
-		}
-		goto tr417
-	st748:
-		if p++; p == pe {
-			goto _test_eof748
-		}
-	st_case_748:
-		switch data[p] {
-		case 69:
-			goto st749
-		case 101:
-			goto st749
-		}
-		goto tr417
-	st749:
-		if p++; p == pe {
-			goto _test_eof749
-		}
-	st_case_749:
-		switch data[p] {
-		case 78:
-			goto st750
-		case 110:
-			goto st750
-		}
-		goto tr417
-	st750:
-		if p++; p == pe {
-			goto _test_eof750
-		}
-	st_case_750:
-		switch data[p] {
-		case 84:
-			goto st751
-		case 116:
-			goto st751
-		}
-		goto tr417
-	st751:
-		if p++; p == pe {
-			goto _test_eof751
-		}
-	st_case_751:
-		switch data[p] {
-		case 73:
-			goto st752
-		case 105:
-			goto st752
-		}
-		goto tr417
-	st752:
-		if p++; p == pe {
-			goto _test_eof752
-		}
-	st_case_752:
-		switch data[p] {
-		case 67:
-			goto st753
-		case 99:
-			goto st753
-		}
-		goto tr417
-	st753:
-		if p++; p == pe {
-			goto _test_eof753
-		}
-	st_case_753:
-		switch data[p] {
-		case 65:
-			goto st754
-		case 97:
-			goto st754
-		}
-		goto tr417
-	st754:
-		if p++; p == pe {
-			goto _test_eof754
-		}
-	st_case_754:
-		switch data[p] {
-		case 84:
-			goto st755
-		case 116:
-			goto st755
-		}
-		goto tr417
-	st755:
-		if p++; p == pe {
-			goto _test_eof755
-		}
-	st_case_755:
-		switch data[p] {
-		case 69:
-			goto st756
-		case 101:
-			goto st756
-		}
-		goto tr417
-	st756:
-		if p++; p == pe {
-			goto _test_eof756
-		}
-	st_case_756:
 		switch data[p] {
 		case 9:
-			goto tr991
+			goto tr971
 		case 32:
-			goto tr991
+			goto tr971
 		case 58:
-			goto tr992
+			goto tr972
 		}
-		goto tr417
+		goto tr397
 	st_out:
 	_test_eof2: cs = 2; goto _test_eof
 	_test_eof3: cs = 3; goto _test_eof
@@ -16867,7 +16190,7 @@ tr747:
 	_test_eof11: cs = 11; goto _test_eof
 	_test_eof12: cs = 12; goto _test_eof
 	_test_eof13: cs = 13; goto _test_eof
-	_test_eof757: cs = 757; goto _test_eof
+	_test_eof747: cs = 747; goto _test_eof
 	_test_eof14: cs = 14; goto _test_eof
 	_test_eof15: cs = 15; goto _test_eof
 	_test_eof16: cs = 16; goto _test_eof
@@ -16899,7 +16222,7 @@ tr747:
 	_test_eof42: cs = 42; goto _test_eof
 	_test_eof43: cs = 43; goto _test_eof
 	_test_eof44: cs = 44; goto _test_eof
-	_test_eof758: cs = 758; goto _test_eof
+	_test_eof748: cs = 748; goto _test_eof
 	_test_eof45: cs = 45; goto _test_eof
 	_test_eof46: cs = 46; goto _test_eof
 	_test_eof47: cs = 47; goto _test_eof
@@ -16927,7 +16250,7 @@ tr747:
 	_test_eof69: cs = 69; goto _test_eof
 	_test_eof70: cs = 70; goto _test_eof
 	_test_eof71: cs = 71; goto _test_eof
-	_test_eof759: cs = 759; goto _test_eof
+	_test_eof749: cs = 749; goto _test_eof
 	_test_eof72: cs = 72; goto _test_eof
 	_test_eof73: cs = 73; goto _test_eof
 	_test_eof74: cs = 74; goto _test_eof
@@ -16971,7 +16294,7 @@ tr747:
 	_test_eof112: cs = 112; goto _test_eof
 	_test_eof113: cs = 113; goto _test_eof
 	_test_eof114: cs = 114; goto _test_eof
-	_test_eof760: cs = 760; goto _test_eof
+	_test_eof750: cs = 750; goto _test_eof
 	_test_eof115: cs = 115; goto _test_eof
 	_test_eof116: cs = 116; goto _test_eof
 	_test_eof117: cs = 117; goto _test_eof
@@ -17014,7 +16337,7 @@ tr747:
 	_test_eof154: cs = 154; goto _test_eof
 	_test_eof155: cs = 155; goto _test_eof
 	_test_eof156: cs = 156; goto _test_eof
-	_test_eof761: cs = 761; goto _test_eof
+	_test_eof751: cs = 751; goto _test_eof
 	_test_eof157: cs = 157; goto _test_eof
 	_test_eof158: cs = 158; goto _test_eof
 	_test_eof159: cs = 159; goto _test_eof
@@ -17054,7 +16377,7 @@ tr747:
 	_test_eof193: cs = 193; goto _test_eof
 	_test_eof194: cs = 194; goto _test_eof
 	_test_eof195: cs = 195; goto _test_eof
-	_test_eof762: cs = 762; goto _test_eof
+	_test_eof752: cs = 752; goto _test_eof
 	_test_eof196: cs = 196; goto _test_eof
 	_test_eof197: cs = 197; goto _test_eof
 	_test_eof198: cs = 198; goto _test_eof
@@ -17094,7 +16417,7 @@ tr747:
 	_test_eof232: cs = 232; goto _test_eof
 	_test_eof233: cs = 233; goto _test_eof
 	_test_eof234: cs = 234; goto _test_eof
-	_test_eof763: cs = 763; goto _test_eof
+	_test_eof753: cs = 753; goto _test_eof
 	_test_eof235: cs = 235; goto _test_eof
 	_test_eof236: cs = 236; goto _test_eof
 	_test_eof237: cs = 237; goto _test_eof
@@ -17107,50 +16430,44 @@ tr747:
 	_test_eof244: cs = 244; goto _test_eof
 	_test_eof245: cs = 245; goto _test_eof
 	_test_eof246: cs = 246; goto _test_eof
-	_test_eof764: cs = 764; goto _test_eof
 	_test_eof247: cs = 247; goto _test_eof
 	_test_eof248: cs = 248; goto _test_eof
+	_test_eof754: cs = 754; goto _test_eof
 	_test_eof249: cs = 249; goto _test_eof
-	_test_eof765: cs = 765; goto _test_eof
 	_test_eof250: cs = 250; goto _test_eof
 	_test_eof251: cs = 251; goto _test_eof
-	_test_eof766: cs = 766; goto _test_eof
 	_test_eof252: cs = 252; goto _test_eof
 	_test_eof253: cs = 253; goto _test_eof
 	_test_eof254: cs = 254; goto _test_eof
-	_test_eof767: cs = 767; goto _test_eof
-	_test_eof768: cs = 768; goto _test_eof
-	_test_eof769: cs = 769; goto _test_eof
 	_test_eof255: cs = 255; goto _test_eof
 	_test_eof256: cs = 256; goto _test_eof
 	_test_eof257: cs = 257; goto _test_eof
 	_test_eof258: cs = 258; goto _test_eof
-	_test_eof770: cs = 770; goto _test_eof
 	_test_eof259: cs = 259; goto _test_eof
 	_test_eof260: cs = 260; goto _test_eof
+	_test_eof755: cs = 755; goto _test_eof
 	_test_eof261: cs = 261; goto _test_eof
 	_test_eof262: cs = 262; goto _test_eof
 	_test_eof263: cs = 263; goto _test_eof
 	_test_eof264: cs = 264; goto _test_eof
 	_test_eof265: cs = 265; goto _test_eof
+	_test_eof756: cs = 756; goto _test_eof
 	_test_eof266: cs = 266; goto _test_eof
 	_test_eof267: cs = 267; goto _test_eof
 	_test_eof268: cs = 268; goto _test_eof
 	_test_eof269: cs = 269; goto _test_eof
 	_test_eof270: cs = 270; goto _test_eof
-	_test_eof771: cs = 771; goto _test_eof
+	_test_eof757: cs = 757; goto _test_eof
 	_test_eof271: cs = 271; goto _test_eof
 	_test_eof272: cs = 272; goto _test_eof
 	_test_eof273: cs = 273; goto _test_eof
 	_test_eof274: cs = 274; goto _test_eof
 	_test_eof275: cs = 275; goto _test_eof
-	_test_eof772: cs = 772; goto _test_eof
 	_test_eof276: cs = 276; goto _test_eof
 	_test_eof277: cs = 277; goto _test_eof
 	_test_eof278: cs = 278; goto _test_eof
 	_test_eof279: cs = 279; goto _test_eof
 	_test_eof280: cs = 280; goto _test_eof
-	_test_eof773: cs = 773; goto _test_eof
 	_test_eof281: cs = 281; goto _test_eof
 	_test_eof282: cs = 282; goto _test_eof
 	_test_eof283: cs = 283; goto _test_eof
@@ -17617,28 +16934,18 @@ tr747:
 	_test_eof744: cs = 744; goto _test_eof
 	_test_eof745: cs = 745; goto _test_eof
 	_test_eof746: cs = 746; goto _test_eof
-	_test_eof747: cs = 747; goto _test_eof
-	_test_eof748: cs = 748; goto _test_eof
-	_test_eof749: cs = 749; goto _test_eof
-	_test_eof750: cs = 750; goto _test_eof
-	_test_eof751: cs = 751; goto _test_eof
-	_test_eof752: cs = 752; goto _test_eof
-	_test_eof753: cs = 753; goto _test_eof
-	_test_eof754: cs = 754; goto _test_eof
-	_test_eof755: cs = 755; goto _test_eof
-	_test_eof756: cs = 756; goto _test_eof
 
 	_test_eof: {}
 	if p == eof {
 		switch cs {
-		case 281, 282, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 370, 371, 372, 373, 374, 375, 385, 386, 387, 388, 389, 390, 391, 392, 393, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 441, 442, 443, 444, 445, 446, 447, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756:
+		case 271, 272, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 360, 361, 362, 363, 364, 365, 375, 376, 377, 378, 379, 380, 381, 382, 383, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 431, 432, 433, 434, 435, 436, 437, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746:
 //line sip.rl:174
 
 	p--
 
-	{goto st273 }
+	{goto st263 }
 
-//line msg_parse.go:17633
+//line msg_parse.go:16940
 		}
 	}
 
diff --git a/sip/sip.rl b/sip/sip.rl
index 4e0e081..2342cc0 100644
--- a/sip/sip.rl
+++ b/sip/sip.rl
@@ -343,6 +343,7 @@ schemec         = alnum | "+" | "-" | ".";
 scheme          = alpha schemec*;
 uric            = reserved | unreserved | "%" | "[" | "]";
 uri             = scheme ":" uric+;
+bare_uri        = scheme ":" ( uric - [;,] )+;
 
 # Quoted strings can have just about anything, including backslash escapes,
 # which aren't quite as fancy as the ones you'd see in programming.
@@ -436,7 +437,7 @@ addr_angled       := addr_display? addr_spec addr_angled_end;
 addr_uri_end       = CRLF @Addr @goto_header
                    | SEMI <: any @hold @goto_addr_param
                    | COMMA <: any @Addr @hold @goto_addr;
-addr_uri          := ( uri - ";" ) %AddrUri addr_uri_end;
+addr_uri          := bare_uri %AddrUri addr_uri_end;
 addr              := [<\"] @AddrNew @hold @goto_addr_angled
                    | unquoted_string >mark "<" @AddrNew @backtrack @goto_addr_angled
                    | scheme >mark ":" @AddrNew @backtrack @goto_addr_uri;
-- 
2.43.0


From d1ba0c5802af8136091f0f4eaa20eb008325134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 41/47] fix: a From made out of the contact is a single address

---
 dialog/route.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dialog/route.go b/dialog/route.go
index d4709b5..57def16 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -42,6 +42,7 @@ func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 		}
 		if msg.From == nil {
 			msg.From = msg.Contact.Copy()
+			msg.From.Next = nil
 			msg.From.Uri.Param = nil
 		}
 		if msg.CallID == "" {
-- 
2.43.0


From a8ebdbad0b8ed8e4f0afa61cef14b7522e30a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:37 +0000
Subject: [PATCH 42/47] fix: completing a message leaves the Via and From it
 shares with others alone

---
 dialog/route.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/dialog/route.go b/dialog/route.go
index 57def16..15d3ab6 100644
--- a/dialog/route.go
+++ b/dialog/route.go
@@ -61,18 +61,10 @@ func PopulateMessage(via *sip.Via, contact *sip.Addr, msg *sip.Msg) {
 			msg.UserAgent = GosipUA
 		}
 		if msg.Via.Param.Get("branch") == nil {
-			msg.Via.Param = &sip.Param{
-				Name:  "branch",
-				Value: util.GenerateBranch(),
-				Next:  msg.Via.Param,
-			}
+			msg.Via = msg.Via.Copy().Branch()
 		}
 		if msg.From.Param.Get("tag") == nil {
-			msg.From.Param = &sip.Param{
-				Name:  "tag",
-				Value: util.GenerateTag(),
-				Next:  msg.From.Param,
-			}
+			msg.From = msg.From.Copy().Tag()
 		}
 	}
 }
-- 
2.43.0


From 52d72ec6f4c57b311b53ef2a7f121ef1dd97d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 43/47] fix: spell the standard phrase of a 484 answer right

---
 sip/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/status.go b/sip/status.go
index d4ee56a..d5b47c3 100755
--- a/sip/status.go
+++ b/sip/status.go
@@ -165,7 +165,7 @@ var phrases = map[int]string{
 	StatusCallTransactionDoesNotExist:  "Call/Transaction Does Not Exist",
 	StatusLoopDetected:                 "Loop Detected",
 	StatusTooManyHops:                  "Too Many Hops",
-	StatusAddressIncomplete:            "Address StatusIncomplete",
+	StatusAddressIncomplete:            "Address Incomplete",
 	StatusAmbiguous:                    "Ambiguous",
 	StatusBusyHere:                     "Busy Here",
 	StatusRequestTerminated:            "Request Terminated",
-- 
2.43.0


From 5044f43833384db61023ecb0d0b54ebeda0d1265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 44/47] fix: receive datagrams of any size

---
 dialog/receiver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dialog/receiver.go b/dialog/receiver.go
index a7e2c21..61ccc9e 100644
--- a/dialog/receiver.go
+++ b/dialog/receiver.go
@@ -24,7 +24,7 @@ import (
 )
 
 func ReceiveMessages(sock *net.UDPConn, c chan<- *sip.Msg, e chan<- error) {
-	buf := make([]byte, 2048)
+	buf := make([]byte, 65536) // Room for any UDP datagram.
 	laddr := sock.LocalAddr().(*net.UDPAddr)
 	lhost := laddr.IP.String()
 	lport := uint16(laddr.Port)
-- 
2.43.0


From 711f6aea0e9226a99f536f336eb93dd90f002809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 45/47] fix: refuse an empty address in a connection line

---
 sdp/sdp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index e1db097..47cf145 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -481,6 +481,9 @@ func parseConnLine(line string) (addr string, err error) {
 		return "", errors.New("unsupported conn net type")
 	}
 	addr = toks[2]
+	if addr == "" {
+		return "", errors.New("no address in c= line")
+	}
 	if n := strings.Index(addr, "/"); n >= 0 {
 		return "", errors.New("multicast address in c= line D:")
 	}
-- 
2.43.0


From 1746ea8bef7d745f5ec834067f89748f5b522995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 46/47] fix: refuse payload types of more than seven bits

---
 sdp/sdp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdp/sdp.go b/sdp/sdp.go
index 47cf145..5606a1d 100755
--- a/sdp/sdp.go
+++ b/sdp/sdp.go
@@ -461,7 +461,7 @@ func parseMediaInfo(s string) (port uint16, proto string, pts []uint8, err error
 	// The rest of these tokens are payload types sorted by preference.
 	pts = make([]uint8, len(toks)-2)
 	for n, pt := range toks[2:] {
-		pt, err := strconv.ParseUint(pt, 10, 8)
+		pt, err := strconv.ParseUint(pt, 10, 7)
 		if err != nil {
 			return 0, "", nil, errors.New("invalid pt in m= line")
 		}
-- 
2.43.0


From df2582a42dbcd32ae7ab3aa2ae7987192eae54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:36 +0000
Subject: [PATCH 47/47] fix: a call through a strict router made up a To that
 names the router

---
 dialog/dialog.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dialog/dialog.go b/dialog/dialog.go
index 0f91bc2..8cd28a3 100755
--- a/dialog/dialog.go
+++ b/dialog/dialog.go
@@ -150,6 +150,10 @@ func (dls *dialogState) run() {
 }
 
 func (dls *dialogState) sendRequest(request *sip.Msg) bool {
+	if request.To == nil && request.Request != nil {
+		// Before a strict router takes the place of the target.
+		request.To = &sip.Addr{Uri: request.Request.Copy()}
+	}
 	host, port, err := RouteMessage(nil, nil, request)
 	if err != nil {
 		dls.errChan <- err
-- 
2.43.0

