#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

NODLG = "No test in the stable suite creates a dialog at all (the examples need a live SIP server), so no ordering of responses, timers and requests is exercised."

p("C01", "Call progress reports are faithful and ordered",
  "For every outbound call, the progress reports the application receives are exactly those justified by messages of that call: Proceeding for a 100 to the current INVITE, Ringing for a 180 or 183, Answered for the first 200 to the INVITE, and Hangup when a BYE is received or a 200 to our own BYE arrives. Answered is reported exactly once per call however often the 200 is repeated, nothing but Hangup is reported after Answered (late provisional responses, provisional responses to the BYE and re-INVITEs change nothing), and Hangup is the last report.",
  ["histories", "schedules", "inputs"], "Every sequence, repetition and reordering of responses and requests from the remote side, interleaved with timers and local hangup.",
  NODLG, ["dialog/dialog.go"],
  [("handleResponse", "dialog/dialog.go handleResponse"), ("transition", "dialog/dialog.go transition")],
  ["Dialog.OnState channel"], [("state", "progress of the call", "dialogState.state"), ("remote", "200 (or later target refresh) that established the dialog", "dialogState.remote")])

p("C02", "Final responses to an INVITE are acknowledged, nothing else is",
  "Each time a final response (status 200 or above) to the call's current INVITE arrives, including every retransmission of it while the INVITE is the current request, exactly one ACK is sent; no ACK is sent for provisional responses, for responses to other methods or for responses that do not match. The ACK carries the response's Call-ID, CSeq number with method ACK, From and To (including tags), the topmost Via, the reversed record route, and is addressed to the response's Contact (or, when a failure response has none, to the INVITE's own request URI).",
  ["histories", "inputs"], "All final statuses, repetitions and shapes (with and without Contact, with record routes), interleaved with other call events.",
  NODLG, ["dialog/dialog.go", "dialog/messages.go"],
  [("handleResponse", "dialog/dialog.go handleResponse"), ("NewAck", "dialog/messages.go NewAck")], ["UDP packets sent by the dialog"])

p("C03", "Unanswered messages are resent a bounded number of times",
  "An INVITE or BYE that gets no response, and the 200 to a re-INVITE that is not acknowledged, is retransmitted byte-identically except for hop counters, at the configured interval and exactly the configured maximum number of times. Any matching response (or the ACK, for the 200) stops the retransmissions for good. When the budget is used up the call moves on to the next server if one is left and otherwise fails with an error; it never stays pending forever while a timer is running.",
  ["schedules", "fault_sequences", "histories"], "Every pattern of lost messages and every point at which the response arrives relative to the resend timer.",
  NODLG, ["dialog/dialog.go"],
  [("resendRequest", "dialog/dialog.go resendRequest"), ("resendResponse", "dialog/dialog.go resendResponse")], ["UDP packets sent by the dialog", "Dialog.OnErr"],
  [("requestResends", "retransmissions so far", "dialogState.requestResends"), ("requestTimer", "resend timer", "dialogState.requestTimer")])

p("C04", "Server failover tries each candidate in order, once",
  "When the destination resolves to several servers, the INVITE is offered to them one at a time in the resolved order, and each is tried at most once: the call moves on to the next candidate when the current one times out, refuses the packet (ICMP), cannot be dialled, or answers 503, and only reports an error once all are exhausted. Each attempt uses a new Via branch but the same Call-ID, CSeq and From tag. Once the call is answered or has received another final response no further candidate is contacted.",
  ["fault_sequences", "histories", "configurations"], "Every assignment of live / silent / refusing / 503-answering servers to the candidate list and every point at which the failure shows up (before or after provisional responses).",
  NODLG, ["dialog/dialog.go", "dialog/route.go", "util/util.go"],
  [("popRoute", "dialog/dialog.go popRoute"), ("run: sockErrs", "dialog/dialog.go run"), ("IsRefused", "util/util.go IsRefused")], ["packets received at each candidate server", "Dialog.OnErr"],
  [("routes", "candidates not yet tried", "dialogState.routes")])

p("C05", "Redirects are followed to the given contact",
  "A 301 or 302 to the INVITE makes the call acknowledge it and send the INVITE again to the URI in the response's Contact, as request URI and as network destination, without the old route set and with a fresh branch; the rest of the call then proceeds with the new target. A redirect without a usable contact, or a redirect of any other request, ends the call with an error instead of crashing or redialling, and an endless chain of redirects ends with an error.",
  ["histories", "inputs"], "All chains of redirects (including back to an earlier server), at any point before the answer.",
  NODLG, ["dialog/dialog.go", "dialog/route.go"], [("handleResponse: MovedPermanently", "dialog/dialog.go handleResponse")], ["packets received at the redirect target", "Dialog.OnErr"])

p("C06", "Local hangup sends the right request for the call's stage",
  "When the application asks to hang up, an unanswered call sends a CANCEL that copies the pending INVITE's request URI, Via branch, Call-ID, From, To, CSeq number and route set, and an answered call sends a BYE inside the dialog: remote target as request URI, our From tag and the remote party's To tag as established by the answer, same Call-ID, CSeq strictly greater than any CSeq we used before and the route set reversed from the answer's record route. This stays true after re-INVITEs, retransmitted answers and repeated hangups. A 200 to the BYE ends the call with Hangup; any other final response ends it with an error.",
  ["histories", "schedules"], "Hangup at every point of every call history, including repeated hangups and hangups after target refresh.",
  NODLG, ["dialog/dialog.go", "dialog/messages.go"], [("sendHangup", "dialog/dialog.go sendHangup"), ("NewBye/NewCancel", "dialog/messages.go")], ["UDP packets sent by the dialog", "Dialog.OnState"],
  [("lseq", "local CSeq", "dialogState.lseq")])

p("C07", "Requests from the remote party get the prescribed response",
  "During a call every request carrying its Call-ID is answered exactly once per arrival (ACK never): BYE and OPTIONS with 200, re-INVITE with 200, unsupported methods with 405, requests whose CSeq is lower than one already seen with 500, requests without remaining hops with 483. The response echoes the request's Via list, From, To, Call-ID, CSeq and record route. BYE ends the call, an exhausted hop count ends it with an error, everything else leaves it up.",
  ["histories", "inputs"], "All methods, CSeq orders, hop counts and their interleavings with the rest of the call.",
  NODLG, ["dialog/dialog.go", "dialog/messages.go"], [("handleRequest", "dialog/dialog.go handleRequest"), ("NewResponse", "dialog/messages.go NewResponse")], ["UDP packets sent by the dialog"],
  [("rseq", "highest remote CSeq", "dialogState.rseq")])

p("C08", "Stray and foreign messages never affect a call",
  "A response whose Call-ID, CSeq number, CSeq method, Via host/port or branch differs from the current request, and a request with another Call-ID, changes nothing about the call: no state report, no media change, no ACK, and retransmissions and failover go on as before. A foreign request (other than ACK) is answered 481, a message with an unsupported SIP version is refused with 505 (requests only) and ends the call with an error, and no response is ever sent in reply to a response or an ACK.",
  ["inputs", "histories"], "Every combination of mismatching identifiers, injected at every point of a call.",
  NODLG, ["dialog/dialog.go", "dialog/messages.go"], [("handleMessage", "dialog/dialog.go handleMessage"), ("ResponseMatch", "dialog/messages.go ResponseMatch")], ["Dialog channels", "UDP packets sent by the dialog"])

p("C09", "The media peer follows the remote party's SDP",
  "Each accepted message of the call that carries an SDP with an audio stream (a provisional or 200 response to the pending request, or an in-order re-INVITE) publishes exactly that SDP's connection address and audio port, in arrival order; nothing else ever changes the published media peer. Messages without SDP, with an SDP lacking audio, failure responses, stray messages and provisional responses arriving after the answer publish nothing.",
  ["histories", "inputs"], "All sequences of offers/answers carried by responses and re-INVITEs, with and without audio.",
  NODLG, ["dialog/dialog.go", "sdp/sdp.go"], [("checkSDP", "dialog/dialog.go checkSDP")], ["Dialog.OnPeer"])

p("C10", "Every call that ends, ends completely",
  "However a call ends (remote BYE, hangup, error response, timeout, network error, protocol error), the application gets exactly one terminal report, either a Hangup state or one error, and then the error, state and peer channels are all closed. After that the call sends nothing more, its sockets are closed and none of its goroutines remains; moving to another server releases the previous socket in the same way without stalling. Asking to hang up, up to four times, never blocks the application, also when the call has just ended.",
  ["histories", "schedules", "fault_sequences"], "Every way a call can end, with traffic still arriving.",
  NODLG, ["dialog/dialog.go", "dialog/receiver.go"], [("cleanup", "dialog/dialog.go cleanup"), ("ReceiveMessages", "dialog/receiver.go ReceiveMessages")], ["Dialog channels", "goroutine dump", "open descriptors"])

p("C11", "No datagram can crash or wedge the SIP stack",
  "Whatever bytes arrive from the network (garbage, truncated or mutated messages, messages lacking any header, surprising header values or bodies), on a transport or during any stage of a call, the process does not panic and the receiver keeps running. A valid message that follows is still processed normally.",
  ["inputs", "histories"], "All byte strings up to the receive buffer size, at every stage of a call.",
  "The parser tests feed about forty fixed messages to the parser only; nothing feeds the receive path or a dialog.",
  ["dialog/receiver.go", "dialog/dialog.go", "sip/msg_parse.rl", "sip/msg_parse.go", "sdp/sdp.go"], [("ReceiveMessages", "dialog/receiver.go"), ("ParseMsg", "sip/msg_parse.go"), ("checkSDP", "dialog/dialog.go")], ["process exit", "replies to a probe"])

p("C12", "Received messages are delivered once, in order and stay intact",
  "Each well-formed datagram received by a transport is delivered to the application exactly once and in arrival order, malformed ones are skipped without disturbing the others, and the receiver reports its socket's error exactly once and then closes both channels. A delivered message never changes afterwards: later datagrams do not alter its headers, extension headers or body.",
  ["histories", "schedules", "inputs"], "All interleavings of well-formed and malformed datagrams with a slow or fast consumer.",
  "No test runs the receiver; aliasing with the receive buffer needs at least two datagrams and a consumer that holds on to the first.",
  ["dialog/receiver.go", "sip/msg_parse.rl", "sip/msg_parse.go"], [("ReceiveMessages", "dialog/receiver.go ReceiveMessages")], ["Transport.C", "Transport.E"])

p("C13", "Responses travel back to where the request came from",
  "For a request received over a transport, whatever its Via says about host, port and rport, the response built for it and sent through the transport is delivered to the UDP address the request came from (unless the request itself already carries received or a filled-in rport, which then govern). The request's topmost Via is annotated with received when its host differs from the source address and with rport when its port differs, existing values are never overwritten, and responses and other Vias are left alone. (When responses are routed, a topmost Via naming the transport itself is passed over if another follows.)",
  ["inputs", "configurations"], "All combinations of Via host/port (present, absent, true, false), rport (absent, empty, filled), received and NAT address.",
  "No test covers the receive path or response routing.",
  ["dialog/receiver.go", "dialog/route.go", "dialog/transport.go"], [("addReceived", "dialog/receiver.go addReceived"), ("RouteMessage", "dialog/route.go RouteMessage")], ["socket on which the response arrives", "message delivered by Transport.C"])

p("C14", "Requests visit their route set in order",
  "A request is sent to the first remaining route (after removing our own entry) if that is a loose router, leaving request URI and route set unchanged; if it is a strict router the request URI becomes that route and the original request URI is appended to the end of the route set; without routes it is sent to the request URI, with port 5060 when none is given. On reception an element removes its own topmost route and undoes strict routing, so that through any chain of loose and strict routers a request visits all of them in order and arrives with its original request URI; REGISTER with routes is refused.",
  ["inputs", "configurations"], "All route sets (lengths, loose/strict mixes, own address first or not) and chains of elements.",
  "No test covers routing.",
  ["dialog/route.go", "dialog/receiver.go", "dialog/transport.go"], [("RouteMessage", "dialog/route.go RouteMessage"), ("fixMessagesFromStrictRouters", "dialog/receiver.go"), ("own Route removal", "dialog/receiver.go ReceiveMessages")], ["destination socket and message received there"])

p("C15", "Outgoing requests are completed, never altered, with fresh identifiers",
  "Sending a request fills in whatever mandatory field is missing (Via, Contact, To, From, Call-ID, CSeq with method, Max-Forwards 70, User-Agent, a Via branch with the RFC 3261 magic cookie, a From tag) and leaves every field that was supplied untouched apart from the hop counter; responses are not touched. Generated branches, tags and Call-IDs are well-formed and unique: distinct requests never share a generated branch, Call-ID or tag, and completing one message never changes the transport or another message.",
  ["inputs", "histories"], "All subsets of supplied/missing fields and all sequences of messages sent through one transport.",
  "No test calls PopulateMessage or Transport.Send, and sharing only shows with two messages.",
  ["dialog/route.go", "dialog/transport.go", "dialog/messages.go", "util/util.go"], [("PopulateMessage", "dialog/route.go PopulateMessage"), ("NewRequest", "dialog/messages.go"), ("Generate*", "util/util.go")], ["message after PopulateMessage/Send", "bytes on the wire"])

p("C16", "Derived messages keep the dialog's identity and match correctly",
  "Messages derived from others (response, ACK, CANCEL, BYE, new request) carry over exactly the identifiers RFC 3261 prescribes, use the standard reason phrase of their status, and advance the local CSeq only for BYE. A response matches a request if and only if CSeq number, CSeq method, originating Via host/port and branch all agree; an ACK matches if and only if it is an ACK request with the same CSeq number, CSeq method ACK and the same Via host/port; a port that is left out counts as 5060. (What an absent branch on both sides means is left open.)",
  ["inputs"], "All combinations of agreeing and disagreeing fields, via lists, record routes and statuses.",
  "No test calls these constructors or predicates.",
  ["dialog/messages.go", "sip/via.go", "sip/addr.go", "sip/status.go"], [("New*", "dialog/messages.go"), ("ResponseMatch/AckMatch", "dialog/messages.go"), ("CompareHostPort/CompareBranch", "sip/via.go"), ("Reversed", "sip/addr.go")], ["returned messages and booleans"])

p("C17", "SIP messages survive serialisation",
  "Serialising a message and parsing the bytes yields an equal message: start line, every header field the message type can hold including extension headers, list order, and body, with Content-Length equal to the body's length. Serialising the parse result again yields the same bytes, and every message that parses and has the mandatory headers (From, To, Call-ID, CSeq, Via) can be re-serialised to something that parses to an equal message. (A request without a hop count is written with 70, responses carry none; an empty reason phrase becomes the standard one.)",
  ["inputs"], "All representable messages: any subset of headers, any list lengths, any body.",
  "The tests compare about forty fixed texts one way (parse); nothing serialises a whole message and parses it back.",
  ["sip/msg.go", "sip/msg_parse.rl", "sip/msg_parse.go", "sip/via.go", "sip/addr.go", "sip/xheader.go"], [("Msg.Append", "sip/msg.go"), ("ParseMsg", "sip/msg_parse.go")], ["bytes and parsed message"])

p("C18", "The SIP parser is total and strict",
  "For every byte string (bytes that follow the message after an empty body are ignored) the parser terminates without panicking and returns either a message or an error, never both or neither. It rejects messages with a broken start line, a header section that is not terminated by an empty line, broken header syntax, a Content-Length that disagrees with the body, or a number that does not fit its field; numbers it accepts have exactly the value written.",
  ["inputs"], "All byte strings; in particular all small mutations (deletion, duplication, substitution, truncation) of valid messages.",
  "The tests contain a handful of malformed messages; strictness quantifies over all mutations.",
  ["sip/msg_parse.rl", "sip/sip.rl", "sip/msg_parse.go", "sip/uri_parse.rl", "sip/uri_parse.go"], [("ParseMsg", "sip/msg_parse.go"), ("ParseURI", "sip/uri_parse.go")], ["result of the parser"])

p("C19", "Equivalent spellings of a message parse to the same thing",
  "Header names are recognised in any letter case and by their RFC 3261 compact form, lists may be given as repeated headers, comma-separated or mixed, optional whitespace and folded lines may appear around separators, parameter values may be quoted or not, and addresses may omit the angle brackets. All such spellings of one message parse to the same message, and a header affects only its own field.",
  ["inputs"], "All presentational variants of all headers, in all combinations.",
  "The tests contain a few spacing examples per construct; compact forms are tested for a few headers only and cross-talk between fields is not tested.",
  ["sip/sip.rl", "sip/msg_parse.go"], [("header name machines", "sip/sip.rl"), ("via/addr machines", "sip/sip.rl")], ["parsed message"])

p("C20", "SIP URIs survive escaping and parsing",
  "Serialising a URI and parsing it yields an equal URI for any scheme, user, password, host (name, IPv4, IPv6), port, parameters and headers, whatever bytes user, password, parameters and headers contain: bytes that would change the structure are percent-escaped and come back unescaped. Parameter and header order is preserved, lookups by name ignore case, malformed URIs and out-of-range ports are rejected, and the default port is 5061 for sips and 5060 otherwise.",
  ["inputs"], "All byte values in every URI component.",
  "The tests use about a dozen fixed URIs.",
  ["sip/uri.go", "sip/uriparam.go", "sip/uriheader.go", "sip/escape.go", "sip/charsets.go", "sip/uri_parse.rl", "sip/uri_parse.go"], [("URI.Append", "sip/uri.go"), ("ParseURI", "sip/uri_parse.go"), ("appendEscaped", "sip/escape.go")], ["bytes and parsed URI"])

p("C21", "Display names and parameters cannot alter a header's structure",
  "Any display name or parameter value made of printable ASCII, and any parameter name made of token characters, survives serialisation and parsing of an address or Via header unchanged, being quoted and backslash-escaped exactly when needed. Text that cannot be represented (line breaks, invalid bytes) is cut off at that point and illegal characters in names are dropped, so that no value can ever add a parameter, an address or a header line.",
  ["inputs"], "All strings as display name, parameter name and parameter value, in any number and combination.",
  "The tests quote seven fixed strings.",
  ["sip/quote.go", "sip/param.go", "sip/addr.go", "sip/via.go", "sip/charsets.go"], [("appendQuoted", "sip/quote.go"), ("appendSanitized", "sip/quote.go")], ["bytes and parsed header"])

p("C22", "SDP session descriptions survive serialisation",
  "Serialising a representable session description (non-empty session name, distinct payload types, at most one direction) and parsing it yields an equal description: origin, session name, time, connection address (IPv4 or IPv6), audio and video media with port, protocol and ordered codecs (rate, parameters, format parameters), packet time, direction and all unrecognised attributes and lines in order. Serialising the parse result again yields the same bytes.",
  ["inputs"], "All descriptions with any combination of optional parts.",
  "The tests use six fixed descriptions.",
  ["sdp/sdp.go", "sdp/media.go", "sdp/codec.go", "sdp/origin.go"], [("SDP.Append", "sdp/sdp.go"), ("Parse", "sdp/sdp.go")], ["bytes and parsed description"])

p("C23", "SDP is interpreted by the rules and bad SDP is rejected",
  "Payload types keep their order of preference; an rtpmap overrides the standard codec of a static payload type, static types without rtpmap get their registered codec, format parameters attach to exactly their payload type, and the first connection line wins. A description without version, origin, connection or any audio/video media, with an unknown static or an unmapped dynamic payload type, a malformed rtpmap, a multicast or non-internet address, or an out-of-range port or payload type is rejected; anything else unrecognised is skipped or kept, and no input makes the parser panic.",
  ["inputs"], "All combinations and orders of media, rtpmap, fmtp, connection and attribute lines.",
  "The tests cover six accepted descriptions and no rejection.",
  ["sdp/sdp.go", "sdp/codecs.go"], [("Parse/populateCodecs", "sdp/sdp.go"), ("StandardCodecs", "sdp/codecs.go")], ["parsed description or error"])

p("C24", "RTP and telephone-event headers are bit-exact",
  "Writing an RTP header produces the 12 octets RFC 3550 prescribes (version 2, no extension, no CSRC) appended to the given buffer, and reading them restores every field; the same holds for the 4-octet telephone-event header. Reading rejects packets shorter than 12 octets, with another version or with an extension header, and never reads outside the buffer. DTMF characters and event numbers map one-to-one as in RFC 4733 and everything else is an error.",
  ["inputs"], "All field values and all byte strings.",
  "One header with one set of values is tested.",
  ["rtp/rtp.go", "rtp/dtmf.go"], [("Header.Write/Read", "rtp/rtp.go"), ("EventHeader.Write/Read", "rtp/rtp.go"), ("DtmfToChar/CharToDtmf", "rtp/dtmf.go")], ["bytes and fields"])

p("C25", "The outgoing RTP stream is continuous",
  "Across any mix of audio frames, raw packets and DTMF digits sent on one session, the sequence number increases by exactly one per packet (wrapping at 2^16), the timestamp increases by exactly the number of samples sent before (wrapping at 2^32), the SSRC never changes, and each packet goes to the current peer with the right payload type, no marker on audio, and exactly the µ-law encoding of the frame or the raw data as payload. Without a peer nothing is sent and the stream position does not move.",
  ["histories", "inputs"], "All sequences of sends and peer changes, from any starting position.",
  "No test sends on a session.",
  ["rtp/session.go", "rtp/rtp.go"], [("Session.Send/SendRaw", "rtp/session.go")], ["packets received by the peer"], [("Header", "current RTP header", "Session.Header")])

p("C26", "DTMF digits are sent as well-formed event bursts",
  "Sending a digit emits one RFC 4733 event: packets of the telephone-event payload type that all carry the digit's event code and the same timestamp, the marker on the first packet only, strictly increasing durations, and finally three identical end packets with the end bit and the full duration; audio sent afterwards has no marker. An invalid digit is an error, sends nothing and changes nothing.",
  ["inputs", "histories"], "All 256 digit bytes and all sequences of digits and audio, with write failures.",
  "No test sends DTMF.",
  ["rtp/session.go"], [("SendDTMF", "rtp/session.go")], ["packets received by the peer"])

p("C27", "Received audio is delivered faithfully, one frame at a time",
  "The session delivers exactly the well-formed 20 ms µ-law packets, decoded sample by sample, once each and in arrival order, whatever other packets (wrong version, payload type, size, extension, truncated) arrive in between. A delivered frame belongs to the application until it is returned: it is not modified meanwhile, and no further frame is delivered before that.",
  ["histories", "schedules", "inputs"], "All interleavings of packet arrivals with the application taking and returning frames.",
  "No test receives on a session.",
  ["rtp/session.go"], [("receiver", "rtp/session.go receiver")], ["Session.C / Session.R"])

p("C28", "RTP sessions open on even ports and always close",
  "A new session listens on an even UDP port between 16384 and 32768 (trying again when a port is taken) or on exactly the port requested. Closing a session completes, releases the socket, ends the receiver and closes the channels no matter what the receiver or the application is doing: idle, with a frame on offer, with a frame held by the application, with packets arriving, or after a receive error was reported; a socket error is reported exactly once.",
  ["schedules", "histories", "configurations"], "All interleavings of Close with reception and with the application holding or not holding a frame.",
  "The only test in this area is empty.",
  ["rtp/session.go"], [("Close/CloseAfterError", "rtp/session.go"), ("Listen", "rtp/session.go")], ["return of Close", "goroutines", "socket"])

p("C29", "µ-law conversion follows G.711 for every sample",
  "Encoding any 16-bit sample gives the G.711 µ-law code: sign and segment and step as defined with bias 132, clipping beyond the largest segment. Decoding gives the code's exact reconstruction value, encoding a reconstruction value gives back a code with the same value, encoding is monotone, and the error never exceeds half the step of the segment (except in the clipped range).",
  ["inputs"], "All 65536 samples and all 256 codes.",
  "The tests encode the 256 reconstruction values and two more samples.",
  ["dsp/dsp_amd64.s", "dsp/dsp.go"], [("LinearToUlaw", "dsp/dsp_amd64.s"), ("UlawToLinear", "dsp/dsp_amd64.s")], ["function results"])

p("C30", "Mixing saturates, covers all samples and touches nothing else",
  "Mixing two frames adds all 160 pairs of samples with saturation at the 16-bit limits and stores the result in the destination. The source and the memory before and after both frames are unchanged, for frames at any memory alignment and also when source and destination are the same frame.",
  ["inputs"], "All sample values and alignments.",
  "One pair of ramps without saturation is tested at one alignment.",
  ["dsp/dsp_amd64.s", "dsp/dsp.go"], [("L16MixSat160", "dsp/dsp_amd64.s")], ["memory after the call"])

p("C31", "Copies of messages are independent",
  "A copy of a message, address, Via or URI serialises identically to the original, and afterwards changing any header part of the copy (including parameters, list elements and display names) never shows in the original, nor the other way round.",
  ["inputs", "histories"], "All parts of a message and all sequences of modifications on either side.",
  "No test copies anything.",
  ["sip/msg.go", "sip/addr.go", "sip/via.go", "sip/uri.go", "sip/param.go"], [("Copy", "sip/msg.go, sip/addr.go, sip/via.go, sip/uri.go")], ["serialised original and copy"])

p("C32", "The next hop is resolved by the rules",
  "A numeric host is contacted at the given port or 5060; a name with an explicit port, or when service lookup is not wanted, is resolved to its address at that port or 5060. A name without port is resolved through the sip/udp SRV records in priority order, with all of them as candidates, and falls back to the plain address at 5060 when there are none; an unresolvable name is an error.",
  ["inputs", "configurations"], "All combinations of host form, port, SRV wanted, number and priority of SRV records and lookup failures.",
  "No test resolves anything.",
  ["dialog/route.go"], [("RouteAddress", "dialog/route.go RouteAddress")], ["returned candidate list"])

p("C33", "Comfort noise has the requested level",
  "The comfort noise generator produces a deterministic sequence of samples that are white, Gaussian and have the requested power, saturating at the 16-bit limits.",
  ["inputs"], "All levels and seeds.",
  "Five samples at one level are tested.",
  ["dsp/awgn.go"], [("AWGN.Get", "dsp/awgn.go")], ["samples"])

p("C34", "Work done side by side does not interfere",
  "Parsing, writing, copying, completing, deriving, routing and matching messages and session descriptions, and handling media packets and samples, in several goroutines at once on different objects gives each the result it has alone, and identifiers generated side by side all differ. Messages sent through one transport from several goroutines, while others arrive at it, each leave once, whole and to their own destination, and those that arrive are each delivered once and whole. Transports, media sessions and calls running at the same time in one process each behave as they do alone.",
  ["schedules", "inputs"], "All inputs and all interleavings of independent pieces of work.",
  "Hardly any test does two things at once, and none looks for interference.",
  ["sip/msg_parse.rl", "sip/msg.go", "sdp/sdp.go", "dialog/transport.go", "dialog/receiver.go", "dialog/dialog.go", "rtp/session.go", "util/util.go"], [("ParseMsg", "sip/msg_parse.rl"), ("Transport.Send", "dialog/transport.go"), ("ReceiveMessages", "dialog/receiver.go"), ("Generate*", "util/util.go")], ["what each piece of work gives", "datagrams", "messages delivered"])
p("C35", "Helpers say what addresses, Vias, parameters and statuses are",
  "For every list of addresses and every list of Vias, the helpers give its length, its last element, its reverse, the first element on its own, or the other list if it is empty, and leave the list as it was; those that return a part return that part. Two addresses, URIs or Vias compare equal exactly when their hosts are the same and their ports, with the default port of the scheme where none is given, are the same; two Vias have the same branch exactly when both have one and it is the same; nothing equals nothing. Looking up a parameter, a URI header or an extension header by name finds it in any case of letters, and nothing if there is none. Adding a tag or a branch adds just that, well formed. Every status code has a reason phrase, and those that RFC 3261 defines have theirs.",
  ["inputs"], "All lists, names and status codes.",
  "Tests use a few of these on one or two values.",
  ["sip/addr.go", "sip/via.go", "sip/uri.go", "sip/param.go", "sip/xheader.go", "sip/status.go"], [("Addr.*", "sip/addr.go"), ("Via.*", "sip/via.go"), ("URI.*", "sip/uri.go"), ("Phrase", "sip/status.go")], ["results of the helpers", "the lists afterwards"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
