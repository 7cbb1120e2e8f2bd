"""Which code decides which property."""
import dialog, hostile, msgs, nets, rtps, sdps, siptext, together

CHECKS = {}
NOT_APPLICABLE = {}


def _dialog_replay(pid, obj):
    ok, rec, why = dialog.replay(obj, dialog.MASK[pid])
    return ok, "accepted" if ok else why


for _p in dialog.MASK:
    CHECKS[_p] = {"run": dialog.check, "replay": _dialog_replay, "level": "model_checking",
                  "technique": "TLA+ call model checked with TLC; its schedules replayed on real calls; TLC trace validation of the recordings",
                  "note": "Exhaustive on the model for each suite's alphabet; on the code, one schedule per class of model transition plus random ones, over real sockets. Trusts the recorder and the loopback network.",
                  "assumptions": ["loopback UDP delivers in order per socket pair and without loss"]}

for _p in siptext.KINDS:
    CHECKS[_p] = {"run": siptext.PIPE.check, "replay": siptext.PIPE.replay, "level": "exploration",
                  "technique": "TLA+ reference grammar of RFC 3261 (SipRef) and message generator (SipGen) checked against each other with TLC; TLC-made cases run through the code and judged by TLC",
                  "note": "Sampled: seeded cases, each a function of its number. The reference grammar leaves some oddities open (verdicts MAY and ANY).",
                  "assumptions": ["what RFC 3261 leaves open is left open (SipRef verdicts MAY and ANY)"]}



def several(*pipes):
    """A check made of several pipelines; the replay file says which one by what its case looks like."""
    def run(ck):
        for _, p in pipes:
            p.check(ck)

    def replay(pid, obj):
        for mine, p in pipes:
            if mine(obj):
                return p.replay(pid, obj)
    return {"run": run, "replay": replay}


_NET = (lambda o: o.get("op") in ("net", "send", "chain"), nets.PIPE)
_MSG = (lambda o: True, msgs.PIPE)
_CALL = (lambda o: "steps" in o and "cfg" in o, hostile.PIPE)

_AREA = {
    "C11": ([_CALL, _NET], "Calls: every kind of message with every single edit of an alphabet at every stage (thorough), a stride of them (quick), then random ones. Transports: sampled garbage between valid messages."),
    "C12": ([_NET], "Sampled sequences of datagrams of all sizes over a real socket."),
    "C13": ([_NET, _MSG], "Every combination of its alphabet of Via hosts, ports, rport and received, source ports and Via counts, over real sockets."),
    "C14": ([_NET, _MSG], "Every combination of its alphabet of routes, targets and own addresses, and chains of up to four routers over real sockets."),
    "C15": ([_MSG, _NET], "All combinations of missing fields, then sampled messages, and sampled messages sent through a real transport."),
    "C16": ([_MSG], "All combinations of an alphabet for matching; sampled messages for the rest."),
    "C31": ([_MSG], "Sampled messages; every mutable place of each."),
    "C32": ([_MSG], "Every combination of its alphabet of hosts, ports and DNS answers, against a DNS server of the harness."),
    "C35": ([_MSG], "Sampled lists of addresses, Vias and parameters over small alphabets, and every status code from 100 to 699."),
}
for _p, (_pipes, _note) in _AREA.items():
    CHECKS[_p] = dict(several(*_pipes), level="exploration", note=_note, assumptions=[] if _pipes == [_MSG] else ["loopback UDP delivers in order per socket pair and without loss"],
                      technique="TLA+ definitions of receiving, routing, completion, derivation and matching (MsgSpec over SipRef); TLC makes the cases, the code runs them, TLC judges the recordings")

for _p, _note in (("C22", "Sampled descriptions, plus every combination of two payload types with their maps and formats."),
                  ("C23", "Every line of a list in every place of a description, every combination of two payload types with their maps and formats, then sampled edits.")):
    CHECKS[_p] = {"run": sdps.PIPE.check, "replay": sdps.PIPE.replay, "level": "exploration", "note": _note, "assumptions": [],
                  "technique": "TLA+ meaning of session descriptions (SdpRef) and a generator checked against it with TLC; TLC-made cases run through the code and judged by TLC"}

_MEDIA = "TLA+ definition (RtpRef); TLC makes the cases, the code runs them, TLC judges the recordings"
_STREAM = "TLA+ transitions of the sending side of a session (RtpRef); TLC makes histories, real sessions send them to real sockets, TLC replays the recordings on the transitions"
_SESSION = "TLA+ model of receiver, application and Close (RtpRecv) checked with TLC, safety and liveness, against its settled states (RtpSettled); TLC-made histories run on real sessions and judged by TLC"
for _p, _tech, _level, _note in (
        ("C24", _MEDIA, "exploration", "Every payload type with every flag, every first and second octet, every event and character; sampled for the rest."),
        ("C25", _STREAM, "exploration", "Every sequence of three operations of an alphabet of twelve, then sampled longer histories, from positions about to wrap."),
        ("C26", _STREAM, "exploration", "Every digit byte, every sequence of three operations, then sampled longer histories, with write failures before and within a burst."),
        ("C27", _SESSION, "model_checking", "The model: all interleavings of seven operations. The code: every history of the model of up to five operations (thorough: seven), then random longer ones, then races."),
        ("C28", _SESSION, "model_checking", "The model: all interleavings of seven operations, Close anywhere. The code: every history of the model of up to five operations (thorough: seven), then random longer ones, then races."),
        ("C29", _MEDIA, "exploration", "Exhaustive: all 65536 samples and all 256 codes; TLC also checks the laws on the definition."),
        ("C30", _MEDIA, "exploration", "All relative alignments and placements, also at the edges of the memory; sampled and boundary samples."),
        ("C33", "TLA+ definition of the statistics in integers (RtpRef, RtpJudge); TLC makes levels and seeds, the code makes the noise, TLC measures it", "exploration",
         "Sampled levels and seeds, 4096 samples each; bounds are about five standard deviations, so that small deviations go unnoticed.")):
    CHECKS[_p] = {"run": rtps.PIPE.check, "replay": rtps.PIPE.replay, "level": _level, "note": _note, "technique": _tech,
                  "assumptions": ["loopback UDP delivers in order and without loss"] if _p in ("C25", "C26", "C27", "C28") else []}

CHECKS["C34"] = {"run": together.check, "replay": together.replay, "level": "exploration",
                 "technique": "TLA+ model of work side by side (Together) checked with TLC, also against its sharing variant; the cases of the other specifications run in many goroutines at once and judged by the same TLA+ definitions",
                 "note": "Schedules are the Go scheduler's; a failure counts when it comes back side by side and does not happen alone.",
                 "assumptions": ["loopback UDP delivers in order per socket pair and without loss"]}
