"""C22, C23: session descriptions (SdpRef, SdpCompose, SdpJudge)."""
from pipe import Pipe

PLACES, TABLES = 2440, 3136
KINDS = {
    "C22": [("build", 1200, 40000), ("spell", 300, 6000), ("lines", 600, 10000), ("tables", TABLES, TABLES, 800), ("new", 200, 6000), ("bare", 250, 6000)],
    "C23": [("places", PLACES, PLACES, 700), ("tables", TABLES, TABLES, 800), ("spell", 500, 10000), ("lines", 1200, 40000), ("damage", 1200, 40000)],
}


def died(c, how, err):
    none = {"state": "none", "note": "", "out": []}
    c.update(built=none, copy=none, one=dict(none, state=how, note=err), two=none)
    return c


class SdpPipe(Pipe):
    @staticmethod
    def case_of(rec):
        return {k: v for k, v in rec.items() if k not in ("built", "copy", "one", "two")}

    def tally(self, ck, kind, recs):
        ck.count("parsed_" + kind, sum(r["one"]["state"] == "ok" for r in recs))


def show(rec):
    t = rec["built"]["out"] if rec["op"] != "parse" else rec["txt"]
    return "%r -> %s %s" % (bytes(t), rec["one"]["state"], rec["one"]["note"])


PIPE = SdpPipe("Sdp", "sdpdrv", KINDS, died, show=show)
