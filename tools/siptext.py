"""C17-C21: the text of SIP messages (SipRef, SipGen, SipCompose, SipJudge)."""
from pipe import Pipe

# Which cases a property looks at: (kind, quick count, thorough count).
KINDS = {
    "C17": [("msg", 1000, 30000), ("damage", 300, 10000), ("text", 300, 12000), ("via", 400, 12000), ("ctype", 300, 8000), ("utf8", 640, 7680)],
    "C18": [("damage", 1600, 60000)] + [(p, 600, 15000) for p in ("cseq", "len", "start", "status", "text", "hname", "viahead")] + [("utf8", 640, 7680), ("giant", 96, 2400)],
    "C19": [("msg", 700, 20000), ("name", 700, 20000), ("damage", 200, 10000)] +
           [(p, 600, 15000) for p in ("disp", "par", "via", "viahead", "hname")],
    "C20": [("uri", 2000, 60000)] + [(p, 1500, 30000) for p in ("ustr", "urihost", "uripar")],
    "C21": [("addr", 1800, 60000), ("utf8", 1280, 7680)],
}


def extra(kind, cases):
    """The message of a compose case is also built and written."""
    res = []
    for c in cases:
        res.append(c)
        if kind == "msg":
            res.append({"id": c["id"] + 5000000, "op": "build", "msg": c["msg"]})
    return res


def died(c, how, err):
    none = {"state": "none", "note": "", "port": 0, "found": [], "out": []}
    dead = dict(none, state=how, note="process died: " + err)
    c.setdefault("txt", [])
    c.update(built=dead if c["op"] in ("build", "quote", "uribuild") else none, one=dead, two=none)
    return c


def show(rec):
    return "%r -> %s %s" % (bytes(rec.get("txt") or rec["built"]["out"]), rec["one"]["state"], rec["one"]["note"])


class SipPipe(Pipe):
    def tally(self, ck, kind, recs):
        ck.count("parsed_" + kind, sum(r["one"]["state"] == "ok" for r in recs))


PIPE = SipPipe("Sip", "sipdrv", KINDS, died, extra, show)
