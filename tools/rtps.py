"""C24-C30, C33: media (RtpRef, RtpSettled, RtpCompose, RtpJudge; RtpRecv checked by TLC)."""
import lib
from pipe import Pipe

WAYS, ALLWAYS, SHORTS = 1852, 33739, 1728
KINDS = {
    "C24": [("hdr", 1024, 30000, 512), ("read", 4000, 65536, 1000), ("event", 1024, 20000, 512), ("chars", 256, 256, 256)],
    "C25": [("short", SHORTS, SHORTS), ("send", 900, 20000), ("digits", 256, 256)],
    "C26": [("digits", 256, 2560), ("short", SHORTS, SHORTS), ("send", 600, 20000)],
    "C27": [("ways", WAYS, WAYS), ("walk", 600, 12000), ("storm", 300, 10000), ("allways", 0, ALLWAYS)],
    "C28": [("slam", 40, 400, 5), ("ways", WAYS, WAYS), ("walk", 300, 6000), ("storm", 600, 20000), ("ports", 3, 24, 1), ("asked", 16, 200, 16), ("allways", 0, ALLWAYS)],
    "C29": [("ulaw", 129, 129, 17)],
    "C30": [("mix", 1024, 16384, 128)],
    "C33": [("noise", 400, 20000, 50)],
}


def died(c, how, err):
    c["res"] = {"state": how, "note": err}
    return c


class RtpPipe(Pipe):
    def check(self, ck):
        if ck.pid in ("C27", "C28"):
            r = lib.tlc("RtpRecv", "MCRtpRecv.cfg", workers=4, timeout=1500, heap="4g")
            if not r.ok:
                raise lib.Infra("TLC: the model of the receiver: %s" % lib.tail(r.out))
            ck.note("model_states", r.distinct)
        super().check(ck)


def show(rec):
    t = str({k: v for k, v in rec.items() if k not in ("res", "pkts")})
    return t[:700] + " -> " + str(rec["res"])[:700]


PIPE = RtpPipe("Rtp", "rtpdrv", KINDS, died, show=show)
