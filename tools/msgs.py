"""C14-C16, C31, C32, C35 and part of C13: what the dialog package does to messages (MsgSpec)."""
from pipe import Pipe

KINDS = {
    "C13": [("reply", 648, 648)],
    "C14": [("route", 4608, 4608)],
    "C15": [("populate", 2048, 30000), ("ids", 4, 60), ("route", 4608, 4608)],
    "C16": [("derive", 900, 20000), ("match", 7776, 7776)],
    "C31": [("copy", 160, 4000)],
    "C32": [("resolve", 648, 648)],
    "C35": [("lists", 1200, 20000)],
}


def died(c, how, err):
    for k in ("via", "contact", "addrs"):
        c.setdefault(k, [])
    c["res"] = {"state": how, "note": err}
    return c


PIPE = Pipe("Msg", "msgdrv", KINDS, died)
