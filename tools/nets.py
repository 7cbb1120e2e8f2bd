"""C11-C15 on the wire: real transports on loopback addresses (NetCompose, NetJudge)."""
import os, socket
from pipe import Pipe

KINDS = {
    "C11": [("junk", 200, 4000, 25)],
    "C12": [("seq", 128, 3000, 16)],
    "C13": [("reply", 5760, 5760, 720), ("reply6", 720, 720, 180)],
    "C14": [("chain", 1152, 1152), ("reply", 1440, 5760, 360)],
    "C15": [("send", 400, 12000)],
}


try:  # where there is no IPv6, it cannot be tried
    with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as s:
        s.bind(("::1", 0))
except OSError:
    KINDS["C13"] = KINDS["C13"][:1]


def died(c, how, err):
    c["res"] = {"state": how, "note": err}
    return c


PIPE = Pipe("Net", "tportdrv", KINDS, died, slices=(140, 500))
os.environ.setdefault("OCT", str(os.getpid() % 240 + 10))
