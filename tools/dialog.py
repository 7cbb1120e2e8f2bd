"""C01-C10: schedules from MCDialog, played by dialogdrv, judged by TraceDialog."""
import json, os, random, re, subprocess, concurrent.futures as cf
import lib
from lib import Infra

NOURI = {"u": "", "a": "", "lr": False}


def U(u, a, lr=False):
    return {"u": u, "a": a, "lr": lr}


def resp(st, contact=None, tag="rt1", rr=(), sdp="", m="", dcs=0, bad=""):
    return {"st": st, "m": m, "dcs": dcs, "bad": bad, "contact": contact or NOURI, "tag": tag, "rr": list(rr), "sdp": sdp}


def req(m, base=5, dcs=1, mf=70, contact=None, rr=(), sdp="", bad=""):
    return {"m": m, "base": base, "dcs": dcs, "bad": bad, "mf": mf, "contact": contact or NOURI, "rr": list(rr), "sdp": sdp}


BASE = dict(uri=U("bob", "s1"), route=[], cseq=7, mf=0, totag="", max=1, srv={"none": []}, host={"none": "s1"}, undial=[],
            refuse=[], servers=["s1", "s2", "s3"], oldatt=False, ticks=False, kill=False, noise=False, hangups=1, redirs=1,
            maxatt=3, depth=0, maxrseq=7, hist=True, histmax=7, resps=[], reqs=[])

OK = resp(200, U("bob", "s1"), sdp="p1")
S = {}


def suite(name, timers=False, loose=False, chatty=False, **kw):
    k = dict(BASE)
    k.update(kw)
    k["name"], k["timers"], k["loose"], k["chatty"] = name, timers, loose, chatty
    S[name] = k


# --- progress, acknowledgement, repeated answers
suite("progress", reqs=[req("BYE"), req("INVITE", contact=U("bob2", "s2"), sdp="p2"), req("ACK", dcs=0)],
      resps=[resp(100, tag=""), resp(180, sdp="p2"), resp(183, sdp="p3"), OK, resp(200, U("eve", "s3"), tag="rt2", sdp="p4"), resp(486)])
suite("finals", hangups=1, uri=U("bob", "s1"), histmax=5,
      resps=[resp(180), OK, resp(200), resp(202, U("bob", "s1")), resp(299), resp(300, U("x", "s2")), resp(305), resp(404, U("n", "s2"), rr=[U("p", "s3", True)]),
             resp(487, rr=[U("p", "s3", True), U("q", "s2", True)]), resp(500), resp(600), resp(699), resp(199), resp(401), resp(407), resp(408)],
      reqs=[req("BYE")])
suite("route", route=[U("px", "s2", True), U("py", "s3", True)], histmax=6,
      resps=[resp(180, rr=[U("p1", "s2", True)]), resp(200, U("bob", "s3"), rr=[U("p1", "s2", True), U("p2", "s1", True)], sdp="p1"),
             resp(200, U("bob", "s1"), rr=[U("p1", "s3"), U("p2", "s1")], sdp="p1"), resp(486, rr=[U("p1", "s2", True), U("p2", "s1", True)])],
      reqs=[req("INVITE", contact=U("moved", "s1"), rr=[U("zz", "s3", True)], sdp="p2"), req("BYE", rr=[U("zz", "s3", True), U("yy", "s1", True)])])
suite("strict", route=[U("px", "s2"), U("py", "s3")], histmax=6,
      resps=[resp(180), resp(200, U("bob", "s3", True), rr=[U("p1", "s2"), U("p2", "s1", True)], sdp="p1"),
             resp(302, U("carol", "s1")), resp(486)],
      reqs=[req("INVITE", contact=U("moved", "s1")), req("BYE")])
# --- failover
suite("failover", uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3"]}, host={"n1": "s1", "n2": "s2", "n3": "s3", "dom": "s1"}, redirs=0,
      resps=[resp(100, tag=""), resp(180, U("early", "s3"), tag="et1", rr=[U("e1", "s3", True)]), OK, resp(503), resp(486)], reqs=[req("BYE")], histmax=7)
suite("failover2", uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3", "n4"]}, undial=["n2"],
      host={"n1": "s1", "n3": "s2", "n4": "s3", "dom": "s3"}, refuse=["s2"], redirs=0, kill=True,
      resps=[resp(180), OK, resp(503), resp(500)], reqs=[req("BYE")], histmax=6)
suite("failover3", uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n1"]}, host={"n1": "s1", "n2": "s2", "dom": "s1"}, oldatt=True,
      resps=[resp(180), OK, resp(503), resp(302, U("carol", "n2")), resp(200)], reqs=[], histmax=6, redirs=1)
suite("failover4", uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3"]}, refuse=["s1", "s2"], undial=[],
      host={"n1": "s1", "n2": "s2", "n3": "s3", "dom": "s1"}, resps=[resp(180), OK, resp(503)], reqs=[req("BYE")])
suite("failover5", uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3"]}, refuse=["s1", "s2", "s3"],
      host={"n1": "s1", "n2": "s2", "n3": "s3", "dom": "s1"}, resps=[resp(503)])
suite("failover6", uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3", "n4", "n5", "n6", "n7"]}, maxatt=8, histmax=11, hangups=0, undial=["n4"],
      host={"n1": "s1", "n2": "s2", "n3": "s3", "n5": "s2", "n6": "s1", "n7": "s3", "dom": "s1"}, resps=[OK, resp(503)])
suite("undial", uri=U("bob", "dom"), srv={"dom": ["n1", "n2"]}, undial=["n1", "n2"], host={"dom": "s1"}, resps=[OK])
suite("unresolvable", uri=U("bob", "n9"), undial=["n9"], resps=[OK])
suite("plainname", uri=U("bob", "n2"), host={"n2": "s2"}, resps=[resp(180), resp(503), resp(200, U("bob", "n2"), sdp="p1"), resp(302, U("carol", "n2"))],
      reqs=[req("BYE")], histmax=6)
# --- redirects
suite("redirect", route=[U("px", "s1", True)], redirs=3, maxatt=5, histmax=7,
      resps=[resp(302, U("carol", "s2")), resp(301, U("dave", "s3", True)), resp(302), resp(183, U("early", "s3"), tag="et1"), resp(200, U("bob", "s2"), sdp="p1"), resp(503)],
      reqs=[])
suite("redirect2", redirs=2, uri=U("bob", "dom"), srv={"dom": ["n1", "n2"], "dom2": ["n3", "n2"]},
      host={"n1": "s1", "n2": "s2", "n3": "s3", "dom": "s1", "dom2": "s3"}, undial=["n8"], histmax=6, oldatt=True,
      resps=[resp(302, U("carol", "dom2")), resp(301, U("erin", "n8")), resp(200, U("bob", "s2"), sdp="p1"), resp(503), resp(180)], reqs=[])
suite("redirect3", redirs=9, maxatt=9, mf=4, histmax=8, resps=[resp(302, U("carol", "s2")), resp(301, U("dave", "s1")), OK])
suite("redirect4", histmax=6, resps=[OK, resp(302, U("carol", "s2")), resp(301), resp(302, U("carol", "s2"), m="BYE"), resp(200, m="BYE")],
      reqs=[req("INVITE", contact=U("moved", "s3"))])
# --- hangup
suite("hangup", hangups=2, route=[U("px", "s2", True)], oldatt=True,
      resps=[resp(180, U("early", "s1"), tag="et1", rr=[U("e1", "s3", True)]), resp(200, U("bob", "s3"), rr=[U("p1", "s1", True), U("p2", "s2", True)], sdp="p1"), resp(200, U("eve", "s1"), tag="rt2", rr=[]),
             resp(200), resp(481), resp(487), resp(100), resp(503)],
      reqs=[req("INVITE", contact=U("moved", "s1"), sdp="p2", rr=[U("zz", "s3", True)]), req("BYE")], histmax=6)
suite("hangup2", hangups=3, totag="mytag", cseq=41, route=[U("px", "s1"), U("py", "s2", True)],
      resps=[resp(180, U("early", "s1")), resp(200, U("bob", "s3", True), tag="", sdp="p1"), resp(200), resp(302, U("c", "s2")), resp(501, m="CANCEL"), resp(200, m="CANCEL")], reqs=[], histmax=6)
suite("refresh", hangups=1, histmax=6, maxrseq=9,
      resps=[OK, resp(200, U("bob", "s3", True), rr=[U("p1", "s2", True)], sdp="p1"), resp(180)],
      reqs=[req("INVITE", contact=U("moved", "s2")), req("INVITE", contact=U("back", "s1", True), sdp="p2", rr=[U("zz", "s3", True)]), req("INVITE"),
            req("INVITE", contact=U("old", "s3"), dcs=-1), req("OPTIONS", contact=U("opt", "s2")), req("INVITE", contact=U("same", "s2"), dcs=0)])
# --- requests of the remote party
suite("requests", hangups=1, histmax=5,
      reqs=[req("BYE"), req("OPTIONS"), req("INVITE", contact=U("moved", "s2"), sdp="p2", rr=[U("a", "s3", True), U("b", "s2")]), req("INFO"), req("MESSAGE", dcs=0),
            req("CANCEL"), req("REGISTER", dcs=2), req("NOTIFY", dcs=-1), req("BYE", dcs=-1), req("INVITE", dcs=-2, sdp="p3"), req("ACK", dcs=-1), req("ACK", dcs=0),
            req("OPTIONS", mf=0), req("ACK", mf=0), req("BYE", mf=1), req("OPTIONS", dcs=0)],
      resps=[resp(180), OK])
suite("requests2", hangups=1, histmax=5, maxrseq=9,
      reqs=[req("BYE", mf=0), req("INVITE", mf=0, sdp="p4"), req("INVITE", dcs=0, sdp="p1"), req("REFER"), req("PRACK"), req("UPDATE", sdp="p5"), req("SUBSCRIBE"), req("PUBLISH"),
            req("XYZZY"), req("OPTIONS", dcs=2, rr=[U("a", "s3", True)])],
      resps=[resp(183), OK])
# --- strays
suite("strays", noise=True, hangups=1, histmax=5,
      reqs=[req("BYE", bad="callid"), req("ACK", bad="callid"), req("OPTIONS", bad="callid"), req("INVITE", bad="callid", sdp="p9"), req("INVITE", bad="callid", mf=0),
            req("CANCEL", bad="callid"), req("INVITE", sdp="p2"), req("BYE", bad="version"), req("ACK", bad="version")],
      resps=[resp(180), OK, resp(200, U("x", "s2"), bad="callid", sdp="p9"), resp(200, U("x", "s2"), bad="branch", sdp="p9"), resp(200, U("x", "s2"), bad="host", sdp="p9"),
             resp(200, U("x", "s2"), bad="port", sdp="p9"), resp(200, U("x", "s2"), dcs=1, sdp="p9"), resp(200, U("x", "s2"), dcs=-1, sdp="p9"),
             resp(486, bad="branch"), resp(503, bad="callid"), resp(302, U("c", "s2"), bad="port"), resp(180, bad="version"), resp(183, dcs=1, sdp="p9")])
suite("strays2", noise=True, hangups=1, histmax=5, oldatt=True,
      reqs=[req("BYE")],
      resps=[resp(200, U("x", "s1")), resp(200, U("x", "s2"), bad="branch2", sdp="p9"), resp(200, U("x", "s2"), bad="branch3", sdp="p9"), resp(200, U("x", "s2"), bad="nobranch", sdp="p9"),
             resp(200, U("x", "s2"), bad="noport", sdp="p9"), resp(200, U("x", "s2"), m="BYE", sdp="p9"), resp(200, U("x", "s2"), m="INVITE", sdp="p9"), resp(200, m="OPTIONS"),
             resp(200, m="CANCEL"), resp(487, m="CANCEL"), resp(180, m="BYE", sdp="p9"), resp(503), resp(200, U("x", "s3"), bad="via2", sdp="p1")],
      uri=U("bob", "dom"), srv={"dom": ["n1", "n1", "n2"]}, host={"n1": "s1", "n2": "s2", "dom": "s1"})
suite("strays3", hangups=1, histmax=4,
      reqs=[req("BYE", bad="callidsuf"), req("BYE", bad="callidcut"), req("BYE", bad="callidcase"), req("INVITE", bad="callidcase", sdp="p9"), req("INVITE", bad="callidsuf", sdp="p9"),
            req("ACK", bad="callidcut"), req("OPTIONS")],
      resps=[resp(180), OK] + [resp(200, U("x", "s2"), bad=b, sdp="p9") for b in ("callidsuf", "callidcut", "callidcase", "branchpre", "host2")])
suite("strays4", timers=True, ticks=True, max=2, histmax=7, hangups=1,
      reqs=[req("ACK", bad="callid"), req("INVITE", sdp="p2"), req("OPTIONS", bad="callid")],
      resps=[OK, resp(180, bad="branch"), resp(183, dcs=1, sdp="p9"), resp(200, U("x", "s2"), dcs=-1, sdp="p9"), resp(200, m="BYE"), resp(503, bad="callid"), resp(100, bad="port"), resp(486, m="OPTIONS")])
# --- media
suite("media", hangups=1, histmax=6, maxrseq=8,
      reqs=[req("INVITE", sdp="p2"), req("INVITE", sdp="p6", dcs=0), req("INVITE", dcs=-1, sdp="p9"), req("INVITE", sdp="noaudio"), req("OPTIONS", sdp="p9"), req("INVITE"), req("BYE", sdp="p9"), req("INFO", sdp="p9"), req("ACK", dcs=0, sdp="p9")],
      resps=[resp(100, tag="", sdp="p8"), resp(180, sdp="p3"), resp(183, sdp="p4"), OK, resp(183, sdp="noaudio"), resp(183, sdp="novid"), resp(486, sdp="p9"), resp(503, sdp="p9"), resp(202, U("x", "s1"), sdp="p9"), resp(302, U("carol", "s2"), sdp="p9")])
suite("media2", hangups=1, histmax=6, maxrseq=8,
      reqs=[req("INVITE", sdp="p2"), req("INVITE", dcs=-1, sdp="p9"), req("INVITE", sdp="p7"), req("INVITE", sdp="p8")],
      resps=[resp(180, sdp="p3"), resp(180, sdp="p7"), resp(200, U("b", "s1"), sdp="p6"), resp(200, U("b", "s1"), sdp="noaudio"), resp(200, U("b", "s1")), resp(199, sdp="p7"), resp(200, U("x", "s2"), sdp="p9", bad="branch")])
# --- loose signalling
suite("loose", loose=True, histmax=5, oldatt=True, uri=U("bob", "dom"), srv={"dom": ["n1", "n2"]}, host={"n1": "s1", "n2": "s2", "dom": "s1"},
      reqs=[req("BYE"), req("INVITE", sdp="p2", contact=U("moved", "s3")), req("OPTIONS")],
      resps=[resp(180), OK, resp(503), resp(302, U("carol", "s2")), resp(486)])
# --- timers
suite("timers", timers=True, ticks=True, max=2, histmax=8, hangups=1,
      resps=[resp(100, tag=""), resp(180), OK, resp(503), resp(486)],
      reqs=[req("INVITE", sdp="p2", contact=U("m", "s2")), req("ACK", dcs=0), req("OPTIONS"), req("BYE")])
suite("timers2", timers=True, ticks=True, max=1, histmax=9, uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3"]}, hangups=1,
      host={"n1": "s1", "n2": "s2", "n3": "s3", "dom": "s1"}, resps=[resp(100, tag=""), OK, resp(503), resp(180, bad="branch"), resp(302, U("c", "s2"))],
      reqs=[req("OPTIONS")])
suite("timers3", timers=True, ticks=True, max=0, histmax=8, uri=U("bob", "dom"), srv={"dom": ["n1", "n2", "n3"]}, refuse=["s2"],
      host={"n1": "s1", "n2": "s2", "n3": "s3", "dom": "s1"}, resps=[OK, resp(503), resp(180, dcs=1)], reqs=[req("INVITE")])
suite("timers4", timers=True, ticks=True, max=3, mf=3, histmax=8, resps=[OK, resp(180)], reqs=[req("INVITE", sdp="p3"), req("ACK", dcs=-1), req("ACK", dcs=1)])
suite("timers5", timers=True, ticks=True, max=1, histmax=8, kill=True, uri=U("bob", "dom"), srv={"dom": ["n1", "n2"]},
      host={"n1": "s1", "n2": "s2", "dom": "s1"}, resps=[OK, resp(180)], reqs=[req("OPTIONS")])

suite("timers6", timers=True, ticks=True, max=2, histmax=9, hangups=0, maxrseq=8, only_idle=True,
      resps=[OK], reqs=[req("INVITE", sdp="p2"), req("INVITE", dcs=0), req("ACK", dcs=0)])

# --- the same with tracing and timestamps
suite("chatty", chatty=True, hangups=1, histmax=6, uri=U("bob", "dom"), srv={"dom": ["n1", "n2"]}, host={"n1": "s1", "n2": "s2", "dom": "s1"},
      reqs=[req("BYE"), req("INVITE", contact=U("bob2", "s2"), sdp="p2"), req("ACK", dcs=0), req("OPTIONS", bad="callid"), req("BYE", bad="version"), req("INFO", mf=0)],
      resps=[resp(100, tag=""), resp(180, sdp="p2"), OK, resp(503), resp(486), resp(302, U("carol", "s3")), resp(200, bad="branch")])
suite("chatty2", chatty=True, timers=True, ticks=True, max=2, histmax=7, hangups=1, kill=True,
      resps=[resp(180), OK, resp(503)], reqs=[req("INVITE", sdp="p2"), req("ACK", dcs=0), req("OPTIONS")])

MASK = {
    "C01": ["state", "err", "closed"],
    "C02": ["ACK"],
    "C03": ["INVITE", "BYE", "resp", "err"],
    "C04": ["INVITE", "err"],
    "C05": ["INVITE", "ACK", "err", "state"],
    "C06": ["CANCEL", "BYE", "state", "err"],
    "C07": ["resp", "state", "err", "peer", "closed"],
    "C08": ["state", "err", "peer", "closed", "resp", "ACK", "INVITE", "BYE", "CANCEL"],
    "C09": ["peer"],
    "C10": ["state", "err", "closed"],
}
ALL = list(S)
USE = {
    "C01": {"progress": 3, "finals": 1, "failover": 1, "redirect": 1, "hangup": 2, "hangup2": 1, "requests": 1, "media": 1, "timers": 1, "strays2": 1, "redirect2": 1},
    "C02": {"progress": 2, "finals": 3, "route": 3, "strict": 1, "failover": 1, "redirect": 2, "hangup": 2, "strays": 1, "strays2": 2, "timers": 1, "failover3": 1, "media2": 1},
    "C03": {"strays4": 1, "timers": 4, "timers2": 3, "timers3": 2, "timers4": 2, "timers5": 2, "timers6": 2, "progress": 1, "hangup": 1},
    "C04": {"failover": 4, "failover2": 3, "failover3": 3, "failover4": 1, "failover5": 1, "failover6": 2, "undial": 1, "unresolvable": 1, "plainname": 1, "redirect2": 2, "strays2": 1, "timers2": 2, "timers3": 1, "timers5": 1},
    "C05": {"redirect": 3, "redirect2": 3, "redirect3": 2, "redirect4": 3, "failover3": 1, "strict": 1, "hangup2": 1, "plainname": 1, "timers2": 1},
    "C06": {"refresh": 3, "hangup": 4, "hangup2": 4, "route": 2, "strict": 2, "redirect": 2, "progress": 1, "timers": 1, "redirect2": 1, "failover": 1},
    "C07": {"requests": 4, "requests2": 3, "strays": 1, "media": 1, "route": 1, "timers": 1, "timers4": 1, "loose": 1, "progress": 1},
    "C08": {"strays": 4, "strays2": 4, "strays3": 3, "strays4": 3, "failover3": 1, "redirect2": 1, "loose": 1, "timers2": 1, "hangup2": 1},
    "C09": {"media": 4, "media2": 3, "progress": 1, "strays": 1, "strays2": 1, "requests2": 1, "timers4": 1, "redirect2": 1},
    "C10": {n: 1 for n in ALL},
}
for k, n in (("C01", "chatty"), ("C03", "chatty2"), ("C04", "chatty"), ("C06", "chatty"), ("C07", "chatty"), ("C08", "chatty"), ("C10", "chatty"), ("C02", "chatty")):
    USE[k][n] = 1
for k, v in (("C10", {"failover": 2, "failover2": 2, "hangup": 2, "finals": 2, "requests": 2, "redirect": 2, "timers": 2, "loose": 2}),):
    USE[k].update(v)


def graph(name):
    """TLC: checks the design and returns its transitions as schedules."""
    k = dict(S[name])
    f = lib.dump("K-%s.json" % name, k)
    r = lib.need_ok(lib.tlc("MCDialog.tla", "MCDialogGraph.cfg", env={"K_FILE": f}, workers=1, timeout=800), "suite " + name)
    edges = {}
    for e in r.lines("EDGE"):
        e = json.loads(e)
        edges.setdefault(e["c"], []).append(e["h"])
    return r, edges


def exhaustive(name, depth=0):
    k = dict(S[name], hist=False, histmax=1000, depth=depth)
    f = lib.dump("KX-%s.json" % name, k)
    return lib.need_ok(lib.tlc("MCDialog.tla", "MCDialog.cfg", env={"K_FILE": f}, workers=4, timeout=800), "exhaustive " + name)


MESSAGES = ("resp", "req", "hangup", "garbage", "alien")
CFGKEYS = ["uri", "route", "cseq", "mf", "totag", "max", "srv", "host", "undial", "refuse", "servers"]


def expand(name, hist, rng, sid, burst=False):
    k = S[name]
    steps = []
    loose = k["loose"]
    for kind, ix, x, frm, outs in hist:
        st = {"e": kind, "exp": outs}
        if kind == "resp":
            st.update(k["resps"][ix - 1], **{"from": frm, "att": x})
        elif kind == "req":
            q = dict(k["reqs"][ix - 1])
            q.pop("dcs"), q.pop("base")
            st.update(q, **{"from": frm, "cseq": x})
        elif kind == "kill":
            st["s"] = ix
        if loose and kind in ("resp", "req") and rng.random() < 0.6:
            st["loose"] = True
            if rng.random() < 0.3:
                st["from"] = rng.choice(k["servers"])
        if burst and steps and steps[-1]["e"] in MESSAGES and kind in MESSAGES \
                and (steps[-1]["e"] != "hangup" or rng.random() < 0.3) and st.get("from") == steps[-1].get("from", st.get("from")):
            steps[-1]["nowait"] = True
        steps.append(st)
    cfg = {c: k[c] for c in CFGKEYS}
    if not hist:
        steps = story(k, rng)
    elif not loose and rng.random() < 0.6:
        steps += afterwards(k, steps, rng)
    end = "bye"
    if k["timers"] and (k.get("only_idle") or rng.random() < 0.5):
        end = "idle"
    if not loose and rng.random() < 0.5:
        steps = crowd(steps, rng)
    return {"id": sid, "cfg": cfg, "steps": steps, "end": end, "style": rng.randrange(36), "suite": name, "burst": burst,
            "slow": 0 if k["timers"] or rng.random() < 0.7 else rng.choice([2, 15, 15, 120])}


def story(k, rng):
    """A call that is answered, goes on for a while and is hung up."""
    def some(rs, n):
        return [dict(rng.choice(rs), e="resp", auto=True) for _ in range(n)] if rs else []
    good = [r for r in k["resps"] if r["st"] == 200 and not r["bad"] and r["m"] == "" and r["contact"]["a"]]
    prov = [r for r in k["resps"] if r["st"] < 200]
    out = [{"e": "start", "auto": True}] + some(prov, rng.choice([0, 0, 1, 2])) + some(good, 1)
    last = 0
    for _ in range(rng.choice([1, 2, 2, 3, 4]) if k["reqs"] else 0):
        q = dict(rng.choice(k["reqs"]), e="req", auto=True)
        if q["m"] == "BYE" and not q["bad"] and rng.random() < 0.8:
            continue
        base, dcs = q.pop("base"), q.pop("dcs")
        q["cseq"] = last + dcs if last else base
        if q["cseq"] < 0:
            continue
        last = max(last, q["cseq"])
        out.append(q)
        if rng.random() < 0.15:
            out += some(good, 1)
    out.append({"e": "hangup", "auto": True})
    if k["timers"]:
        out += [{"e": "tick", "auto": True}] * rng.choice([0, 1, 2])
    out += some(k["resps"], rng.choice([0, 1, 2]))
    if rng.random() < 0.3:
        out.append({"e": "hangup", "auto": True})
    return out


def afterwards(k, steps, rng):
    """More of the suite's traffic behind a schedule, to see what it left behind."""
    last = max([s["cseq"] for s in steps if s["e"] == "req"] or [0])
    out = []
    good = [r for r in k["resps"] if r["st"] == 200 and not r["bad"] and r["m"] == ""]
    for _ in range(rng.choice([1, 2, 3, 3, 4, 6])):
        x = rng.random()
        if k["timers"] and x < 0.25:
            out.append({"e": "tick", "auto": True})
        elif x < 0.5:
            out.append({"e": "hangup", "auto": True})
        elif x < 0.65 and good:
            out.append(dict(rng.choice(good), e="resp", auto=True))
        elif k["reqs"] and (x < 0.82 or not k["resps"]):
            q = dict(rng.choice(k["reqs"]), e="req", auto=True)
            base, dcs = q.pop("base"), q.pop("dcs")
            q["cseq"] = last + dcs if last else base
            if q["cseq"] < 0:
                continue
            last = max(last, q["cseq"])
            out.append(q)
        elif k["resps"]:
            out.append(dict(rng.choice(k["resps"]), e="resp", auto=True))
        if out and rng.random() < 0.15:
            out[-1]["nowait"] = True
    return out


def crowd(steps, rng):
    """More traffic: ACKs of another call behind any message, anything behind the last one."""
    out = []
    for i, s in enumerate(steps):
        out.append(s)
        if s["e"] not in ("resp", "req") or s.get("auto"):
            continue
        last = i == len(steps) - 1
        extra = [dict(req("ACK", bad="callid"), e="req", cseq=6, **{"from": s["from"]}) for _ in range(rng.choice([0, 1, 3] if not last else [1, 4]))]
        if last and rng.random() < 0.5:
            extra[-1] = {a: b for a, b in s.items() if a != "exp"}
        for x in extra:
            x.pop("dcs", 0) if x["e"] == "req" else 0
            x.pop("base", 0)
            x.pop("nowait", 0)
        if extra:
            exp, wait = s.get("exp", []), not s.get("nowait")
            s = out[-1] = dict(s, nowait=True, exp=[])
            for x in extra[:-1]:
                x["nowait"] = True
            extra[-1]["exp"] = exp
            if not wait:
                extra[-1]["nowait"] = True
            out += extra
    return out


def scenarios(edges, name, n, rng):
    """A sample of the schedules: every class of transition, then at random."""
    classes = sorted(edges)
    rng.shuffle(classes)
    chosen = []
    left = {c: sorted(edges[c], key=json.dumps) for c in classes}
    for c in classes:
        rng.shuffle(left[c])
    while len(chosen) < n and any(left.values()):
        for c in classes:
            if left[c] and len(chosen) < n:
                chosen.append(left[c].pop())
    # Schedules that are the beginning of another chosen one add nothing.
    keys = sorted(json.dumps(h)[:-1] for h in chosen)
    keep = [a for a, b in zip(keys, keys[1:] + [""]) if not b.startswith(a)]
    res = []
    for i, h in enumerate(keep):
        h = json.loads(h + "]")
        res.append(expand(name, h, rng, i, burst=rng.random() < 0.25))
    if any(r["st"] == 200 and not r["bad"] and r["m"] == "" and r["contact"]["a"] for r in S[name]["resps"]) and not S[name]["loose"]:
        for _ in range(max(3, n // 6)):
            res.append(expand(name, [], rng, len(res)))
    return res, len(classes)


def play(scs, interval, mx, loose, parallel=50, solo=False, batch=False):
    """Runs scenarios in worker processes; returns recordings (None: it crashed)."""
    exe = lib.build("dialogdrv")
    size = 1 if solo else max(10, min(180, (len(scs) + lib.CPUS - 1) // lib.CPUS))
    chunks = [scs[i:i + size] for i in range(0, len(scs), size)]

    def one(n_chunk):
        n, chunk = n_chunk
        for x, s in enumerate(chunk):
            s["id"] = x
        tag = "%d-%d" % (id(scs), n)
        fin = lib.dump("job-%s.json" % tag, {"interval": interval, "max": mx, "loose": loose[0], "chatty": loose[1], "parallel": parallel, "scenarios": chunk})
        fout = lib.path("res-%s.json" % tag)
        limit = 60 + len(chunk) * 10.0 / min(parallel, len(chunk)) + interval * 0.05
        rc, out, err = lib.run([exe, "-in", fin, "-out", fout], timeout=limit)
        os.unlink(fin)
        if rc == 3:
            raise Infra("dialogdrv: " + err[-2000:])
        if rc != 0:
            if len(chunk) == 1 or batch:
                return [{"crash": lib.tail(err, 4000) if rc != -99 else "no end within %ds" % limit}] * len(chunk)
            return [None] * len(chunk)
        res = json.load(open(fout))
        os.unlink(fout)
        return res

    with cf.ThreadPoolExecutor(lib.CPUS) as ex:
        parts = list(ex.map(one, enumerate(chunks)))
    recs = [r for p in parts for r in p]
    again = [i for i, r in enumerate(recs) if r is None]
    if again:
        redo = play([scs[i] for i in again], interval, mx, loose, solo=True)
        for i, r in zip(again, redo):
            recs[i] = r
    return recs


def judge(recs, scs, mask, verbose=False, live=True):
    """TLC: which recordings does the specification explain?"""
    ok = set()
    idx = [i for i, r in enumerate(recs) if "crash" not in r]
    chunks = [idx[i::lib.CPUS] for i in range(lib.CPUS)]
    chunks = [c for c in chunks if c]
    stats = [0, 0]
    texts = []

    def one(n_c):
        n, c = n_c
        trs = []
        for i in c:
            r = recs[i]
            trs.append(masked(r, mask))
        f = lib.dump("traces-%d-%d.json" % (id(recs), n), trs)
        t = lib.tlc("TraceDialog.tla", "TraceDialog.cfg", env={"TRACE_FILE": f, "TRACE_VERBOSE": "1" if verbose else "0"}, timeout=800, heap="3g")
        lib.need_ok(t, "trace validation")
        os.unlink(f)
        return t, {c[int(a) - 1] for a in t.lines("ACC")}

    with cf.ThreadPoolExecutor(lib.CPUS) as ex:
        for t, acc in ex.map(one, enumerate(chunks)):
            ok |= acc
            stats[0] += t.distinct
            stats[1] += t.generated
            texts.append(t.out)
    return ok, stats, texts


def masked(r, mask):
    """The recording and which of its outputs are the property's business."""
    obs = {s: [] for s in r["obs"]}
    ev = []
    for e in r["ev"]:
        if e["k"] == "obs":
            o = r["obs"][e["s"]][e["n"] - 1]
            if o["k"] == "closed" and "closed" not in mask:
                continue
            obs[e["s"]].append({a: b for a, b in o.items() if a != "raw"})
            e = dict(e, n=len(obs[e["s"]]))
        ev.append(e)
    return {"cfg": r["cfg"], "interval": r["interval"], "visible": mask, "marks": [k for k in HIDEABLE if k not in mask and k != "closed"], "ev": ev, "obs": obs}


HIDEABLE = ["INVITE", "ACK", "BYE", "CANCEL", "resp", "state", "err", "peer", "closed"]


def waits(recs, interval):
    """TLC (TimerGaps): which kinds of wait are never as long as configured?"""
    trs = []
    for r in recs:
        ev = []
        for e in r.get("ev", []):
            if e["k"] == "env":
                ev.append({"k": "kill" if e["e"] == "kill" else "env", "key": "", "t": 0})
            elif e["k"] == "obs":
                o = r["obs"][e["s"]][e["n"] - 1]
                key = "%s %s" % (o["id"], o["st"]) if o["k"] == "resp" else "%s %s" % (o.get("att"), o.get("cseq"))
                ev.append({"k": o["k"], "key": key, "t": e["t"]})
        trs.append({"ev": ev, "interval": interval})
    f = lib.dump("gaps-%d.json" % id(recs), trs)
    t = lib.need_ok(lib.tlc("TimerGaps.tla", "TimerGaps.cfg", env={"TRACE_FILE": f}), "timer gaps")
    os.unlink(f)
    if not t.lines("WAITS"):
        raise Infra("TimerGaps printed nothing:\n" + lib.tail(t.out))
    return {" ".join(g.split()[:-2]): [int(x) for x in g.split()[-2:]] for g in t.lines("GAPS")}, {
        c: [int(h.split()[0]) - 1 for h in t.lines("HAS") if h.split(" ", 1)[1] == c] for c in t.lines("LATE")}


def overdue(scs, recs, interval, mx, loose):
    """Kinds of wait that are too long for all messages of the kind, also when little else runs."""
    gaps, late = waits(recs, interval)
    for c in sorted(late)[:4]:
        sel = [scs[i] for i in late[c][:24]]
        for _ in range(2):
            again = play([dict(s) for s in sel], interval, mx, loose, solo=True)
            g, l = waits(again, interval)
            if c not in l:
                break
        else:
            k = l[c][0]
            yield c, "%s: %d waits, %d of them as long as configured (%d ms)" % (c, g[c][0], g[c][1], interval), sel[k], again[k]


def explain(rec, mask):
    """The furthest point the specification gets to, for the report."""
    if "crash" in rec:
        return "the process crashed or hung: " + rec["crash"][-1500:]
    ok, _, texts = judge([rec], None, mask, verbose=True)
    at = [int(m) for m in re.findall(r'"AT 1 (\d+)"', texts[0])]
    far = max(at or [0])
    ev = rec["ev"][far - 1] if 0 < far <= len(rec["ev"]) else {}
    if ev.get("k") == "obs":
        ev = dict(ev, obs=rec["obs"][ev["s"]][ev["n"] - 1])
    miss = []
    for m in re.finditer(r'^"MISS (.*)"$', texts[0], re.M):
        try:
            x = json.loads(json.loads('"' + m.group(1) + '"'))
            miss.append(x)
        except ValueError:
            pass
    miss = [m for m in miss if m["i"] >= far - 1][-3:]
    return "explained up to entry %d of %d; next: %s; expected/seen: %s" % (far, len(rec["ev"]), json.dumps(ev), json.dumps(miss))


def check(ck):
    pid = ck.pid
    mask = MASK[pid]
    use = USE[pid]
    budget = 220 if not ck.thorough else 2500
    lib.build("dialogdrv")
    with cf.ThreadPoolExecutor(lib.CPUS) as ex:
        graphs = dict(zip(use, ex.map(graph, use)))
    total = sum(use.values())
    states = trans = validated = stalled = skipped = classes = ncls = 0
    samples = []
    distinct = set()
    jobs = {}
    for name, w in use.items():
        r, edges = graphs[name]
        states += r.distinct
        trans += r.generated
        classes += len(edges)
        n = max(12, budget * w * 3 // total)
        scs, nc = scenarios(edges, name, n, random.Random("%s/%s/%d" % (pid, name, lib.SEED)))
        k = S[name]
        jobs.setdefault((k["timers"], k["max"], k["loose"], k["chatty"]), []).extend(scs)
    for key in sorted(jobs):
        timers, mx, loose, chatty = key
        loose = (loose, chatty)
        scs = jobs[key]
        interval = 150 if timers else 0
        recs = play(scs, interval, mx, loose)
        ok, st, _ = judge(recs, scs, mask)
        states += st[0]
        trans += st[1]
        validated += len(recs)
        stalled += sum(1 for r in recs if r.get("stalled"))
        skipped += sum(r.get("skipped", 0) for r in recs)
        for s in scs:
            distinct.add(json.dumps([s["steps"], s["cfg"]], sort_keys=True))
        if len(samples) < 3:
            samples.append({"suite": scs[0]["suite"], "schedule": [brief(x) for x in scs[0]["steps"]]})
        bad = [i for i in range(len(recs)) if i not in ok]
        if pid == "C03" and timers:
            gaps, _ = waits(recs, interval)
            for c, (n, near) in gaps.items():
                ck.count("waits_timed", n)
                ck.count("waits_as_configured", near)
            for c, why, sc, rec in overdue(scs, recs, interval, mx, loose):
                ck.violation("overdue:" + signature(c), why, {"suite": sc["suite"], "interval": interval, "max": mx, "loose": loose, "scenario": sc, "recording": rec, "class": c})
        # A rejection counts when it comes back: among a few others, and alone.
        bad = bad[:40]
        again = play([dict(scs[i]) for i in bad], interval, mx, loose, solo=True) if bad else []
        ok2 = judge(again, scs, mask)[0] if bad else set()
        firm = [i for n, i in enumerate(bad) if n not in ok2]
        loosely = [i for n, i in enumerate(bad) if n in ok2]
        seen = set()
        for i in (firm + loosely)[:8]:
            again = play([dict(scs[i])], interval, mx, loose, solo=True)
            ok2, _, _ = judge(again, scs, mask)
            if ok2:
                ck.count("unconfirmed")
                again = play([dict(scs[i]) for _ in range(8)], interval, mx, loose, solo=True)
                ok2, _, _ = judge(again, scs, mask)
                again = [again[j] for j in range(8) if j not in ok2]
                if len(again) < 2:
                    continue
            why = explain(again[0], mask)
            sig = "%s:%s" % (scs[i]["suite"], signature(why))
            if sig in seen:
                continue
            seen.add(sig)
            ck.violation(sig, why, {"suite": scs[i]["suite"], "interval": interval, "max": mx, "loose": loose, "scenario": scs[i], "recording": again[0]})
            if len(seen) >= 3:
                break
    ck.note("states", states)
    ck.note("transitions", trans)
    ck.note("traces_validated_against_impl", validated)
    ck.note("distinct_schedules", len(distinct))
    ck.note("transition_classes", classes)
    ck.note("steps_timed_out", stalled)
    ck.note("steps_not_possible", skipped)
    ck.note("samples", samples)


def brief(s):
    return {k: v for k, v in s.items() if v and k not in ("exp",)}


def signature(why):
    return re.sub(r"[^A-Za-z]+", "-", why)[:60]


def replay(obj, mask):
    recs = play([obj["scenario"]], obj["interval"], obj["max"], obj["loose"], solo=True)
    if "class" in obj:
        recs = play([dict(obj["scenario"]) for _ in range(8)], obj["interval"], obj["max"], obj["loose"], solo=True)
        gaps, late = waits(recs, obj["interval"])
        return obj["class"] not in late, recs[0], "%s: %s" % (obj["class"], gaps)
    ok, _, _ = judge(recs, None, mask)
    return bool(ok), recs[0], "" if ok else explain(recs[0], mask)
