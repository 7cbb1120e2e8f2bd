"""C11 during a call: broken messages at every stage (HostileCompose, HostileJudge)."""
import json
import lib, dialog
from pipe import Pipe

KINDS = {"C11": [("calls", 1120, 9000)]}


class Hostile(Pipe):
    def drive(self, cases):
        keep = [(c["id"], dict(c)) for c in cases]
        recs = dialog.play([dict(c) for c in cases], 0, 1, (False, False), parallel=25)
        out = []
        for (i, c), r in zip(keep, recs):
            crash = r.get("crash", "")
            c.update(crash=crash, ev=r.get("ev", []), obs={"app": [], "s1": []}, cid=[])
            if not crash:
                c["obs"] = {"app": [lean(o) for o in r["obs"]["app"]], "s1": [lean(o) for o in r["obs"]["s1"]]}
                c["cid"] = list(r["cid"].encode())
            out.append(c)
        return out

    @staticmethod
    def case_of(rec):
        return {k: v for k, v in rec.items() if k not in ("crash", "ev", "obs", "cid")}

    def report(self, ck, found):
        self.confirm = 3
        Pipe.report(self, ck, found)


def lean(o):
    return {k: o[k] for k in ("k", "v", "st", "id") if k in o}


def show(rec):
    if rec["crash"]:
        return rec["crash"][-1200:]
    return json.dumps([e if e.get("e") != "hostile" else bytes(e["txt"]).decode("latin-1") for e in rec["ev"]])[:1200] + json.dumps(rec["obs"]["app"])[-400:]


PIPE = Hostile("Hostile", "dialogdrv", KINDS, None, show=show, slices=(140, 500), jobs=5)
