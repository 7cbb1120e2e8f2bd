"""C34: work done side by side (the kinds of the other pipelines, run in many goroutines at once)."""
import concurrent.futures as cf, json, random
import lib, dialog, msgs, nets, rtps, sdps, siptext

N = "12"  # goroutines
# (area, kind, quick count, thorough count, size of a slice, environment, how often a failure has to come back)
MANY = {"TOGETHER": N, "ROUNDS": "4"}
ONCE = {"TOGETHER": "6", "ROUNDS": "1"}
CROWD = {"TOGETHER": "crowd"}
KINDS = [
    (siptext.PIPE, "msg", 400, 6000, 200, MANY), (siptext.PIPE, "damage", 200, 3000, 200, MANY), (siptext.PIPE, "uri", 200, 3000, 200, MANY),
    (siptext.PIPE, "addr", 200, 3000, 200, MANY), (siptext.PIPE, "via", 150, 2000, 150, MANY), (siptext.PIPE, "name", 150, 2000, 150, MANY),
    (sdps.PIPE, "build", 200, 3000, 200, MANY), (sdps.PIPE, "spell", 150, 2000, 150, MANY), (sdps.PIPE, "lines", 150, 3000, 150, MANY),
    (msgs.PIPE, "derive", 150, 3000, 150, MANY), (msgs.PIPE, "match", 150, 1500, 150, MANY), (msgs.PIPE, "copy", 30, 300, 30, MANY),
    (msgs.PIPE, "route", 150, 1500, 150, MANY), (msgs.PIPE, "populate", 150, 3000, 150, MANY), (msgs.PIPE, "ids", 2, 12, 2, MANY), (msgs.PIPE, "lists", 150, 1500, 150, MANY),
    (rtps.PIPE, "hdr", 200, 3000, 200, MANY), (rtps.PIPE, "read", 200, 3000, 200, MANY), (rtps.PIPE, "event", 100, 1500, 100, MANY),
    (rtps.PIPE, "mix", 100, 1500, 100, MANY), (rtps.PIPE, "ulaw", 16, 129, 16, MANY), (rtps.PIPE, "noise", 24, 300, 24, MANY),
    (rtps.PIPE, "short", 300, 1728, 150, ONCE), (rtps.PIPE, "send", 200, 4000, 100, ONCE), (rtps.PIPE, "ways", 300, 3000, 150, ONCE), (rtps.PIPE, "walk", 100, 2000, 100, ONCE),
    (nets.PIPE, "crowd", 360, 6000, 120, CROWD), (nets.PIPE, "seq", 48, 960, 24, ONCE), (nets.PIPE, "reply", 240, 2880, 120, ONCE),
]
STEP = 20000000


def drive(pipe, cases, env):
    """All cases in one process, side by side.  Returns the recordings, or why there are none."""
    rc, out, err = lib.run([lib.build(pipe.driver)], pipe.timeout, stdin="".join(json.dumps(c) + "\n" for c in cases).encode(), env=dict(pipe.env, **env))
    if rc == 3:
        raise lib.Infra("the driver failed: " + lib.tail(err, 500))
    if rc != 0:
        return [], lib.tail(err, 600) if rc != -99 else "no end within %ds" % pipe.timeout
    recs = [json.loads(x) for x in out.splitlines()]
    n = {}
    for r in recs:  # several recordings of one case: it did not always come out the same
        n[r["id"]] = n.get(r["id"], 0) + 1
        r["id"] += STEP * (n[r["id"]] - 1)
    if {c["id"] for c in cases} - set(n):
        raise lib.Infra("the driver left out cases")
    return recs, ""


def failing(pipe, kind, first, count, env, cases=None):
    """The cases that went wrong, and how; a process that died counts for all of them."""
    cases = cases or pipe.compose(kind, lib.SEED, first, count)
    recs, died = drive(pipe, cases, env)
    if died:
        return cases, recs, {"died": died}
    byid = {r["id"]: r for r in recs}
    bad = {}
    for f in pipe.judge(recs, "all"):
        bad.setdefault(str(f["id"] % STEP), "%s %s: %s" % (f["why"], f["what"], pipe.show_(byid[f["id"]])))
    return cases, recs, bad


def part(job):
    """Goes wrong side by side, twice, and never alone."""
    pipe, kind, first, count, env = job
    cases, recs, bad = failing(pipe, kind, first, count, env)
    if not bad:
        return job, len(recs), 0, None
    alone = pipe.drive([dict(c) for c in cases if "died" in bad or str(c["id"]) in bad])
    own = {str(f["id"]) for f in pipe.judge(alone, "all")}
    for _ in range(3):
        found = {k: v for k, v in bad.items() if k not in own and not (k == "died" and own)}
        if not found:
            return job, len(recs), len(bad), None
        _, _, bad = failing(pipe, kind, first, count, env, cases)
        if any(k not in own and not (k == "died" and own) for k in bad):
            return job, len(recs), len(bad), sorted(found.items())[0]
    return job, len(recs), len(found), None


CALLS = ["progress", "route", "failover", "hangup", "requests", "media"]
ALL = dialog.HIDEABLE


def rejected(scs):
    recs = dialog.play([dict(s) for s in scs], 0, 1, (False, False), parallel=len(scs), batch=True)
    ok = dialog.judge(recs, scs, ALL)[0]
    return {i for i in range(len(scs)) if i not in ok}, recs


def calls(ck, scs):
    """Calls in one process: those that go wrong among the others but not alone."""
    bad, recs = rejected(scs)
    ck.count("calls_side_by_side", len(scs))
    if not bad:
        return
    more = [rejected(scs) for _ in range(2)]
    often = [i for i in bad if sum(i in b for b, _ in more) >= 1]
    alone = dialog.play([dict(scs[i]) for i in often] * 2, 0, 1, (False, False), solo=True)
    fine = dialog.judge(alone, None, ALL)[0]
    odd = [i for n, i in enumerate(often) if n in fine and n + len(often) in fine]
    ck.count("calls_rejected", len(odd))
    if odd:
        r = recs[odd[0]]
        why = r["crash"] if "crash" in r else dialog.explain(r, ALL)
        ck.violation("calls", "%d of %d calls go wrong side by side but not alone: %s" % (len(odd), len(scs), why), {"area": "calls", "scenarios": scs})


def check(ck):
    jobs = []
    for pipe, kind, q, t, size, env in KINDS:
        lib.build(pipe.driver)
        n = t if ck.thorough else q
        jobs += [(pipe, kind, i, min(size, n - i), env) for i in range(0, n, size)]
    r = lib.tlc("Together", "Together.cfg", workers=2, timeout=600)
    lib.need_ok(r, "the model of work side by side")
    ck.note("model_states", r.distinct)
    r2 = lib.tlc("Together", "TogetherShared.cfg", workers=2, timeout=600)
    if "is violated" not in r2.out:
        raise lib.Infra("the model of shared work satisfies what it must not")
    with cf.ThreadPoolExecutor(6) as ex:
        for (pipe, kind, first, count, env), n, open_, worst in ex.map(part, jobs):
            ck.count("records_judged", n)
            ck.count("kinds_" + pipe.area, 1)
            ck.count("not_only_side_by_side", open_ if not worst else 0)
            if worst:
                ck.violation("%s-%s" % (pipe.area, kind), "side by side only: %s" % worst[1],
                             {"area": pipe.area, "kind": kind, "seed": lib.SEED, "first": first, "count": count})
    rng = random.Random("C34/%d" % lib.SEED)
    lib.build("dialogdrv")
    for name in CALLS:
        r, edges = dialog.graph(name)
        scs, _ = dialog.scenarios(edges, name, 400 if ck.thorough else 60, rng)
        rng.shuffle(scs)
        for i in range(0, len(scs), 40):
            calls(ck, scs[i:i + 40])


def replay(pid, obj):
    if obj["area"] == "calls":
        ck = lib.Check(pid, "quick")
        calls(ck, obj["scenarios"])
        return not ck.fail, ck.fail[0][1] if ck.fail else "held"
    lib.SEED = obj["seed"]
    for pipe, kind, _, _, _, env in KINDS:
        if (pipe.area, kind) == (obj["area"], obj["kind"]):
            worst = part((pipe, kind, obj["first"], obj["count"], env))[3]
            return not worst, worst[1] if worst else "held"
