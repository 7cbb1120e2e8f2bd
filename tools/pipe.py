"""The pipeline of the checks that sample: TLC makes cases (module <X>Compose),
a driver runs them through the code, TLC judges the recordings (<X>Judge)."""
import concurrent.futures, json, os
import lib


class Pipe:
    def __init__(self, area, driver, kinds, died, extra=None, show=None, env=None, slices=(150, 1500), timeout=600, jobs=None, confirm=1):
        self.area, self.driver, self.kinds, self.died, self.extra = area, driver, kinds, died, extra
        self.show_ = show or (lambda rec: json.dumps(rec)[:900])
        self.slices, self.timeout, self.jobs, self.env = slices, timeout, jobs or lib.CPUS, env or {}
        self.confirm = confirm

    def compose(self, kind, seed, first, count):
        r = lib.tlc(self.area + "Compose", self.area + "Compose.cfg",
                    env={"KIND": kind, "SEED": str(seed), "FIRST": str(first), "COUNT": str(count)}, timeout=1500, heap="2g")
        lib.need_ok(r, "composing %s %d" % (kind, first))
        bad = r.lines("MODEL")
        if bad:
            raise lib.Infra("the specification contradicts itself: %s" % bad[:3])
        cases = [json.loads(x) for x in r.lines("CASE")]
        if len(cases) < count:
            raise lib.Infra("TLC printed %d cases instead of %d" % (len(cases), count))
        return self.extra(kind, cases) if self.extra else cases

    def drive(self, cases):
        """Runs cases through the code.  A case during which the process dies is recorded as such."""
        drv = lib.build(self.driver)
        recs, todo = [], list(cases)
        while todo:
            rc, out, err = lib.run([drv], self.timeout, stdin="".join(json.dumps(c) + "\n" for c in todo).encode(), env=self.env)
            got = []
            for line in out.splitlines():
                try:
                    got.append(json.loads(line))
                except ValueError:
                    break
            recs += got
            if len(got) == len(todo):
                break
            if rc in (0, 3, -9):
                raise lib.Infra("the driver failed (%d): %s" % (rc, lib.tail(err, 500)))
            recs.append(self.died(dict(todo[len(got)]), "hang" if rc == -99 else "panic", lib.tail(err, 400)))
            todo = todo[len(got) + 1:]
        return recs

    def judge(self, recs, prop):
        if not recs:
            return []
        p = lib.path("recs-%s.ndjson" % os.urandom(6).hex())
        with open(p, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        r = lib.tlc(self.area + "Judge", self.area + "Judge.cfg", env={"REC": p, "PROP": prop}, timeout=1500, heap="2g")
        os.remove(p)
        lib.need_ok(r, "judging")
        if r.distinct != len(recs) + 1:
            raise lib.Infra("TLC judged %d of %d records" % (r.distinct - 1, len(recs)))
        return [json.loads(x) for x in r.lines("FAIL")]

    @staticmethod
    def case_of(rec):
        return {k: v for k, v in rec.items() if k not in ("res", "built", "one", "two")}

    def slice(self, prop, kind, seed, first, count):
        recs = self.drive(self.compose(kind, seed, first, count))
        fails = self.judge(recs, prop)
        byid = {r["id"]: r for r in recs}
        return recs, [(f, byid[f["id"]]) for f in fails]

    def check(self, ck):
        lib.build(self.driver)
        jobs = []
        for kind, q, t, *own in self.kinds[ck.pid]:
            n, sl = (t, self.slices[1]) if ck.thorough else (q, own[0] if own else self.slices[0])
            jobs += [(kind, i, min(sl, n - i)) for i in range(0, n, sl)]
        found = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=self.jobs) as ex:
            futs = {ex.submit(self.slice, ck.pid, kind, lib.SEED, first, n): (kind, n) for kind, first, n in jobs}
            for fu in concurrent.futures.as_completed(futs):
                recs, fails = fu.result()
                kind = futs[fu][0]
                ck.count("cases_" + kind, len(recs))
                ck.count("records_judged", len(recs))
                self.tally(ck, kind, recs)
                found += fails
        self.report(ck, found)

    def tally(self, ck, kind, recs):
        pass

    def report(self, ck, found):
        """Repeats what failed; what fails again is a violation."""
        seen = set()
        for f, rec in sorted(found, key=lambda x: len(json.dumps(self.case_of(x[1])))):
            key = (f["prop"], f["why"], json.dumps(f["what"]))
            if key in seen or len(seen) > 8:
                continue
            seen.add(key)
            for _ in range(self.confirm):
                again = self.judge(self.drive([self.case_of(rec)]), ck.pid)
                if again:
                    ck.violation("%s:%s" % (f["why"], json.dumps(f["what"])), "%s %s: %s" % (f["why"], f["what"], self.show_(rec)), self.case_of(rec))
                    break
            else:
                ck.count("unconfirmed")

    def replay(self, pid, obj):
        rec = self.drive([obj])
        fails = self.judge(rec, pid)
        return not fails, "held" if not fails else "%s %s: %s" % (fails[0]["why"], fails[0]["what"], self.show_(rec[0]))
