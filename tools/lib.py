"""What every check needs: paths, TLC, the Go harness, evidence, verdicts."""
import json, os, re, random, shutil, subprocess, sys, tempfile, time, atexit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
REPO = os.environ.get("GOSIP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class Infra(Exception):
    """The machinery failed; says nothing about the code."""


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="gosip-verif-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def path(name):
    return os.path.join(tmp(), name)


def dump(name, obj):
    p = path(name)
    with open(p, "w") as f:
        json.dump(obj, f)
    return p


# ------------------------------------------------------------------ Go

def go_env():
    env = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        m = re.match(r"export (.*)", line.strip())
        if not m:
            continue
        for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(1)):
            v = v.strip('"')
            v = re.sub(r"\$\{(\w+):-([^}]*)\}", lambda x: os.environ.get(x.group(1)) or x.group(2), v)
            env[k] = v
    return env


_built = {}


def build(cmd, race=False, tags=None, flags=()):
    """Builds harness/<cmd> against the current tree of the repository."""
    key = (cmd, race)
    if key in _built:
        return _built[key]
    src = path("harness")
    if not os.path.isdir(src):
        shutil.copytree(HARNESS, src)
        gm = os.path.join(src, "go.mod")
        s = open(gm).read().replace("=> /repo", "=> " + REPO)
        open(gm, "w").write(s)
    out = path(cmd + ("-race" if race else ""))
    args = ["go", "build", "-o", out] + (["-race"] if race else []) + list(flags) + ["./" + cmd]
    p = subprocess.run(args, cwd=src, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Infra("building the harness failed:\n" + p.stdout[-4000:])
    _built[key] = out
    return out


def run(args, timeout, stdin=None, env=None, cwd=None):
    e = go_env()
    e["GOTRACEBACK"] = "single"
    if env:
        e.update(env)
    try:
        p = subprocess.run(args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                           cwd=cwd or tmp())
    except subprocess.TimeoutExpired as x:
        return -99, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")
    return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")


# ------------------------------------------------------------------ TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    @property
    def ok(self):
        return self.rc == 0

    def lines(self, tag):
        """PrintT'ed strings that start with tag."""
        res = []
        for m in re.finditer(r'^"' + re.escape(tag) + r' (.*)"$', self.out, re.M):
            res.append(json.loads('"' + m.group(1) + '"'))
        return res


def tlc(module, cfg, env=None, workers=1, timeout=600, heap="4g", extra=()):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmp())
    args = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
            "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        p = subprocess.run(args, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC took more than %ds on %s" % (timeout, module))
    finally:
        shutil.rmtree(meta, True)
    return TlcResult(p.returncode, p.stdout.decode("utf8", "replace"))


def need_ok(r, what):
    if not r.ok:
        raise Infra("TLC: %s: exit %d\n%s" % (what, r.rc, tail(r.out)))
    return r


def tail(s, n=3000):
    return s if len(s) <= n else "..." + s[-n:]


# ------------------------------------------------------------------ verdicts

class Check:
    """One run of the check of one property."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.start = time.time()
        self.cover = {}
        self.fail = []      # (signature, description, replay object)
        self.known = []
        self.rng = random.Random("%s/%d" % (pid, SEED))

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def note(self, key, v):
        self.cover[key] = v

    def violation(self, sig, what, replay):
        self.fail.append((sig, what, replay))


def known_findings():
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res
