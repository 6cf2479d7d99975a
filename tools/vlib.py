"""Shared machinery of the checks: running the real code, running TLC, verdicts, evidence, known findings."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import tirobuild

SPECS = os.path.join(HERE, "specs")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, ".work"))
REPLAY = os.path.join(HERE, "replay")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
CPUS = os.cpu_count() or 8


class CheckError(Exception):
    """The check could not decide (exit 2)."""


def workdir(name):
    d = os.path.join(WORK, "%s-%d" % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


_exe = None


def build():
    global _exe
    if _exe is None:
        try:
            _exe = tirobuild.build()
        except tirobuild.BuildError as e:
            raise CheckError("build of /repo failed:\n%s" % e)
    return _exe


def run_host(sessions, jobs=CPUS, name="host"):
    """Executes sessions on the real code -> {id: [events]}"""
    if not sessions:
        return {}
    exe = build()
    d = workdir(name)
    i, o = os.path.join(d, "in-%d.ndjson" % time.time_ns()), os.path.join(d, "out-%d.ndjson" % time.time_ns())
    with open(i, "w") as f:
        for s in sessions:
            f.write(json.dumps(s) + "\n")
    r = subprocess.run([exe, i, o, str(jobs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("host driver failed: %s" % r.stdout[-2000:])
    res = {}
    for line in open(o, "rb"):
        e = json.loads(line.decode("utf-8", "surrogateescape"))
        res[e["id"]] = e["ev"]
    os.unlink(i)
    os.unlink(o)
    if len(res) != len(sessions):
        raise CheckError("host driver lost sessions")
    return res


class Tlc:
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def prints(self, tag):
        """Values printed by PrintT(<<tag, ...>>), one list per line."""
        out = []
        for line in self.text.splitlines():
            if line.startswith('<<"%s"' % tag):
                out.append(parse_tla(line))
        return out

    @property
    def ok(self):
        return self.rc == 0


def parse_tla(s):
    """Parses printed TLA+ values made of strings, integers, booleans, tuples and records."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if s.startswith("<<", pos):
            pos += 2
            out = []
            ws()
            while not s.startswith(">>", pos):
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 2
            return out
        if s[pos] == "{":
            pos += 1
            out = []
            ws()
            while s[pos] != "}":
                out.append(val())
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == "[":
            pos += 1
            out = {}
            ws()
            while s[pos] != "]":
                m = re.match(r"\s*(\w+) \|->", s[pos:])
                pos += m.end()
                out[m.group(1)] = val()
                ws()
                if s[pos] == ",":
                    pos += 1
                ws()
            pos += 1
            return out
        if s[pos] == '"':
            pos += 1
            out = []
            while s[pos] != '"':
                if s[pos] == "\\":
                    pos += 1
                    out.append({"n": "\n", "t": "\t"}.get(s[pos], s[pos]))
                else:
                    out.append(s[pos])
                pos += 1
            pos += 1
            return "".join(out)
        m = re.match(r"-?\d+|TRUE|FALSE|[\w@.]+", s[pos:])
        pos += m.end()
        t = m.group(0)
        return True if t == "TRUE" else False if t == "FALSE" else int(t) if re.match(r"-?\d+$", t) else t

    return val()


def run_tlc(module, cfg=None, env=None, workers=2, timeout=600, heap="3g", extra=(), name="tlc", depth_first=False):
    d = os.path.join(workdir(name), "tlc-%d" % time.time_ns())
    os.makedirs(d)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d, "-cp", JARS]
    if depth_first:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        text, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        text, rc = (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -9
    shutil.rmtree(d, ignore_errors=True)
    return Tlc(text, rc, time.time() - t0)


def errors_of(text):
    """The lines of TLC's output that tell what is wrong."""
    ls = text.splitlines()
    out = [l[:500] for i, l in enumerate(ls) if any("Error" in x or "xception" in x for x in ls[max(0, i - 6):i + 1]) and not re.match(r"\d+\. |/\\ ", l)]
    return "\n".join(out or [l[:500] for l in ls])[-3000:]


def validate(progs, module="TiroTrace", name="trace", procs=4, workers=2, timeout=700, env=None, heap="3g", depth=0):
    """Runs trace validation on spec inputs (dicts with id) -> ({id: verdict tuple}, states, transitions)."""
    if not progs:
        return {}, 0, 0
    procs = max(1, min(procs, len(progs) // 4 or 1)) if depth == 0 else procs
    d = workdir(name)

    def part(i):
        f = os.path.join(d, "traces-%d-%d.ndjson" % (i, time.time_ns()))
        with open(f, "w") as fh:
            for p in progs[i::procs]:
                fh.write(json.dumps(p) + "\n")
        ee = {"TRACES": f}
        ee.update(env or {})
        r = run_tlc(module, env=ee, workers=workers, timeout=timeout, name="%s-%d" % (name, i), heap=heap)
        os.unlink(f)
        return r

    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(part, range(procs)))
    verdicts, states, trans = {}, 0, 0
    failed = None
    for r in rs:
        for v in r.prints("VERDICT"):
            verdicts[v[1]] = v[2:]
        states += r.distinct
        trans += r.generated
        if not r.ok:
            failed = r
    missing = [p for p in progs if p["id"] not in verdicts]
    if failed is not None and depth < 4 and len(missing) > 1:
        v, s, t = validate(missing, module, name, procs=min(8, len(missing)), workers=1, timeout=timeout, env=env, heap="1500m", depth=depth + 1)
        verdicts.update(v)
        states, trans = states + s, trans + t
    elif missing and depth == 4:
        for p in missing:
            if "StackOverflow" not in failed.text and failed.rc != -9:
                raise CheckError("TLC failed (%s rc=%s) on session %s:\n%s" % (module, failed.rc, p["id"], errors_of(failed.text)))
            verdicts[p["id"]] = ["long", 0, "", ""]
    elif failed is not None and len(missing) == 1 and failed.rc != -9 and "StackOverflow" not in failed.text:
        raise CheckError("TLC failed (%s rc=%s) on session %s:\n%s" % (module, failed.rc, missing[0]["id"], errors_of(failed.text)))
    elif failed is not None:
        for p in missing:
            verdicts[p["id"]] = ["long", 0, "", ""]
    elif missing:
        raise CheckError("no verdict for session %s\n%s" % (missing[0]["id"], rs[0].text[-1500:]))
    return verdicts, states, trans


def check_cases(cases, module, name="cases", procs=4, workers=2, timeout=600, heap="3g", env=None):
    """Evaluates independent cases with a case specification (Init/Next walk over the cases, failed ones are printed as
    "BAD|id|info") -> ([(id, info)], states, transitions)."""
    if not cases:
        return [], 0, 0
    procs = max(1, min(procs, len(cases) // 50))
    d = workdir(name)

    def part(i):
        f = os.path.join(d, "cases-%d-%d.ndjson" % (i, time.time_ns()))
        with open(f, "w") as fh:
            for p in cases[i::procs]:
                fh.write(json.dumps(p) + "\n")
        ee = {"TRACES": f}
        ee.update(env or {})
        r = run_tlc(module, env=ee, workers=workers, timeout=timeout, name="%s-%d" % (name, i), heap=heap)
        os.unlink(f)
        if not r.ok:
            raise CheckError("TLC failed (%s rc=%s):\n%s" % (module, r.rc, (r.text[r.text.find("Error:"):][:1500] if "Error:" in r.text else r.text[-3000:])))
        if r.distinct != len(cases[i::procs]):
            raise CheckError("TLC visited %d of %d cases of %s" % (r.distinct, len(cases[i::procs]), module))
        return r

    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(part, range(procs)))
    bad, st, tr = [], 0, 0
    for r in rs:
        st, tr = st + r.distinct, tr + r.generated
        for line in r.text.splitlines():
            if line.startswith('"BAD|'):
                bad.append(tuple(line[1:-1].replace('\\"', '"').replace("\\\\", "\\").split("|", 2)[1:]))
    return bad, st, tr


def cleanup():
    for d in glob.glob(os.path.join(WORK, "*-%d" % os.getpid())):
        shutil.rmtree(d, ignore_errors=True)
