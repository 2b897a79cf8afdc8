#!/usr/bin/env python3
"""Driver of the checks.

  run.py C07 quick|thorough     run the check of one property
  run.py C07 --replay FILE      run one saved scenario
  run.py --setup                build everything once (warms the build cache)

Exit status: 0 the property held on everything explored, 1 with a VIOLATION
line when it did not, 2 when the check itself could not be carried out.
"""
import concurrent.futures as cf
import copy
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.27.3"

RACE = {"C09", "C20", "C16", "C21", "C22"}  # parts marked inRace also run in a -race binary
BINARY = {"C16", "C19", "C21", "C22", "C23"}                      # needs the gotit binary
LEVEL = {"C08": "fault_enumeration", "C11": "exploration"}

ENV = dict(os.environ)
ENV.update({
    "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/root", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
    "GOCACHE": "/root/.cache/go-build", "GOTOOLCHAIN": "local", "GOPROXY": "off",
    "GOFLAGS": "-mod=readonly", "GOWORK": "off", "TZ": "UTC", "LC_ALL": "C.UTF-8",
})
ENV.pop("GODEBUG", None)


# The code under test writes files under names taken from generated torrents, so
# it runs as a user that owns nothing but its own scratch directory.
NOBODY = 65534


def pick_user():
    if os.geteuid() != 0:
        return {}
    u = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    try:
        subprocess.run(["/bin/true"], check=True, **u)
        return u
    except (OSError, subprocess.SubprocessError):
        return {}


USER = pick_user()


def workdir(prefix):
    d = tempfile.mkdtemp(prefix=prefix)
    os.chmod(d, 0o755)
    return d


class CheckError(Exception):
    pass


WATCHDOG = {95: "the case fills the memory", 97: "the case does not end"}


class Starved(CheckError):
    """The machine, not the code under test, kept a run from finishing."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------
# building

def build(work, prop):
    """Compiles the harness together with /repo's working tree."""
    out = {}

    def go(*args, cwd=HARNESS):
        r = subprocess.run(["go", *args], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            raise CheckError("go %s failed:\n%s" % (" ".join(args), (r.stdout + r.stderr)[-6000:]))

    jobs = []
    with cf.ThreadPoolExecutor(4) as ex:
        out["plain"] = os.path.join(work, "props.test")
        jobs.append(ex.submit(go, "test", "-c", "-vet=off", "-tags", "verif", "-o", out["plain"], "./props"))
        if prop in RACE or prop is None:
            out["race"] = os.path.join(work, "props.race.test")
            jobs.append(ex.submit(go, "test", "-c", "-vet=off", "-race", "-tags", "verif", "-o", out["race"], "./props"))
        if prop in BINARY or prop is None:
            out["gotit"] = os.path.join(work, "gotit")
            jobs.append(ex.submit(go, "build", "-o", out["gotit"], "./cmd/gotit", cwd=REPO))
    for j in jobs:
        j.result()
    return out


# ---------------------------------------------------------------------------
# running

class Run:
    def __init__(self, rc, out, err, current, result):
        self.rc, self.out, self.err, self.current, self.result = rc, out, err, current, result


def execute(work, binary, prop, env, timeout, tag):
    d = tempfile.mkdtemp(prefix="run-", dir=work)
    if USER:
        os.chown(d, USER["user"], USER["group"])
    e = dict(ENV)
    e.update(env)
    e["HOME"] = d
    e["VERIF_PROP"] = prop
    e["VERIF_SCRATCH"] = d
    e["TMPDIR"] = d
    e["VERIF_OUT"] = os.path.join(d, "out.json")
    e["VERIF_CURRENT"] = os.path.join(d, "current.json")
    e["GODEBUG"] = "randautoseed=0"
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GOTRACEBACK"] = "all"
    e["VERIF_HEAP_MB"] = "1000" if env.get("VERIF_RACE") == "1" else "2000"
    with open(os.path.join(d, "stdout"), "wb") as so, open(os.path.join(d, "stderr"), "wb") as se:
        p = subprocess.Popen([binary, "-test.run", "^TestProperty$", "-test.timeout", "0"], cwd=d, env=e,
                             stdin=subprocess.DEVNULL, stdout=so, stderr=se, start_new_session=True, **USER)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    def text(name):
        with open(os.path.join(d, name), "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 400000))
            return f.read().decode("utf-8", "replace")

    def js(name):
        try:
            with open(os.path.join(d, name)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None
    r = Run(rc, text("stdout"), text("stderr"), js("current.json"), js("out.json"))
    shutil.rmtree(d, ignore_errors=True)
    return r


def signature(r):
    """What a crashed run died of, or None when it did not crash."""
    if r.rc in (0, 1, 95, 96, 97, 98, "timeout"):
        return None
    if isinstance(r.rc, int) and r.rc < 0:
        return None  # killed from outside (memory)
    txt = r.err + "\n" + r.out
    if "out of memory" in txt and "runtime: out of memory" in txt:
        return None
    if r.rc == 66:
        return "data race"
    m = re.search(r"^(panic: .*|fatal error: .*)$", txt, re.M)
    return re.sub(r"0x[0-9a-f]+|\d+", "#", m.group(1)) if m else "exit status %s" % r.rc


def in_harness(txt):
    """The crashed goroutine was executing the harness, not the code under test."""
    m = re.search(r"^goroutine \d+ [^\n]*running[^\n]*:$(.*?)(^$|\Z)", txt, re.M | re.S)
    for line in (m.group(1) if m else "").splitlines():
        if line.startswith("github.com/anivanovic/gotit/"):
            return False
        if line.startswith("verif/harness/"):
            return True
    return False


def race_in_harness(txt):
    """Both accesses of the first reported race are the harness's own."""
    m = re.search(r"WARNING: DATA RACE\n(.*?)\n\nPrevious [^\n]*\n(.*?)\n\n", txt, re.S)
    if not m:
        return False
    top = []
    for stack in m.groups():
        top.append("other")
        for line in stack.splitlines():
            line = line.strip()
            if line.startswith("github.com/anivanovic/gotit/"):
                top[-1] = "gotit"
                break
            if line.startswith("verif/harness/"):
                top[-1] = "harness"
                break
    return top == ["harness", "harness"]


def replay_file(work, scenario):
    fd, p = tempfile.mkstemp(prefix="scenario-", suffix=".json", dir=work)
    with os.fdopen(fd, "w") as f:
        json.dump(scenario, f)
    os.chmod(p, 0o644)
    return p


def replay(work, binary, scenario, env=None, watchdog=90):
    e = {"VERIF_REPLAY": replay_file(work, scenario), "VERIF_WATCHDOG": str(watchdog)}
    e.update(env or {})
    r = execute(work, binary, scenario["property"], e, watchdog + 60, "replay")
    os.unlink(e["VERIF_REPLAY"])
    return r


def minimise(work, binary, scenario, sig, budget=60):
    """Delta debugging of a crashing scenario, out of process."""
    end = time.time() + budget
    best = scenario

    def crashes(s):
        return signature(replay(work, binary, dict(best, scenario=s), watchdog=30)) == sig

    def candidates(v):
        if isinstance(v, list):
            n = len(v)
            step = n
            while step >= 1:
                for i in range(0, n, step):
                    yield v[:i] + v[i + step:]
                step //= 2
            for i, e in enumerate(v):
                for c in candidates(e):
                    yield v[:i] + [c] + v[i + 1:]
        elif isinstance(v, dict):
            for k in v:
                for c in candidates(v[k]):
                    w = dict(v)
                    w[k] = c
                    yield w
        elif isinstance(v, bool):
            if v:
                yield False
        elif isinstance(v, int):
            if v != 0:
                yield 0
                if abs(v) > 1:
                    yield v // 2
                    yield v - 1 if v > 0 else v + 1
        elif isinstance(v, str) and v:
            head = v[0] if v[0] == "~" else ""
            body = v[len(head):]
            if body:
                h = len(body) // 4 * 2
                yield head + body[:h]
                yield head + body[h:]

    progress = True
    while progress and time.time() < end:
        progress = False
        for c in candidates(best["scenario"]):
            if time.time() > end:
                break
            if len(json.dumps(c)) > len(json.dumps(best["scenario"])):
                continue
            if crashes(c):
                best = dict(best, scenario=c)
                progress = True
                break
    return best


def shard_seed(seed, shard, salt):
    h = hashlib.sha256(("%d/%d/%s" % (seed, shard, salt)).encode()).digest()
    return int.from_bytes(h[:4], "big") % 2147483646 + 1


def save(prop, scenario, message, kind):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(scenario, message=message, kind=kind)
    name = hashlib.sha256(json.dumps(scenario, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (prop, name))
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
        f.write("\n")
    return p


def judge(work, binary, r, what, env):
    """Turns one finished run into None or (scenario, message, kind)."""
    if r.rc == 0:
        return None
    if r.rc == 1 and r.result and r.result.get("violation"):
        v = r.result["violation"]
        return ({k: v[k] for k in ("property", "part", "scenario")}, v["message"], "oracle", v.get("first"))
    if r.rc in (95, 97):
        # one case did not end or filled the memory: only if it does again, alone, twice
        if r.current is None:
            raise CheckError("%s: watchdog without a current case" % what)
        again = [replay(work, binary, r.current, env, watchdog=120) for _ in range(2)]
        if all(a.rc == r.rc for a in again):
            return (r.current, WATCHDOG[r.rc] + "\n" + r.err[-6000:], "hang")
        for a in again:
            if a.rc == 1 and "VERIF-REPLAY: fails" in a.out:
                return (r.current, a.out[-4000:], "oracle")
        raise Starved("%s: %s, but not when run alone" % (what, WATCHDOG[r.rc]))
    sig = signature(r)
    if isinstance(r.rc, int) and r.rc < 0:
        raise Starved("%s was killed (signal %d)" % (what, -r.rc))
    if sig is None or r.current is None:
        raise CheckError("%s ended with %s\n%s\n%s" % (what, r.rc, r.out[-3000:], r.err[-6000:]))
    scen = {k: r.current[k] for k in ("property", "part", "scenario")}
    txt = r.err + r.out
    if race_in_harness(txt) if sig == "data race" else in_harness(txt):
        raise CheckError("%s crashed in the harness\n%s" % (what, txt[:6000]))
    for i in range(4):
        a = replay(work, binary, scen, env)
        s2 = signature(a)
        if s2 is not None:
            if s2 != "data race":
                scen = minimise(work, binary, scen, s2)
            return (scen, "the process died: %s\n%s" % (s2, (a.err + a.out)[:8000]), "crash")
    if "anivanovic/gotit/pkg" in txt:
        return (scen, "the process died (depends on the schedule): %s\n%s" % (sig, txt[:8000]), "crash")
    raise CheckError("%s crashed outside gotit\n%s" % (what, txt[-6000:]))


def confirmed(work, binary, scen, first, env, cores):
    """Does the failing scenario, or the one it was shrunk from, fail again?

    Alone first, then many times on a busy machine: a failure that depends on
    the schedule gets some thousand further chances.
    """
    cands = [scen]
    if first is not None and first != scen["scenario"]:
        cands.append(dict(scen, scenario=first))
    for c in cands:
        r = replay(work, binary, c, dict(env, VERIF_REPEAT="20", VERIF_REPEAT_S="10"))
        if r.rc != 0:
            return True
    with cf.ThreadPoolExecutor(cores) as ex:
        futs = [ex.submit(replay, work, binary, cands[i % len(cands)],
                          dict(env, VERIF_REPEAT="400", VERIF_REPEAT_S="60"), 150) for i in range(cores)]
        return any(f.result().rc not in (0, "timeout") for f in futs)


def findings(prop):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cores = os.cpu_count() or 4
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        props = {json.loads(l)["id"]: json.loads(l) for l in f if l.strip()}
    if prop not in props:
        raise CheckError("unknown property " + prop)
    work = workdir("verif-%s-" % prop)
    try:
        bins = build(work, prop)
        env = {"VERIF_TIER": tier}
        if "gotit" in bins:
            env["VERIF_GOTIT"] = bins["gotit"]
        for k in ("VERIF_PART", "VERIF_SCALE_PCT", "VERIF_WATCHDOG"):
            if k in os.environ:
                env[k] = os.environ[k]
        limit = 780 if tier == "quick" else 5400
        budget = int(os.environ.get("VERIF_BUDGET_S", "30" if tier == "quick" else "0"))
        viol = None
        known = {}
        parts = {}
        replayed = 0
        unconfirmed = []

        # saved scenarios first: each one failed at some time against a changed or unrepaired tree
        corpus = sorted(glob.glob(os.path.join(HERE, "corpus", prop, "*.json")))
        with cf.ThreadPoolExecutor(cores) as ex:
            def one(f):
                with open(f) as fh:
                    s = json.load(fh)
                s = {k: s[k] for k in ("property", "part", "scenario")}
                return s, replay(work, bins["plain"], s, env)
            for s, r in ex.map(one, corpus):
                replayed += 1
                if viol is not None or r.rc == 0:
                    continue
                if r.rc == 1 and "VERIF-REPLAY: fails" in r.out:
                    viol = (s, r.out[-4000:], "oracle")
                elif signature(r) is not None:
                    viol = (s, "the process died: %s\n%s" % (signature(r), r.err[:8000]), "crash")
                elif r.rc in WATCHDOG:
                    r.current = s
                    viol = judge(work, bins["plain"], r, "saved scenario", env)
                else:
                    raise CheckError("saved scenario ended with %s\n%s" % (r.rc, r.err[-4000:]))

        # generated scenarios
        jobs = []
        shards = cores if tier == "quick" else cores
        for i in range(shards):
            jobs.append((bins["plain"], dict(env, VERIF_BUDGET_S=str(budget), VERIF_RAPID_SEED=str(shard_seed(seed, i, "plain"))), "shard %d" % i))
        if "race" in bins:
            for i in range(max(2, cores // 2)):
                jobs.append((bins["race"], dict(env, VERIF_RACE="1", VERIF_BUDGET_S=str(budget // 2), VERIF_RAPID_SEED=str(shard_seed(seed, i, "race"))),
                             "race shard %d" % i))
        if viol is None:
            with cf.ThreadPoolExecutor(cores) as ex:
                futs = [(b, e, w, ex.submit(execute, work, b, prop, e, limit, w)) for b, e, w in jobs]
                done = [(b, e, w, f.result()) for b, e, w, f in futs]
            errors, failed = [], []
            for i, (b, e, w, r) in enumerate(done):
                try:
                    v = judge(work, b, r, w, env) if viol is None and len(failed) < 2 else None
                except Starved as ce:
                    log("%s; running it again" % ce)
                    e = dict(e, VERIF_RAPID_SEED=str(shard_seed(seed, i, "again")))
                    r = execute(work, b, prop, e, limit, w)
                    try:
                        v = judge(work, b, r, w, env)
                    except CheckError as ce:
                        v = None
                        errors.append(ce)
                except CheckError as ce:
                    v = None
                    errors.append(ce)
                if v is not None and v[2] != "oracle":
                    viol = v
                elif v is not None:
                    failed.append((b, v))
                for p in (r.result or {}).get("parts") or []:
                    q = parts.setdefault(p["part"], {"rule": p["rule"], "evaluations": 0, "nontrivial": 0,
                                                     "hashes": set(), "labels": {}, "samples": []})
                    q["evaluations"] += p["evaluations"]
                    q["nontrivial"] += p["nontrivial"]
                    q["hashes"].update(p["hashes"] or [])
                    for k, v in (p["labels"] or {}).items():
                        q["labels"][k] = q["labels"].get(k, 0) + v
                    q["samples"] += p["samples"] or []
                    for k, v in (p["known"] or {}).items():
                        known[k] = known.get(k, 0) + v
            if viol is None and failed:
                b, v = failed[0]
                if len(failed) > 1 or confirmed(work, b, v[0], v[3] if len(v) > 3 else None, env, cores):
                    viol = v
                else:
                    # one failure that never comes back: look for another one of its kind
                    log("a failure that did not come back: " + v[1][:2000])
                    with cf.ThreadPoolExecutor(cores) as ex:
                        futs = [ex.submit(execute, work, b, prop, dict(env, VERIF_PART=v[0]["part"],
                                          VERIF_RACE="1" if b == bins.get("race") else "0",
                                          VERIF_RAPID_SEED=str(shard_seed(seed, i, "second"))), 240, "second") for i in range(cores)]
                        if any(f.result().rc not in (0, "timeout") for f in futs):
                            viol = v
                        else:
                            unconfirmed.append({"scenario": v[0], "message": v[1][:2000]})
            if viol is None and errors:
                raise errors[0]

        listed = findings(prop)
        for k in known:
            if k not in listed:
                raise CheckError("finding %s is not in KNOWN_FINDINGS" % k)
        evidence(prop, tier, seed, parts, replayed, viol, known, unconfirmed, props[prop], time.time() - t0)
        for k in sorted(known):
            print("KNOWN-FINDING: property=%s %s (seen in %d cases)" % (prop, listed[k], known[k]))
        if viol is not None:
            path = save(prop, *viol[:3])
            log(viol[1])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        for u in unconfirmed:
            print("UNCONFIRMED property=%s one case failed once and in no further run: %s" % (prop, u["message"][:300].replace("\n", " ")))
        n = sum(p["evaluations"] for p in parts.values())
        d = sum(len(p["hashes"]) for p in parts.values())
        print("%s held: %d cases, %d distinct and non-trivial, %.1f s" % (prop, n, d, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, tier, seed, parts, replayed, viol, known, unconfirmed, p, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    for name in sorted(parts):
        for s in parts[name]["samples"][:2]:
            samples.append({"part": name, "scenario": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": sum(q["evaluations"] for q in parts.values()),
            "distinct_nontrivial": sum(len(q["hashes"]) for q in parts.values()),
            "rule": " | ".join("%s: %s" % (n, parts[n]["rule"]) for n in sorted(parts)) or "no generated case completed",
            "samples": samples or ([{"part": viol[0]["part"], "scenario": viol[0]["scenario"]}] if viol else []),
            "per_part": {n: {"evaluations": q["evaluations"], "nontrivial": q["nontrivial"],
                             "distinct_nontrivial": len(q["hashes"]), "labels": dict(sorted(q["labels"].items()))}
                         for n, q in sorted(parts.items())},
            "saved_scenarios_replayed": replayed,
            "known_findings_seen": known,
            "not_reproducible": unconfirmed,
        },
        "assumptions": [
            "cases are drawn by rapid from VERIF_SEED; absence of a violation is evidence, not proof",
            "amd64 Linux, go1.27.3" + (", network replaced through the verif dial seam and a fake clock"
                                       if (p["anchors"].get("hook_needed")) else ""),
        ],
        "wall_s": round(wall, 2), "violations": 0 if viol is None else 1,
    }
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def main(argv):
    if argv == ["--setup"]:
        work = workdir("verif-setup-")
        try:
            build(work, None)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if len(argv) == 3 and argv[1] == "--replay":
        work = workdir("verif-replay-")
        try:
            bins = build(work, argv[0])
            with open(argv[2]) as f:
                s = json.load(f)
            env = {"VERIF_GOTIT": bins["gotit"]} if "gotit" in bins else {}
            kind = "race" if "data race" in s.get("message", "") and "race" in bins else "plain"
            r = replay(work, bins[kind], {k: s[k] for k in ("property", "part", "scenario")}, env)
            sys.stdout.write(r.out)
            sys.stderr.write(r.err)
            if r.rc == 0:
                return 0
            if r.rc in (96, 98, "timeout"):
                return 2
            print("VIOLATION property=%s replay=%s" % (argv[0], argv[2]))
            return 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise CheckError("usage: run.py Cxx quick|thorough")
    return check(argv[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except (CheckError, subprocess.TimeoutExpired, OSError) as e:
        log("CHECK-ERROR:", e)
        sys.exit(2)
