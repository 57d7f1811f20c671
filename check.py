#!/usr/bin/env python3
"""Decides one property of ml-essentials by generated-input search.

usage: check.py ID quick|thorough            run the property's tests
       check.py ID --replay PATH             rerun a recorded violation

Builds harness/props against /repo's working tree, runs the tests named
Test<ID>_* in several shards with different seeds, merges their counts into
evidence/<ID>.json and reports violations as explained in DESIGN.md.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
LIB = "rom1mouret/ml-essentials/"

# per property: scale of the quick and of the thorough tier, shards, options
# (checks.json: {"C31": {"quick": [scale, shards], "thorough": ..., "race_quick": [scale, shards], ...}};
# the race shards run a second binary, built with the race detector)
DEFAULT = {"quick": (20.0, 7), "thorough": (250.0, 8), "race_quick": (0, 0), "race_thorough": (0, 0)}
# seconds after which a process generates no more cases
BUDGET = {"quick": 300, "thorough": 600}
CONF = {}
conf_path = os.path.join(HERE, "checks.json")
if os.path.exists(conf_path):
    with open(conf_path) as f:
        CONF = json.load(f)


def go_env():
    env = dict(os.environ)
    env.update({
        "HOME": "/root",
        "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly", "GOWORK": "off",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
        "GOTRACEBACK": "all",
    })
    for k in ("GODEBUG", "GOEXPERIMENT", "GOMAXPROCS", "GOGC", "GOMEMLIMIT"):
        env.pop(k, None)
    return env


def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(3)


def build(binary, race):
    cmd = ["go", "test", "-c", "-vet=off", "-o", binary]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + ["./props"], cwd=HARNESS, env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail("the harness does not build against /repo:\n" + r.stdout[-4000:])


def shard_seed(seed, prop, shard, extra=""):
    h = hashlib.sha256(f"{seed}/{prop}/{shard}/{extra}".encode()).digest()
    return (int.from_bytes(h[:8], "big") >> 1) | 1


class Shard:
    def __init__(self, work, binary, prop, seed, idx, scale, tier, pattern=None, extra="", size=None, args=(), timeout=800, tests=1):
        self.race = False
        self.dir = os.path.join(work, f"shard{idx}{extra}")
        self.cwd = os.path.join(self.dir, "cwd")
        self.stats = os.path.join(self.dir, "stats")
        os.makedirs(self.cwd)
        os.makedirs(self.stats)
        os.makedirs(os.path.join(self.dir, "tmp"))
        self.scale = scale
        self.seed = shard_seed(seed, prop, idx, extra)
        self.out = os.path.join(self.dir, "out.txt")
        env = go_env()
        env.update({"VERIF_STATS": self.stats, "VERIF_SCALE": str(scale), "VERIF_TIER": tier,
                    "TMPDIR": os.path.join(self.dir, "tmp"), "VERIF_SHARD": str(idx),
                    "GORACE": "halt_on_error=1 exitcode=66"})
        # generation ends well before the limits of the tier
        env["VERIF_BUDGET"] = str(min(BUDGET[tier], timeout / 2))
        env["VERIF_TESTS"] = str(tests)
        if size is not None:
            env["VERIF_SIZE"] = str(size)
        self.pattern = pattern or f"^Test{prop}_"
        self.args = [binary, "-test.run", self.pattern, "-test.timeout", f"{timeout}s",
                     f"-rapid.seed={self.seed}", "-rapid.shrinktime=8s"] + list(args)
        self.deadline = time.time() + timeout + 20
        self.f = open(self.out, "wb")
        self.p = subprocess.Popen(self.args, cwd=self.cwd, env=env, stdout=self.f, stderr=self.f,
                                  stdin=subprocess.DEVNULL, start_new_session=True)

    def wait(self):
        try:
            self.rc = self.p.wait(max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.rc = self.p.wait()
        self.f.close()
        with open(self.out, errors="replace") as f:
            self.text = f.read()
        return self.rc

    def stop(self):
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()

    def read(self, name):
        p = os.path.join(self.stats, name)
        if os.path.exists(p):
            with open(p, errors="replace") as f:
                return f.read()
        return ""

    def verdict(self):
        """(kind, detail): ok, violation or error."""
        t = self.text
        if self.rc == 0:
            return "ok", ""
        if self.rc == 97:
            return "violation", self.read("abort.txt") or t[-6000:]
        if self.rc == 66 and "WARNING: DATA RACE" in t:
            rep = t[t.index("WARNING: DATA RACE"):]
            if LIB in rep:
                return "violation", rep[:8000]
            return "error", "a data race outside the library:\n" + rep[:4000]
        if "panic: test timed out after" in t:
            return "error", "timed out\n" + t[-3000:]
        m = re.search(r"^(panic: |fatal error: )", t, re.M)
        if m and self.rc == 2:
            rep = t[m.start():]
            first = re.split(r"\n\n(?=goroutine )", rep)
            crashing = "\n\n".join(first[:2])
            if "out of memory" in first[0] or "cannot allocate" in first[0]:
                return "error", rep[:3000]
            if LIB in crashing or (rep.startswith("fatal error: all goroutines are asleep") and LIB in rep) \
                    or ("concurrent map" in first[0] and LIB in rep):
                return "violation", "the process crashes\n" + self.read("current_case.txt") + "\n" + rep[:6000]
            return "error", rep[:4000]
        if self.rc == 1 and "--- FAIL" in t:
            if "[rapid] only generated" in t and "[rapid] failed after" not in t and "[rapid] panic after" not in t:
                return "error", t[-3000:]
            bad = [s for s in self.all_stats() if s.get("failed")]
            detail = "\n".join(f"{s['test']}\ncase:\n{s.get('failed_case', '')}" for s in bad)
            msgs = [ln for ln in t.splitlines() if "[rapid] draw" not in ln]
            return "violation", "\n".join(msgs)[:8000] + "\n" + detail
        return "error", f"exit status {self.rc}\n" + t[-3000:]

    def all_stats(self):
        out = []
        for name in sorted(os.listdir(self.stats)):
            if name.endswith(".json"):
                with open(os.path.join(self.stats, name)) as f:
                    out.append(json.load(f))
        return out

    def failfile(self):
        for root, _, files in os.walk(self.cwd):
            for n in sorted(files):
                if n.endswith(".fail"):
                    return os.path.join(root, n)
        return None

    def failing_test(self):
        m = re.search(r"^\s*--- FAIL: (\w+)", self.text, re.M)
        if m:
            return m.group(1)
        for name in ("abort.txt", "current_case.txt"):
            m = re.search(r"^(Test\w+)$", self.read(name), re.M)
            if m:
                return m.group(1)
        return None


def run_shards(shards):
    """Waits for all the shards, but not for the rest once one has failed."""
    pending = list(shards)
    stop = False
    while pending:
        for s in list(pending):
            if s.p.poll() is not None or time.time() > s.deadline:
                s.wait()
                pending.remove(s)
                if s.verdict()[0] == "violation":
                    stop = True
        if stop:
            break
        time.sleep(0.02)
    for s in pending:
        s.stop()
        s.rc, s.text = None, ""
        s.f.close()
    return [s for s in shards if s.rc is not None]


def minimise(work, binary, prop, seed, test, tier):
    """A crash or a hang ends the process, so rapid cannot shrink it: search
    again among ever larger inputs, and keep the first that fails."""
    end = time.time() + 60
    for size in (0, 1, 2, 4):
        for k in range(3):
            if time.time() > end:
                return None
            s = Shard(work, binary, prop, seed, k, 1.0, tier, pattern=f"^{test}$", extra=f"min{size}_{k}", size=size, timeout=30)
            s.wait()
            v, d = s.verdict()
            if v == "violation":
                return s, d, size
    return None


def main():
    if sys.argv[1:] == ["--setup"]:
        # fills the build cache; the checks build again from /repo's working tree
        work = tempfile.mkdtemp(prefix="verif-setup-")
        for race in (False, True):
            build(os.path.join(work, "props.test"), race)
        shutil.rmtree(work)
        sys.exit(0)
    if len(sys.argv) < 3:
        print(__doc__)
        sys.exit(3)
    prop, tier = sys.argv[1], sys.argv[2]
    conf = dict(DEFAULT)
    conf.update(CONF.get(prop, {}))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        sys.exit(replay(prop, conf, sys.argv[3], work) if tier == "--replay" else run(prop, tier, conf, seed, work))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(prop, conf, path, work):
    with open(path) as f:
        rec = json.load(f)
    binary = os.path.join(work, "props.test")
    build(binary, rec.get("race", False))
    args = []
    if rec.get("failfile_text"):
        ff = os.path.join(work, "replay.fail")
        with open(ff, "w") as f:
            f.write(rec["failfile_text"])
        args = [f"-rapid.failfile={ff}"]
    else:
        args = [f"-rapid.seed={rec['rapid_seed']}"]
    s = Shard(work, binary, prop, rec["seed"], 0, rec["scale"], rec["tier"], pattern=f"^{rec['test']}$", extra="replay",
              size=rec.get("size"), args=args)
    s.wait()
    print(s.text)
    kind, detail = s.verdict()
    print(kind.upper(), detail if kind != "ok" else "")
    return {"ok": 0, "violation": 1}.get(kind, 3)


def run(prop, tier, conf, seed, work):
    t0 = time.time()
    if tier not in ("quick", "thorough"):
        fail("unknown tier " + tier)
    scale, nshards = conf[tier]
    binary = os.path.join(work, "props.test")
    build(binary, False)
    rscale, nrace = conf["race_" + tier]
    names = subprocess.run([binary, "-test.list", f"^Test{prop}_"], cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, text=True).stdout
    ntests = max(1, len(re.findall(r"^Test", names, re.M)))
    shards = []
    if nrace:
        rbinary = os.path.join(work, "props.race.test")
        build(rbinary, True)
        for i in range(nrace):
            shards.append(Shard(work, rbinary, prop, seed, i, rscale, tier, extra="race", tests=ntests))
            shards[-1].race = True
    shards += [Shard(work, binary, prop, seed, i, scale, tier, tests=ntests) for i in range(nshards)]
    done = run_shards(shards)
    violation = error = None
    for s in done:
        kind, detail = s.verdict()
        if kind == "violation" and violation is None:
            violation = (s, detail)
        elif kind == "error" and error is None:
            error = (s, detail)

    # evidence
    evals, hashes, labels, samples, rules, tests = 0, set(), {}, [], [], {}
    for s in done:
        for st in s.all_stats():
            evals += st["evaluations"]
            tt = tests.setdefault(st["test"], {"evaluations": 0, "nontrivial": 0, "labels": {}})
            tt["evaluations"] += st["evaluations"]
            tt["nontrivial"] += st["nontrivial"]
            for k, v in (st["labels"] or {}).items():
                tt["labels"][k] = tt["labels"].get(k, 0) + v
            if st["rule"] not in rules:
                rules.append(st["rule"])
            for x in (st["samples"] or [])[1:3]:
                if len(samples) < 12 and sum(1 for y in samples if y.startswith(st["test"] + ":")) < 2:
                    samples.append(st["test"] + ":\n" + x)
        for name in os.listdir(s.stats):
            if name.endswith(".hashes"):
                with open(os.path.join(s.stats, name), "rb") as f:
                    b = f.read()
                for i in range(0, len(b), 8):
                    hashes.add(b[i:i + 8])
    if not samples:
        for s in done:
            for st in s.all_stats():
                for x in (st["samples"] or [])[:1]:
                    if len(samples) < 12:
                        samples.append(st["test"] + ":\n" + x)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join(rules) + " || distinct: by the hash of the full description of the case",
            "samples": samples,
            "tests": tests,
            "shards": len(done),
            "shards_with_race_detector": sum(1 for s in done if s.race),
        },
        "assumptions": [
            "the oracle in harness/props is right; it shares no code with the library",
            "inputs outside the generators' documented bounds are not covered (DESIGN.md)",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    def write_evidence():
        evidence["wall_s"] = round(time.time() - t0, 2)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")

    if violation:
        s, detail = violation
        test = s.failing_test()
        rec = {"property": prop, "test": test, "tier": tier, "seed": seed, "scale": s.scale, "rapid_seed": s.seed,
               "race": s.race, "detail": detail}
        ff = s.failfile()
        if ff:
            with open(ff, errors="replace") as f:
                rec["failfile_text"] = f.read()
        elif test:
            m = minimise(work, rbinary if s.race else binary, prop, seed, test, tier)
            if m:
                ms, d, size = m
                rec.update({"rapid_seed": ms.seed, "size": size, "scale": 1.0, "detail": d})
                ff = ms.failfile()
                if ff:
                    with open(ff, errors="replace") as f:
                        rec["failfile_text"] = f.read()
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{prop}-{seed}-{tier}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, ensure_ascii=False)
        write_evidence()
        print(rec["detail"][:6000])
        print(f"replay with: {os.path.join(HERE, 'check.py')} {prop} --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    write_evidence()
    if error:
        s, detail = error
        fail(f"shard {s.dir}: {detail}")
    if evals == 0:
        fail("no case was generated")
    # a listed finding is printed unless a test on that input sees it gone
    seen = {k: v for t in tests.values() for k, v in t["labels"].items()}
    for line in known(prop):
        if prop != "C11" or any(k.startswith("KNOWN:") for k in seen):
            print(line)
    print(f"OK property={prop} tier={tier} evaluations={evals} distinct_nontrivial={len(hashes)} wall_s={evidence['wall_s']}")
    return 0


def known(prop):
    path = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for ln in f:
            m = re.match(r"known: property=(\w+) (.*)", ln)
            if m and m.group(1) == prop:
                out.append(f"KNOWN-FINDING: property={prop} {m.group(2).strip()}")
    return out


if __name__ == "__main__":
    main()
