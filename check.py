#!/usr/bin/env python3
"""Driver of the bounded exhaustive checks.

  check.py PROPERTY            explore (tier from VERIF_TIER, default quick)
  check.py PROPERTY TIER
  check.py --replay FILE       re-run one recorded violation
  check.py --setup             build everything

Exit 0: held on everything explored.  1: a violation (line VIOLATION property=... replay=...).  2: error of the check.
"""
import glob, hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")

CORE, GRPPH = "core", "grpph"
# property -> harness programs (crate, binary) that explore it
PROGRAMS = {}
for _p in ("C01", "C02", "C03"):
    PROGRAMS[_p] = [(CORE, "fields")]
for _p in ("C04", "C05", "C06", "C10", "C11"):
    PROGRAMS[_p] = [(CORE, "algebra")]
PROGRAMS["C07"] = [(CORE, "views")]
PROGRAMS["C08"] = [(CORE, "stacks")]
PROGRAMS["C09"] = [(CORE, "views"), (GRPPH, "pathcx")]
for _p in ("R01", "R02", "R03", "R04", "R05"):
    PROGRAMS[_p] = [(CORE, "red")]
PROGRAMS["C12"] = [(CORE, "pure"), (GRPPH, "pathcx")]
PROGRAMS["R06"] = [(CORE, "pres")]
for _p in ("V01", "V02", "V03", "V04", "V05", "V06"):
    PROGRAMS[_p] = [(CORE, "rips")]
for _p in ("G01", "G02", "G06"):
    PROGRAMS[_p] = [(GRPPH, "pathcx")]
for _p in ("G03", "G04", "G05"):
    PROGRAMS[_p] = [(GRPPH, "pathbars")]
PROGRAMS["C13"] = [(CORE, "ub"), (GRPPH, "ubpath")]
PROGRAMS["C14"] = [(CORE, "threads"), (GRPPH, "paththreads")]
NEEDS_CLI = {"V05"}
# explored under the Miri interpreter, which stops at the first undefined operation
MIRI = {"C13"}
MIRI_TARGET = os.path.join(HARNESS, "target-miri")
# explored with scheduling points that the compiler puts at memory accesses (harness/mc/tsan.c)
SCHED = {"C14"}
SCHED_TARGET = os.path.join(HARNESS, "target-sched")
TRIPLE = "x86_64-unknown-linux-gnu"
UB = "Undefined Behavior"

CRASHES = {signal.SIGSEGV: "segmentation fault", signal.SIGABRT: "abort", signal.SIGILL: "illegal instruction",
           signal.SIGBUS: "bus error", signal.SIGFPE: "arithmetic exception", signal.SIGTRAP: "trap"}
BUDGET = {"quick": 600, "thorough": 6 * 3600}


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    e["PYO3_PYTHON"] = "/usr/bin/python3"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MC_FAMILY", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["PHLITE_RIPS_CLI"] = os.path.join(TARGET, "release", "phlite_rips_cli")
    return e


def tree_hash():
    """Content of everything the programs are built from."""
    h = hashlib.sha256()
    roots = [REPO] + [os.path.join(HARNESS, d) for d in ("mc", CORE, GRPPH)]
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "__pycache__"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if not f.endswith((".rs", ".c", ".toml", ".lock", ".pyi", ".md")):
                    continue
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    h.update(b"unreadable")
    return h.hexdigest()


def freshen(target=None):
    """Never trust file times: if any source changed since the last build here, rebuild the packages made from sources."""
    target = target or TARGET
    stamp = os.path.join(target, "sources.sha256")
    now = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old == now:
        return
    for fp in glob.glob(os.path.join(target, "**", "release", ".fingerprint"), recursive=True):
        for x in os.listdir(fp):
            if x.startswith(("phlite", "core_checks", "grpph_checks", "mc-")):
                shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def miri_env():
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["CARGO_TARGET_DIR"] = MIRI_TARGET
    e.pop("RUSTC_WRAPPER", None)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
    return e


def sched_env():
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly-" + TRIPLE
    e["CARGO_TARGET_DIR"] = SCHED_TARGET
    e["RUSTFLAGS"] = ("-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer "
                      "-Cllvm-args=-tsan-instrument-func-entry-exit=0 -Clink-arg=" + os.path.join(SCHED_TARGET, "tsan.o"))
    return e


class Program:
    """A harness program: native, interpreted, or with scheduling points at memory accesses."""

    def __init__(self, crate, name, miri=False, sched=False):
        self.crate, self.name, self.miri, self.sched = crate, name, miri, sched
        self.cwd = os.path.join(HARNESS, crate)
        self.env = miri_env() if miri else sched_env() if sched else env()
        self.args = ["cargo", "miri", "run", "--release", "--offline", "--quiet", "--bin", name, "--"] if miri else \
            [os.path.join(SCHED_TARGET, TRIPLE, "release", name)] if sched else [os.path.join(TARGET, "release", name)]

    def build(self):
        if self.sched:
            r = subprocess.run(["gcc", "-O2", "-fPIC", "-c", os.path.join(HARNESS, "mc", "tsan.c"), "-o",
                                os.path.join(SCHED_TARGET, "tsan.o")], env=self.env, capture_output=True, text=True, errors="replace")
            if r.returncode != 0:
                raise CheckError("cannot compile tsan.c: " + r.stderr[-3000:])
            cargo(["build", "--release", "--offline", "--target", TRIPLE, "--bin", self.name], self.cwd, self.env)
            return
        if not self.miri:
            cargo(["build", "--release", "--offline", "--bin", self.name], self.cwd)
            return
        # the first run compiles
        r = self.run(["families", "none", "quick"])
        if "unknown property" not in r.stdout + r.stderr:
            sys.stderr.write(r.stderr[-6000:])
            raise CheckError(f"cannot interpret {self.name}")

    def run(self, args, **kw):
        return subprocess.run([*self.args, *args], env=self.env, capture_output=True, text=True, errors="replace",
                              cwd=self.cwd if self.miri else None, **kw)

    def start(self, args, err, out):
        return subprocess.Popen([*self.args, *args], env=self.env, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                                preexec_fn=limit if self.miri else limit_native, cwd=self.cwd if self.miri else out, start_new_session=self.miri)

    def kill(self, p):
        if self.miri:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        p.kill()
        p.wait()


def cargo(args, cwd, e=None):
    r = subprocess.run(["cargo", *args], cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise CheckError(f"build failed: cargo {' '.join(args)} in {cwd}")


def build_cli():
    cargo(["build", "--release", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "phlite_rips",
           "--bin", "phlite_rips_cli"], HARNESS)


def build(crate, name, prop):
    miri, sched = prop in MIRI, prop in SCHED
    freshen(MIRI_TARGET if miri else SCHED_TARGET if sched else TARGET)
    p = Program(crate, name, miri, sched)
    p.build()
    return p


def setup():
    freshen()
    for crate in (CORE, GRPPH):
        cargo(["build", "--release", "--offline", "--bins"], os.path.join(HARNESS, crate))
    build_cli()
    for prop in MIRI | SCHED:
        for crate, name in PROGRAMS[prop]:
            build(crate, name, prop)


def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.rstrip("\n")
        if line.startswith("finding: property=%s " % prop):
            rest = line.split(" family=", 1)[1]
            fam, rest = rest.split(" case=", 1)
            case, what = rest.split(" what=", 1)
            out.append((fam, case, what))
    return out


def limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # deep recursion is judged on a fixed stack
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def limit_native():
    limit()
    # an allocation far beyond what any case needs is a crash of that case, not of the machine
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))


def run_children(binary, prop, tier, n, out, only=None, deadline=None):
    procs = {}
    for i in range(n) if only is None else only:
        err = open(os.path.join(out, f"stderr-{i}"), "wb")
        procs[i] = binary.start(["child", prop, tier, str(i), str(n), out], err, out)
    codes = {}
    try:
        while procs:
            for i in list(procs):
                c = procs[i].poll()
                if c is not None:
                    codes[i] = c
                    del procs[i]
            if deadline and time.time() > deadline:
                raise CheckError(f"exploration did not finish in its time budget")
            # once a violation is known, give the other shards a little time to find a simpler one
            if any(c != 0 for c in codes.values()) and deadline:
                deadline = min(deadline, time.time() + 20)
                if not procs:
                    break
                t_end = time.time() + 20
                while procs and time.time() < t_end:
                    for i in list(procs):
                        c = procs[i].poll()
                        if c is not None:
                            codes[i] = c
                            del procs[i]
                    time.sleep(0.02)
                break
            time.sleep(0.02)
    finally:
        for p in procs.values():
            binary.kill(p)
    return codes


def families(binary, prop, tier):
    r = binary.run(["families", prop, tier])
    return [l.split("\t", 1)[1] for l in r.stdout.splitlines() if "\t" in l]


def ub_text(err):
    """What the interpreter says about undefined behaviour, if it does."""
    at = err.find("error: " + UB)
    return err[at:at + 1500] if at >= 0 else None


def undefined(binary, out, i):
    if not binary.miri:
        return None
    return ub_text(open(os.path.join(out, f"stderr-{i}"), "rb").read().decode("utf-8", "replace"))


def violations(binary, prop, tier, out, codes, fams):
    """Candidates (family number, index, record), simplest first."""
    got = []
    for i, code in sorted(codes.items()):
        p = os.path.join(out, f"violation-{i}.json")
        if os.path.exists(p):
            v = json.load(open(p))
            if v["family"].startswith("#"):
                v["family"] = fams[int(v["family"][1:])]
            v["shard"] = i
            got.append((fams.index(v["family"]), v["index"], v))
        elif code < 0 and -code in CRASHES or undefined(binary, out, i):
            b = open(os.path.join(out, f"crumb-{i}"), "rb").read()
            if len(b) < 24:
                raise CheckError(f"shard {i} died with {CRASHES[-code]} before its first case")
            f, idx, _ = struct.unpack("<QQQ", b[:24])
            err = open(os.path.join(out, f"stderr-{i}"), "rb").read().decode("utf-8", "replace")
            what = undefined(binary, out, i) or f"{CRASHES[-code]} {err[-300:].strip()}".strip()
            got.append((f - 1, idx, {"family": fams[f - 1], "index": idx, "case": "", "kind": "crash", "shard": i,
                                     "message": what}))
        elif code != 0:
            err = open(os.path.join(out, f"stderr-{i}"), "rb").read().decode("utf-8", "replace")[-1500:]
            raise CheckError(f"shard {i} of {binary.name} ended with code {code}: {err}")
    got.sort(key=lambda x: (x[0], x[1]))
    return [v for _, _, v in got]


def replay_once(binary, prop, tier, v):
    timeout = 300 if tier == "quick" else 1800
    try:
        r = binary.run(["replay", prop, tier, v["family"], str(v["index"])], timeout=timeout, preexec_fn=limit if binary.miri else limit_native)
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    if r.returncode == 1 and "FAILS" in r.stdout:
        return True, r.stdout.strip()
    if r.returncode < 0 and -r.returncode in CRASHES:
        return True, CRASHES[-r.returncode]
    if binary.miri and ub_text(r.stderr):
        return True, ub_text(r.stderr)
    return False, (r.stdout + r.stderr)[-500:]


def confirm(binary, prop, tier, n, v):
    """Is the violation reproducible?  Returns how it is replayed."""
    if v["kind"] == "divergence":
        ok, text = replay_once(binary, prop, tier, v)
        if ok:
            return "case", text
    else:
        ok, text = replay_once(binary, prop, tier, v)
        ok2, _ = replay_once(binary, prop, tier, v)
        if ok and ok2:
            return "case", text
        if ok or ok2:
            return "case (intermittent)", text
    # the failure may need what earlier cases of the same run left behind
    with tempfile.TemporaryDirectory(prefix="mc-") as out:
        write_known(prop, out)
        codes = run_children(binary, prop, tier, n, out, only=[v["shard"]], deadline=time.time() + 600)
        again = violations(binary, prop, tier, out, codes, families(binary, prop, tier))
        if again and again[0]["family"] == v["family"] and again[0]["index"] == v["index"]:
            return "shard", v["message"]
    return None, text


def write_known(prop, out):
    with open(os.path.join(out, "known.txt"), "w") as f:
        for fam, case, _ in known(prop):
            f.write(f"{fam}\t{case}\n")


def explore(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop in NEEDS_CLI:
        freshen()
        build_cli()
    programs = [(c, b, build(c, b, prop)) for c, b in PROGRAMS[prop]]
    t_built = time.time()
    n = max(1, min(16, os.cpu_count() or 1))
    deadline = time.time() + BUDGET[tier]
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "distinct_outcomes": 0,
                       "exhaustive": True, "families": [], "samples": [], "shards": n},
          "assumptions": [
              "the reference model in /verif/harness (written from the definitions) is right",
              "behaviour outside the stated bounds is not covered",
              "the code under test is deterministic and starts no threads (no randomness, clock or thread in its sources)"],
          "violations": 0}
    cov = ev["coverage"]
    known_hits = []
    found = None
    for crate, name, binary in programs:
        out = tempfile.mkdtemp(prefix="mc-")
        try:
            write_known(prop, out)
            codes = run_children(binary, prop, tier, n, out, deadline=deadline)
            if any(codes.get(i, 0) != 0 for i in range(n)) or len(codes) < n:
                fams = families(binary, prop, tier)
                vs = violations(binary, prop, tier, out, codes, fams)
                if not vs:
                    raise CheckError("a shard stopped without a result")
                lost = None
                for v in vs[:4]:
                    how, text = confirm(binary, prop, tier, n, v)
                    if how:
                        found = (crate, name, binary, v, how, text)
                        break
                    lost = (v, text)
                if not found:
                    raise CheckError(f"a failure did not repeat: {lost}")
                cov["exhaustive"] = False
                break
            # merge
            agg = {}
            for i in range(n):
                r = json.load(open(os.path.join(out, f"result-{i}.json")))
                for f in r["families"]:
                    a = agg.setdefault(f["name"], {"name": f["name"], "bound": f["bound"], "cases": f["total"], "run": 0,
                                                   "traces": 0, "transitions": 0})
                    if a["cases"] != f["total"]:
                        raise CheckError(f"shards disagree about the size of {f['name']}")
                    a["run"] += f["run"]
                    a["traces"] += f["traces"]
                    a["transitions"] += f["transitions"]
                    cov["slowest_case_s"] = max(cov.get("slowest_case_s", 0), f["slowest"])
                cov["samples"].extend(s[:400] for s in r["samples"])
                known_hits.extend(r["known"])
                if r["cut"]:
                    cov["preemption_bounds_lowered"] = cov.get("preemption_bounds_lowered", 0) + r["cut"]
                    cov["exhaustive"] = False
            for a in agg.values():
                if a["run"] != a["cases"]:
                    raise CheckError(f"{a['name']}: {a['run']} of {a['cases']} cases were run")
                cov["transitions"] += a["transitions"]
                cov["traces_validated_against_impl"] += a["traces"]
            cov["families"].extend(agg.values())
            r = binary.run(["merge", out, str(n)])
            m = json.loads(r.stdout.splitlines()[-1])
            cov["states"] += m["states"]
            cov["distinct_outcomes"] += m["outcomes"]
        finally:
            shutil.rmtree(out, ignore_errors=True)
    cov["samples"] = cov["samples"][:12]
    cov["build_s"] = round(t_built - t0, 1)
    if found:
        crate, name, binary, v, how, text = found
        ev["violations"] = 1
        desc = v["case"]
        if not desc:
            r = binary.run(["describe", prop, tier, v["family"], str(v["index"])])
            desc = r.stdout.strip()
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "crate": crate, "binary": name, "family": v["family"],
                       "index": v["index"], "case": desc, "kind": v["kind"], "message": v["message"], "replayed_as": how,
                       "shard": v["shard"], "shards": n, "known_at_the_time": known(prop),
                       "command": f"python3 /verif/check.py --replay {path}"}, f, indent=1)
        cov["samples"] = [f"{v['family']} #{v['index']}: {desc[:400]}"]
    if prop in MIRI:
        ev["assumptions"].append("undefined behaviour is what the Miri interpreter reports (Tree Borrows), on the executions listed")
    if prop == "C14":
        ev["assumptions"].append("control changes hands at atomic operations, accesses to static memory, lock and unlock waits, calls of the caller's own trait "
                                 "implementations and steps between reads; atomic operations are sequentially consistent; other accesses to "
                                 "shared heap memory are taken as atomic between two such points (data races are C13's)")
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    hits = {k for k in known_hits}
    for fam, case, what in known(prop):
        if f"{fam}\t{case}" in hits:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if found:
        print(f"family: {v['family']} index {v['index']}\ncase:   {desc[:2000]}\nfailed: {v['message'][:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} {tier}: held; states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} in {ev['wall_s']} s (build {cov['build_s']} s)")
    return 0


def replay(path):
    v = json.load(open(path))
    if v["property"] in NEEDS_CLI:
        freshen()
        build_cli()
    binary = build(v["crate"], v["binary"], v["property"])
    if v["replayed_as"] == "shard":
        with tempfile.TemporaryDirectory(prefix="mc-") as out:
            write_known(v["property"], out)
            codes = run_children(binary, v["property"], v["tier"], v["shards"], out, only=[v["shard"]], deadline=time.time() + 3600)
            vs = violations(binary, v["property"], v["tier"], out, codes, families(binary, v["property"], v["tier"]))
            print(json.dumps(vs, indent=1) if vs else "HOLDS")
            return 1 if vs else 0
    ok, text = replay_once(binary, v["property"], v["tier"], v)
    print(f"case: {v['case']}\n{text}" if ok else f"HOLDS ({text})")
    return 1 if ok else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            setup()
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in BUDGET:
            tier = "quick"
        return explore(prop, tier)
    except CheckError as e:
        print(f"ERROR {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
