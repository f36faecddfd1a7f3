#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the property's harnesses from /repo's working tree in several
instrumented configurations, runs them, reads the verdicts of their monitors and
writes evidence/<ID>.json.  Exit 0: held on everything observed.  Exit 1: a
VIOLATION line was printed.  Exit 2: the check itself could not be carried out.
"""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS, CONFIGS  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 2))
COMPILE_TIMEOUT = 600
WALL = {"quick": 300, "thorough": 5400}
CPU = {"quick": 150, "thorough": 3600}


class CheckError(Exception):
    pass


def env_for_run(cmd):
    e = dict(os.environ)
    common = "abort_on_error=1:halt_on_error=1:handle_abort=0"
    if any(os.path.basename(x).rstrip("0").endswith("tsan") for x in cmd):
        # abort would run the harness's handler while the runtime holds its locks
        common = "abort_on_error=0:exitcode=66:halt_on_error=1:handle_abort=0"
    e["ASAN_OPTIONS"] = common + (":detect_leaks=0:allocator_may_return_null=1"
                                  ":detect_stack_use_after_return=1"
                                  ":strict_string_checks=1:handle_sigfpe=0")
    e["UBSAN_OPTIONS"] = common + ":print_stacktrace=1:handle_sigfpe=0"
    e["TSAN_OPTIONS"] = common + ":history_size=4"
    e["MSAN_OPTIONS"] = common
    e["LC_ALL"] = "C"
    return e


def run_proc(cmd, timeout, cpu=None, cwd=None):
    """(returncode or None on timeout, stdout, stderr, cpu seconds exhausted)"""
    def limits():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         stdin=subprocess.DEVNULL, cwd=cwd, env=env_for_run(cmd),
                         preexec_fn=limits, errors="replace", text=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    return rc, out, err


def clean(text, build):
    text = text.replace(build, "<build>")
    return re.sub(r"0x[0-9a-f]{6,}", "0x..", text)


def death_key(rc, err):
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assertion", m.group(0)[:300]
    m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
    if m:
        return "asan:" + re.split(r"[ :(]", m.group(1))[0], m.group(1)[:300]
    m = re.search(r"WARNING: ThreadSanitizer: (.*?)(\(|$)", err, re.M)
    if m:
        loc = re.search(r"#\d+ (utils::\S+)", err)
        return "tsan:" + m.group(1).strip().replace(" ", "-"), \
            m.group(0)[:200] + (" in " + loc.group(1) if loc else "")
    m = re.search(r"WARNING: MemorySanitizer: (.*)", err)
    if m:
        return "msan", m.group(0)[:300]
    m = re.search(r"(\S+):(\d+):(\d+): runtime error: (.*)", err)
    if m:
        return "ubsan", "%s:%s: %s" % (os.path.basename(m.group(1)), m.group(2), m.group(4)[:300])
    m = re.search(r"^==\d+== (Invalid (?:read|write) of size \d+|Conditional jump.*|Use of uninit.*)", err, re.M)
    if m:
        return "memcheck:" + m.group(1).split()[0].lower(), m.group(1)
    m = re.search(r"terminate called.*", err)
    if m:
        return "terminate", m.group(0)[:300]
    m = re.search(r"\[ERROR\].*", err, re.S)
    if m:
        return "abort", re.split(r"\n@@", m.group(0))[0][:400].replace("\n", " | ")
    if rc is not None and rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name, err[-300:].replace("\n", " | ")
        except ValueError:
            pass
    return "exit:%s" % rc, err[-300:].replace("\n", " | ")


class Violation:
    def __init__(self, key, detail, **info):
        self.key, self.detail, self.info = key, detail, info


def known_findings(prop):
    """lines:  finding: property=<id> key=<key> match=<text> | what fails"""
    found = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=(.*?) \| (.*)", line)
            if m and m.group(1) == prop:
                found.append((m.group(2), m.group(3), m.group(4).strip()))
    return found


def compile_cmd(job, build):
    cfg = CONFIGS[job["config"]]
    src = job["src"]
    if not os.path.isabs(src):
        src = os.path.join(HERE, "harness", src)
    extra = [s if os.path.isabs(s) else os.path.join(HERE, "harness", s)
             for s in job.get("extra_src", [])]
    inc = ["-I", os.path.join(REPO, "sources/include"),
           "-I", os.path.join(HERE, "harness"),
           "-I", os.path.join(HERE, "harness/shim")]
    # -w would also silence g++'s errors about narrowing
    quiet = [] if job.get("refusable") else ["-w"]
    return ([cfg["cxx"], "-std=c++17"] + quiet + cfg["flags"] + job.get("flags", []) +
            inc + [src] + extra + ["-o", job["exe"]] + job.get("libs", []))


def compile_job(job, build):
    cmd = compile_cmd(job, build)
    rc, out, err = run_proc(cmd, COMPILE_TIMEOUT)
    if rc == 0:
        return None
    infra = rc is None or rc < 0 or re.search(
        r"Killed signal|internal compiler error|No space left|cannot execute|"
        r"virtual memory exhausted|out of memory|cannot allocate memory|cannot fork|cannot find -l", err, re.I)
    if infra and job.get("retry", 0) < 1:
        job["retry"] = 1
        return compile_job(job, build)
    if not infra and job.get("refusable"):
        job["refused"] = True
        return None
    if infra:
        raise CheckError("compiler failed: %s\n%s" % (" ".join(cmd), err[-2000:]))
    m = re.search(r"(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)", err)
    first = m.group(0) if m else err[:400]
    return Violation("does-not-compile", clean(first, build)[:500], config=job["config"],
                     command=" ".join(cmd), stderr=err[-6000:], cases=None)


def probe(configs, build):
    src = os.path.join(build, "probe.cpp")
    with open(src, "w") as f:
        f.write("#include <vmon.h>\n#include <sysops/memory_ops.h>\n"
                "int main(int c, char** v) { return vm::run_main(c, v, [](vm::Rng&, auto) {}); }\n")

    def one(c):
        job = {"config": c, "src": src, "exe": os.path.join(build, "probe-" + c)}
        rc, out, err = run_proc(compile_cmd(job, build), COMPILE_TIMEOUT)
        if rc:
            raise CheckError("toolchain does not work (%s): %s" % (c, err[-1500:]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, configs))


def run_job(job, tier):
    cfg = CONFIGS[job["config"]]
    args = []
    for k in ("seed", "cases", "stream"):
        args += ["--" + k, str(job[k])]
    args += ["--thorough", "1" if tier == "thorough" else "0"]
    if job.get("only") is not None:
        args += ["--only", str(job["only"])]
    args += ["--states", job["exe"] + ".states.%d" % job["stream"]]
    cmd = cfg.get("wrap", []) + [job["exe"]] + args
    job["cmd"] = cmd
    for attempt in (0, 1):
        rc, out, err = run_proc(cmd, WALL[tier], CPU[tier], cwd=os.path.dirname(job["exe"]))
        hang = rc is None or rc in (-signal.SIGXCPU, -signal.SIGKILL)
        if attempt == 0 and rc and "unexpected memory mapping" in err and shutil.which("setarch"):
            cmd = ["setarch", "-R"] + cmd
            continue
        if hang and attempt == 0:
            continue
        break
    m = re.search(r"@@VIOLATION (\S+)\t(.*)", out)
    case = re.search(r"@@CASE (\d+)", out + err)
    ops = re.findall(r"@@OP (.*)", out + err)
    info = dict(config=job["config"], command=" ".join(cmd), ops=ops,
                case=int(case.group(1)) if case else None, stderr=err[-6000:],
                stream=job["stream"], seed=job["seed"], cases=job["cases"],
                src=job["src"], flags=job.get("flags", []))
    if m:
        return Violation(m.group(1), m.group(2), **info), None
    if hang:
        return Violation("hang", "no end after %s, twice" %
                         ("%d s" % WALL[tier] if rc is None else "%d s of CPU time" % CPU[tier]), **info), None
    if rc == 0:
        c = re.search(r"^@@COV (\{.*\})$", out, re.M)
        if not c:
            raise CheckError("no coverage from %s: %s %s" % (cmd, out[-500:], err[-500:]))
        cov = json.loads(c.group(1))
        cov["config"] = job["config"]
        cov["states_file"] = job["exe"] + ".states.%d" % job["stream"]
        if not cov["events"] and job.get("only") is None:
            raise CheckError("nothing observed by %s" % cmd)
        return None, cov
    if rc == 3 or (rc == 127):
        raise CheckError("harness error: %s\n%s" % (cmd, err[-2000:]))
    if re.search(r"unexpected memory mapping|failed to (allocate|mmap)|Shadow memory range interleaves|"
                 r"out of memory|failed to intercept", err) and not ops:
        raise CheckError("sanitizer cannot run: %s\n%s" % (cmd, err[-2000:]))
    key, detail = death_key(rc, err)
    return Violation(key, detail, **info), None


def make_jobs(prop, tier, seed, build):
    spec = CHECKS[prop]
    jobs = []
    sources = []
    if "generate" in spec:
        t0 = time.time()
        for i, made in enumerate(spec["generate"](seed, tier)):
            refusable = {}
            if isinstance(made, dict):
                # may be refused by the compiler, or else must compile with all
                refusable = {"refusable": True} if made["refusable"] else {"configs": spec["configs"]}
                made = made["name"], made["text"]
            name, text, *more = made
            paths = []
            for name, text in [(name, text)] + (more[0] if more else []):
                paths.append(os.path.join(build, name))
                with open(paths[-1], "w") as f:
                    f.write(text)
            sources.append(dict(src=paths[0], extra_src=paths[1:] + spec.get("listener", []), flags=["-DVM_GENERATED"],
                                generated=True, **refusable))
    for h in spec.get("harness", []):
        sources.append(h)
    stream = 0
    for si, h in enumerate(sources):
        confs = h.get("configs") or spec["configs"]
        if tier == "thorough":
            confs = h.get("thorough_configs") or spec.get("thorough_configs") or confs
        if h.get("generated") and "configs" not in h:
            # every program in one configuration, the configurations in turn
            confs = [confs[si % len(confs)]]
        for c in confs:
            exe = os.path.join(build, "h%d-%s" % (si, c))
            cases, shards = h.get("cases", {"quick": (1, 1), "thorough": (1, 1)})[tier]
            scale = CONFIGS[c].get("scale", 1)
            job = dict(src=h["src"], config=c, exe=exe, flags=list(h.get("flags", [])),
                       extra_src=h.get("extra_src", []), libs=h.get("libs", []), refusable=h.get("refusable"))
            if tier == "thorough":
                job["flags"].append("-DTHOROUGH")
            runs = []
            for s in range(shards):
                runs.append(dict(job, seed=seed, cases=max(1, int(cases * scale)), stream=stream))
                stream += 1
            jobs.append((job, runs))
    return jobs


def is_known(v, known):
    return any(k[0] == v.key and k[1] in v.detail for k in known)


def check(prop, tier, seed, replay=None):
    t0 = time.time()
    spec = CHECKS[prop]
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    build = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    violations, covs, refused = [], [], []
    try:
        jobs = make_jobs(prop, tier, seed, build)
        if replay:
            jobs = [(j, [dict(r, only=replay.get("case")) for r in rs
                         if r["stream"] == replay.get("stream") or replay.get("stream") is None])
                    for j, rs in jobs if j["config"] == replay["config"]]
            jobs = [x for x in jobs if x[1]]

        def whole(pair):
            job, runs = pair
            v = compile_job(job, build)
            if v:
                v.info["src"] = job["src"]
                return [(v, None)], []
            if job.get("refused"):
                refused.append(os.path.basename(job["src"]))
                return [], []
            return [], runs
        todo = []
        with ThreadPoolExecutor(JOBS) as ex:
            for got, runs in ex.map(whole, jobs):
                violations += [v for v, _ in got]
                todo += runs
        if violations:
            probe(sorted({j["config"] for j, _ in jobs}), build)
        known = known_findings(prop)
        found = []

        def run(r):
            # a violation is enough for a verdict: hanging runs are not
            # started one after another
            if found and tier == "quick":
                return None, None
            v, c = run_job(r, tier)
            if v and not is_known(v, known):
                found.append(v)
            return v, c
        # multi-threaded harnesses get the machine for themselves
        with ThreadPoolExecutor(1 if spec.get("exclusive") else JOBS) as ex:
            for v, c in ex.map(run, todo):
                if v:
                    violations.append(v)
                if c:
                    covs.append(c)
        states = set(refused)
        for c in covs:
            f = c.pop("states_file")
            if os.path.exists(f):
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                states.update(a)
    finally:
        shutil.rmtree(build, ignore_errors=True)

    counters = {}
    per_config = {}
    for c in covs:
        for k, v in c["counters"].items():
            counters[k] = counters.get(k, 0) + v
        pc = per_config.setdefault(c["config"], dict(runs=0, cases=0, events=0))
        pc["runs"] += 1
        pc["cases"] += c["cases"]
        pc["events"] += c["events"]
    if refused:
        counters["refused by the compiler"] = len(refused)
    samples = []
    for c in covs:
        for s in c["samples"]:
            if len(samples) < 6 and s not in samples:
                samples.append(s)

    new = [v for v in violations if not is_known(v, known)]
    for k in known:
        if not replay:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))

    cases = sum(c["cases"] for c in covs) + len(refused)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
        coverage=dict(
            evaluations=cases, distinct_nontrivial=len(states), rule=spec["rule"],
            samples=samples, events_observed=sum(c["events"] for c in covs),
            counters=counters, configurations=per_config),
        assumptions=spec.get("assumptions", []) + [
            "Runtime monitoring: says what held on the executions observed, not on others.",
            "The operating system layer is a stand-in that records and forwards to libc."
            if prop.startswith("M") else "Compilers g++ 13 and clang++ 18 on x86-64 Linux."],
        wall_s=round(time.time() - t0, 2), violations=len(new))
    if not replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    seen = set()
    for n, v in enumerate(new):
        if v.key in seen:
            continue
        seen.add(v.key)
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "-", v.key)))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, key=v.key, detail=v.detail,
                           replay="python3 run.py %s --replay %s" % (prop, path),
                           **{k: x for k, x in v.info.items() if k != "seed"}), f, indent=1)
            f.write("\n")
        print("  %s: %s [%s, case %s]" % (v.key, v.detail, v.info.get("config"), v.info.get("case")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%d: %d cases, %d events, %d distinct, %.1f s: %s" % (
        prop, tier, seed, cases, evidence["coverage"]["events_observed"], len(states),
        time.time() - t0, "%d violation(s)" % len(new) if new else "held on all of them"))
    if not new and not replay and (not covs or len(states) < spec.get("min_distinct", 2)):
        raise CheckError("too little observed: %d runs, %d distinct" % (len(covs), len(states)))
    return 1 if new else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # nothing to build ahead: only whether the toolchain works here
        build = tempfile.mkdtemp(prefix="setup-")
        try:
            probe(sorted(CONFIGS), build)
        except CheckError as e:
            print(e, file=sys.stderr)
            return 1
        finally:
            shutil.rmtree(build, ignore_errors=True)
        return 0
    if not a or a[0] not in CHECKS:
        print("usage: run.py <%s> [--tier quick|thorough] [--seed N] [--replay FILE]" % "|".join(CHECKS), file=sys.stderr)
        return 2
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--replay":
            replay = json.load(open(a[i + 1]))
            tier, seed = replay["tier"], replay["seed"]
        i += 2
    if tier not in WALL:
        tier = "quick"
    try:
        return check(prop, tier, seed, replay)
    except CheckError as e:
        print("CHECK ERROR %s: %s" % (prop, e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
