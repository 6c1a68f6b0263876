#!/usr/bin/env python3
"""Decides one property of INNC by running its workload under monitors.

  check.py C01                 run the check (VERIF_TIER, VERIF_SEED)
  check.py C01 --replay FILE   run only the case that a replay file names
  check.py --build-all         build everything (setup)

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: inconclusive or the check itself failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("INNC_REPO", "/repo")  # the override is for development
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
NCPU = max(1, min(8, os.cpu_count() or 1))
PROPS = ["C%02d" % i for i in range(1, 25)]

BASE = ["-std=c++20", "-include", "algorithm", "-g1", "-D_GLIBCXX_ASSERTIONS=1",
        "-fno-omit-frame-pointer", "-w"]
VARIANTS = {
    "asan": ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O0", "-fsanitize=thread"],
    "memcheck": ["-O0", "-DMEMCHECK"],  # run under valgrind
}
def variant_of(prop):
    return "tsan" if prop == "C16" else "asan"


def variants_of(prop):
    """The builds in which the workload of prop runs, one after the other."""
    v = [variant_of(prop)]
    if prop == "C15" and shutil.which("valgrind"):
        v.append("memcheck")
    return v


# what a variant's binaries run under
WRAP = {"memcheck": ["valgrind", "-q", "--error-exitcode=97", "--leak-check=no",
                     "--exit-on-first-error=yes", "--num-callers=24"]}


LEVEL = "exploration"
STALL = 200  # seconds that one case may take


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ building
def lib_sources():
    """The library's translation units, as the repository's build lists them."""
    src = []
    try:
        txt = open(os.path.join(REPO, "meson.build")).read()
        m = re.search(r"library\(\s*'INNC'(.*?)\)", txt, re.S)
        if m:
            src = re.findall(r"'([^']+\.(?:cpp|cc|cxx))'", m.group(1))
    except OSError:
        pass
    src = [s for s in src if os.path.exists(os.path.join(REPO, s))]
    if not src:
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            src += [os.path.relpath(os.path.join(d, f), REPO)
                    for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(os.path.join(REPO, s) for s in src)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def compile_one(cxx, flags, src, key_extra=""):
    """Object file for src; cached by the preprocessed text and the flags."""
    inc = ["-I", os.path.join(REPO, "include"), "-I", HARN]
    pre = subprocess.run([cxx, *flags, *inc, "-E", "-P", src], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    if pre.returncode:
        return None, pre.stderr.decode(errors="replace")
    h = hashlib.sha256()
    h.update(repr((cxx, flags)).encode())
    h.update(pre.stdout)
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = run([cxx, *flags, *inc, "-c", src, "-o", tmp])
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, obj)
    return obj, ""


def build(variant, workloads, cxx="clang++"):
    """Returns {workload: binary}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags = BASE + VARIANTS[variant]
    common = [os.path.join(HARN, f + ".cpp")
              for f in ("common", "prog", "dag", "freeprog")]
    lib = lib_sources()
    work = {w: os.path.join(HARN, "w_%s.cpp" % w) for w in workloads}
    todo = lib + common + list(work.values())
    # the biggest first
    todo.sort(key=lambda p: -os.path.getsize(p))
    with ThreadPoolExecutor(NCPU) as ex:
        res = dict(zip(todo, ex.map(lambda s: compile_one(cxx, flags, s), todo)))
    for s in todo:
        if res[s][0] is None:
            if cxx == "clang++":
                return build(variant, workloads, "g++")
            raise Inconclusive("cannot compile %s:\n%s" % (s, res[s][1][-3000:]))
    out = {}

    def link(w):
        objs = [res[s][0] for s in lib + common + [work[w]]]
        h = hashlib.sha256(repr((cxx, flags, objs)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (w, variant, h))
        if not os.path.exists(exe):
            tmp = exe + ".%d" % os.getpid()
            r = run([cxx, *flags, *objs, "-lpthread", "-o", tmp])
            if r.returncode:
                raise Inconclusive("cannot link %s:\n%s" % (w, r.stdout[-3000:]))
            os.replace(tmp, exe)
        return exe

    with ThreadPoolExecutor(NCPU) as ex:
        for w, exe in zip(work, ex.map(link, list(work))):
            out[w] = exe
    return out


# ------------------------------------------------------------------- running
def env_for(prop):
    e = dict(os.environ)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    leaks = "1" if prop == "C14" else "0"
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=97:detect_leaks=%s:"
                         "detect_stack_use_after_return=1:strict_init_order=1:"
                         "max_malloc_fill_size=67108864:"
                         "allocator_may_return_null=0:max_allocation_size_mb=8192:"
                         "hard_rss_limit_mb=3500:handle_abort=1" % leaks)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=97"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1"
    e["LSAN_OPTIONS"] = "exitcode=97"
    if sym:
        e["ASAN_SYMBOLIZER_PATH"] = sym
    for k in ("MALLOC_PERTURB_", "LD_PRELOAD"):
        e.pop(k, None)
    return e


class Shard:
    def __init__(self, exe, prop, seed, tier, args, work, name):
        self.exe = exe  # (variant, path)
        self.base = os.path.join(work, exe[0] + name)
        self.out, self.status = self.base + ".json", self.base + ".status"
        self.err = self.base + ".err"
        cmd = [*WRAP.get(exe[0], []), exe[1], "--seed", str(seed), "--out", self.out, "--status", self.status,
               *[str(a) for a in args]]
        if tier == "thorough":
            cmd.append("--thorough")
        self.cmd = cmd
        self.seen, self.since = None, time.time()
        self.f = open(self.err, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=self.f,
                                  stdin=subprocess.DEVNULL, env=env_for(prop),
                                  start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def done(self):
        self.f.close()

    def text(self):
        try:
            d = open(self.err, "rb").read()
        except OSError:
            return ""
        return (d if len(d) < 40000 else d[:30000] + b"\n...\n" + d[-10000:]).decode(
            errors="replace")

    def case(self):
        try:
            return int(open(self.status).read().split()[0])
        except (OSError, ValueError, IndexError):
            return None

    def result(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None


# messages of a runtime that could not do its work, which say nothing about INNC
INFRA = ("harness error", "valgrind: the 'impossible' happened",
         "valgrind: Unrecognised instruction", "valgrind: failed to start",  "ThreadSanitizer: unexpected memory mapping",
         "LeakSanitizer has encountered a fatal error",
         "Shadow memory range interleaves", "ReserveShadowMemoryRange failed")


def verdict(sh, rc):
    """('ok'|'violation'|'infra'|'hang', message)"""
    txt = sh.text()
    if rc == 0:
        return "ok", ""
    res = sh.result()
    if rc == 1 and res and res.get("violation"):
        return "violation", res["violation"]
    if rc == 124:
        return "hang", txt.strip()[-500:] or "the case does not end"
    if rc == 3 or any(m in txt for m in INFRA):
        return "infra", txt[-2000:]
    if rc == -signal.SIGKILL:
        return "infra", "killed (memory?)"
    m = re.search(r"(ERROR: \w+Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                  r"[^\n]*runtime error:[^\n]*|terminate called[^\n]*|"
                  r"Conditional jump or move depends on uninit[^\n]*|"
                  r"Use of uninitialised value[^\n]*|Invalid (?:read|write)[^\n]*|"
                  r"[^\n]*Assertion[^\n]*)", txt)
    return "violation", "crashed: " + (m.group(1) if m else "exit status %d" % rc)


def explore(prop, exe, seed, tier, work):
    cnt = subprocess.run([exe[1], "--count"] + (["--thorough"] if tier == "thorough" else []),
                         stdout=subprocess.PIPE, text=True, env=env_for(prop))
    total = int(cnt.stdout)
    nsh = NCPU
    if prop == "C16":
        nsh = max(1, NCPU // 2)  # its cases are multi-threaded
    limit = float(os.environ.get("CHECK_LIMIT", 420 if tier == "quick" else 6 * 3600))
    shards = [Shard(exe, prop, seed, tier, ["--from", i, "--to", total, "--step", nsh],
                    work, "shard%d" % i) for i in range(nsh)]
    t0 = t_stall = time.time()
    live = set(shards)
    bad = []
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s.p.poll()
            if rc is None:
                continue
            live.discard(s)
            s.done()
            v, msg = verdict(s, rc)
            if v != "ok":
                bad.append((v, msg, s))
        # a case that does not end: no other case has begun for a long time
        if time.time() - t_stall > 1:
            t_stall = time.time()
            for s in list(live):
                k = s.case()
                if k != s.seen:
                    s.seen, s.since = k, t_stall
                elif k is not None and t_stall - s.since > STALL:
                    live.discard(s)
                    s.kill()
                    s.done()
                    bad.append(("hang", "no progress for %d s" % STALL, s))
        if any(v in ("violation", "hang") for v, _, _ in bad):
            for s in live:
                s.kill()
                s.done()
            live.clear()
        if time.time() - t0 > limit:
            for s in live:
                s.kill()
                s.done()
                bad.append(("hang", "no end within %.0f s" % limit, s))
            live.clear()
    return total, shards, bad


def run_single(prop, exe, seed, tier, case, work, timeout):
    s = Shard(exe, prop, seed, tier, ["--from", case, "--to", case + 1], work,
              "single%d" % case)
    try:
        rc = s.p.wait(timeout)
    except subprocess.TimeoutExpired:
        s.kill()
        s.done()
        return "hang", "case %d does not end within %d s" % (case, timeout), s
    s.done()
    v, msg = verdict(s, rc)
    return v, msg, s


def load_findings():
    known = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError:
        pass
    return known


def write_replay(prop, seed, tier, case, msg, log, text, bld):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-case%s.json" % (prop, seed, case))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "case": case,
                   "build": bld, "what_failed": msg, "what_the_case_did": log,
                   "output": text[-12000:],
                   "replay_with": "python3 check.py %s --replay %s" % (prop, path)},
                  f, indent=1)
    return path


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--build-all":
        for v in VARIANTS:
            build(v, [p for p in PROPS if v in variants_of(p)])
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--replay":
            replay = json.load(open(a.pop(0)))
        elif x in ("quick", "thorough"):
            tier = x
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    exes = [(v, build(v, [prop])[prop]) for v in variants_of(prop)]
    t_build = time.time() - t0
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        if replay:
            exe = [e for e in exes if e[0] == replay.get("build", exes[0][0])][0]
            v, msg, s = run_single(prop, exe, replay["seed"], replay["tier"],
                                   replay["case"], work, 600)
            print(s.text())
            print(v, msg)
            return 1 if v == "violation" else 0 if v == "ok" else 2
        return decide(prop, exes, seed, tier, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, exes, seed, tier, work, t0, t_build):
    total, shards, bad = 0, [], []
    for exe in exes:
        n, sh, b = explore(prop, exe, seed, tier, work)
        total, shards, bad = total + n, shards + sh, bad + b
        if any(v in ("violation", "hang") for v, _, _ in bad):
            break
    viols = []  # (case, msg, log, text, build)
    notes = []
    infra = []
    bad.sort(key=lambda b: b[0] != "violation")
    for v, msg, s in bad:
        if viols:
            break
        case = s.case()
        if v == "violation":
            res = s.result() or {}
            log = res.get("log", "")
            viols.append((res.get("index", case) if res.get("violation") else case,
                          msg, log, s.text(), s.exe[0]))
        elif case is not None:
            # once more, alone: a hang has to repeat to be one
            v2, msg2, s2 = run_single(prop, s.exe, seed, tier, case, work, 200)
            if v2 == "violation" or (v2 == "hang" and v == "hang"):
                viols.append((case, msg2, (s2.result() or {}).get("log", ""), s2.text(),
                              s.exe[0]))
            else:
                infra.append("%s (case %s): %s" % (v, case, msg))
        else:
            infra.append("%s: %s" % (v, msg))
    # what was observed
    counts, samples, distinct = {}, [], set()
    cases = disc = 0
    for s in shards:
        r = s.result()
        if not r:
            continue
        cases += r["cases"]
        disc += r["discarded"]
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        distinct.update(r["distinct"])
        samples += r["samples"][:2]
    known = load_findings()
    reported = []
    for k in sorted(counts):
        if k.startswith("known_finding:"):
            fid = k.split(":", 1)[1]
            if (prop, fid) in known:
                reported.append("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, fid)]))
            else:
                viols.append((0, "finding %s is not listed" % fid, "", "",
                              exes[0][0]))
    rule = ""
    try:
        for l in open(os.path.join(HARN, "w_%s.cpp" % prop)):
            m = re.match(r"// RULE: (.*)", l)
            if m:
                rule += (" " if rule else "") + m.group(1)
            elif rule and not l.startswith("// "):
                break
            elif rule:
                rule += " " + l[3:].strip()
    except OSError:
        pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(distinct),
            "rule": rule, "samples": samples[:6],
            "planned_cases": total, "discarded_cases": disc,
            "processes": len(shards), "monitor_build": "+".join(e[0] for e in exes),
            "observed": {k: v for k, v in sorted(counts.items())
                         if not k.startswith("known_finding:")},
            "known_findings_observed": len(reported),
        },
        "assumptions": [
            "the library is compiled from /repo's working tree with sanitizers, "
            "at -O0, not with the flags of a release build",
            "observations are made through the public API (to_string, size, type, "
            "grad, ...); the reference model computes in long double",
        ],
        "build_s": round(t_build, 2),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in reported:
        print(l)
    if viols:
        viols.sort(key=lambda v: (v[0] is None, v[0] or 0))
        case, msg, log, text, bld = viols[0]
        path = write_replay(prop, seed, tier, case, msg, log, text, bld)
        print("case %s: %s" % (case, msg[:2000]))
        if log:
            print("what the case did:\n" + log[-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if infra:
        print("INCONCLUSIVE property=%s\n%s" % (prop, "\n".join(infra)[:4000]))
        return 2
    if cases + disc < total or not distinct or disc > cases:
        print("INCONCLUSIVE property=%s: %d of %d cases, %d discarded, %d distinct"
              % (prop, cases, total, disc, len(distinct)))
        return 2
    print("held: property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs"
          % (prop, tier, seed, cases, len(distinct), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print("ERROR: %s" % e)
        sys.exit(2)
