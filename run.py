#!/usr/bin/env python3
"""Driver of the checks.  usage: run.py PROPERTY {quick|thorough} | --setup | --replay FILE

Builds the current sources of /repo together with a monitor from harness/,
runs the monitored workload, and decides the property.  See DESIGN.md."""
import array
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "libexactreal")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
JOBS = max(2, min(8, os.cpu_count() or 2))

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ building
VARIANTS = {
    # ASan and UBSan; every report ends the process.
    "asan": ["clang++", "-std=c++17", "-g1", "-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer", "-fsanitize-ignorelist=" + os.path.join(HARNESS, "ubsan.ignore"), "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["clang++", "-std=c++17", "-g1", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    # what users run; for valgrind
    "plain": ["clang++", "-std=c++17", "-g1", "-O1"],
    "gcc": ["g++", "-std=c++17", "-g1", "-O2"],
}
LIBS = ["-leanticxx", "-leantic", "-lflint", "-lgmpxx", "-lgmp", "-lpthread"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, suffixes):
    r = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        r += [os.path.join(d, f) for f in sorted(files) if f.endswith(suffixes)]
    return r


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "o"), exist_ok=True)
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        self.prune()
        src = os.path.join(LIB, "src")
        if not os.path.isdir(src):
            raise HarnessError("no sources at " + src)
        self.repo_sources = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cc"))
        heads = tree(os.path.join(LIB, "exact-real"), (".hpp", ".in", ".ipp", ".h"))
        heads += tree(src, (".hpp", ".ipp", ".h"))
        self.repo_headers = sha(read(os.path.join(HARNESS, "ubsan.ignore")), *[x for p in heads for x in (os.path.relpath(p, REPO), read(p))],
                                *[x for p in tree(SHIM, (".hpp",)) for x in (os.path.relpath(p, SHIM), read(p))])
        self.my_headers = sha(*[read(p) for p in tree(HARNESS, (".hpp", ".ignore"))])
        # The build substitutes the library directory into this header.
        self.gen = os.path.join(BUILD, "gen-" + self.repo_headers)
        tmpl = os.path.join(LIB, "exact-real", "local.hpp.in")
        if not os.path.exists(os.path.join(self.gen, "exact-real", "local.hpp")):
            os.makedirs(os.path.join(self.gen, "exact-real"), exist_ok=True)
            self.atomic(os.path.join(self.gen, "exact-real", "local.hpp"), read(tmpl).replace(b"@libdir@", b"/nonexistent"))

    @staticmethod
    def atomic(path, data):
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path))
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        os.rename(tmp, path)

    @staticmethod
    def prune(limit=4 << 30):
        ents = []
        for sub in ("o", "bin"):
            d = os.path.join(BUILD, sub)
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                except OSError:
                    continue
                ents.append((st.st_mtime, st.st_size, p))
        total = sum(e[1] for e in ents)
        for _, size, p in sorted(ents):
            if total <= limit:
                break
            try:
                os.unlink(p)
            except OSError:
                pass
            total -= size

    def flags(self, variant, defs=()):
        return VARIANTS[variant] + ["-DBUILD_LIBEXACTREAL"] + list(defs) + [
            "-I" + SHIM, "-I" + os.path.join(self.gen, "exact-real"), "-I" + self.gen, "-I" + LIB, "-I" + HARNESS]

    def job(self, variant, source, defs=(), mine=True):
        fl = self.flags(variant, defs)
        key = sha(self.repo_headers, self.my_headers if mine else "", read(source), os.path.basename(source), *fl)
        return (fl, source, os.path.join(BUILD, "o", key + ".o"))

    def compile(self, jobs):
        def one(job):
            fl, source, obj = job
            if os.path.exists(obj):
                os.utime(obj)
                return None
            tmp = "%s.%d.tmp" % (obj, os.getpid())
            for attempt in range(2):
                p = subprocess.run(fl + ["-c", source, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 0:
                    os.rename(tmp, obj)
                    return None
                err = p.stdout.decode(errors="replace")
                if " error: " in err:
                    break  # otherwise the compiler was killed; try again
            lines = [l[:400] for l in err.splitlines() if "error" in l][:10]
            return "%s does not compile:\n%s" % (source, "\n".join(lines or [err[-2000:]]))
        # the slowest sources first
        jobs = sorted(jobs, key=lambda j: -os.path.getsize(j[1]))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(one, jobs) if e]
        if errs:
            raise HarnessError("\n".join(errs))

    def library(self, variant):
        return [self.job(variant, s, mine=False) for s in self.repo_sources]

    def binary(self, spec, tier, seed, extra_jobs=()):
        """Build the monitor described by spec, return the path of the binary."""
        variant = spec.get("variant", "asan")
        defs = spec.get("defs", [])
        # A source is a file, or a file and what to define for it in addition.
        sources = [(s, []) if isinstance(s, str) else s for s in ["common.cc"] + spec["sources"]]
        jobs = [self.job(variant, os.path.join(HARNESS, s), defs + d + spec.get("cflags", {}).get(s, [])) for s, d in sources]
        for kind, sizes in spec.get("shapes", []):
            nfiles, per = sizes[tier]
            d = os.path.join(BUILD, "shapes-%s-%d-%d-%d" % (kind, seed, nfiles, per))
            os.makedirs(d, exist_ok=True)
            T = kind.capitalize()
            reg = '#include "%s_env.hpp"\nnamespace verif {\n' % kind
            reg += "".join("void addShapes_%d(std::vector<void (*)(%sEnv&)>&);\n" % (i, T) for i in range(nfiles))
            reg += "std::vector<void (*)(%sEnv&)>& %sShapes() {\n static auto s = [] { std::vector<void (*)(%sEnv&)> v;\n" % (T, kind, T)
            reg += "".join("addShapes_%d(v);\n" % i for i in range(nfiles)) + "return v; }();\nreturn s;\n}\n}\n"
            for i in range(nfiles + 1):
                p = os.path.join(d, "shapes_%d.cc" % i)
                data = reg.encode() if i == nfiles else subprocess.run(
                    [sys.executable, os.path.join(HARNESS, "gen_shapes.py"), kind, str(seed), str(i), str(per)],
                    stdout=subprocess.PIPE, check=True).stdout
                self.atomic(p, data)
                jobs.append(self.job(variant, p, defs))
        jobs += self.library(variant)
        self.compile(list(jobs) + list(extra_jobs))
        objs = [j[2] for j in jobs]
        ldflags = spec.get("ldflags", [])
        exe = os.path.join(BUILD, "bin", sha(variant, *objs, *ldflags))
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            p = subprocess.run(VARIANTS[variant] + objs + ldflags + LIBS + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise HarnessError("link failed:\n" + p.stdout.decode(errors="replace")[-3000:])
            os.rename(tmp, exe)
        os.utime(exe)
        return exe


# ------------------------------------------------------------------- running
def environment(variant, reuse=False):
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "LD_LIBRARY_PATH") and not k.startswith("LIBEXACTREAL_")}
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:hard_rss_limit_mb=6000:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=1:malloc_context_size=12"
    if reuse:
        # Let new objects take the place of destroyed ones at once, as they do without sanitizers.
        env["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=86"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86:second_deadlock_stack=1:history_size=4:memory_limit_mb=12000"
    env["LC_ALL"] = "C.UTF-8"
    env["VERIF_SOURCES"] = REPO
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = env["UBSAN_SYMBOLIZER_PATH"] = env["TSAN_SYMBOLIZER_PATH"] = sym
    return env


def child(cmd, env, cwd, log, timeout):
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return "timeout"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def progress(path):
    try:
        data = read(path)
        index = int.from_bytes(data[:8], "little", signed=True)
        return index, data[8:].split(b"\0")[0].decode(errors="replace")
    except OSError:
        return -1, ""


def summarise(log):
    """The first sanitizer report (or final message) in a log, without addresses."""
    text = read(log).decode(errors="replace")
    keep = []
    for l in text.splitlines():
        if re.search(r"runtime error:|ERROR: AddressSanitizer|SUMMARY: |WARNING: ThreadSanitizer|VERIF-HANG|VERIF-DEADLOCK|terminate called|what\(\):|Assertion|Flint exception|hard rss limit|==\d+== (Invalid|Conditional|Use of)", l):
            keep.append(re.sub(r"0x[0-9a-f]+", "0x…", re.sub(r"==\d+==\s*", "", l.strip()))[:300])
    return " | ".join(keep[:5]) or text[-300:].strip()


SANITIZER = re.compile(r"runtime error:|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|VERIF-DEADLOCK|==\d+== (Invalid|Conditional jump|Use of uninit)")


class Run:
    def __init__(self, prop, spec, tier, seed, exe, work):
        self.prop, self.spec, self.tier, self.seed, self.exe, self.work = prop, spec, tier, seed, exe, work
        self.case = spec.get("case", prop)
        self.cases = spec["cases"][tier]
        self.cpu = spec.get("cpu", 60) * (3 if tier == "thorough" else 1)
        self.shards = min(spec.get("shards", JOBS), self.cases)
        self.variant = spec.get("variant", "asan")
        self.notes = []

    def command(self, shard, shards, out, prog, extra=()):
        cmd = []
        if self.spec.get("valgrind"):
            cmd += ["valgrind", "--error-exitcode=86", "--quiet", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no"]
        scratch = out + ".scratch"
        os.makedirs(scratch, exist_ok=True)
        return cmd + [self.exe, "--prop", self.case, "--seed", str(self.seed), "--cases", str(self.cases), "--shard", str(shard),
                      "--shards", str(shards), "--out", out, "--progress", prog, "--scratch", scratch, "--cpu", str(self.cpu),
                      "--tier", self.tier] + list(extra)

    def attempt(self, shard, tag, extra=()):
        base = os.path.join(self.work, "%s-%d%s" % (self.case, shard, tag))
        out, prog, log = base + ".json", base + ".progress", base + ".log"
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        rc = child(self.command(shard, self.shards, out, prog, extra), environment(self.variant, shard % 2 == 1 and self.prop not in ("C18", "C19", "C20")), self.work, log,
                   self.spec.get("timeout", 700 if self.tier == "quick" else 20000))
        res = None
        if rc in (0, 97):
            try:
                res = json.loads(read(out).decode(errors="replace"))
            except (OSError, ValueError) as e:
                raise HarnessError("monitor left no result (%s): %s" % (e, summarise(log)))
        return rc, res, log, progress(prog), out

    def shard(self, k):
        """Run one shard; returns (result or None, covered, violations)."""
        covered, merged, viol = set(), [], []
        rc, res, log, prog, out = self.attempt(k, "")
        if res is None:
            index, what = prog
            if rc == 2:
                raise HarnessError("monitor refused to run: " + summarise(log))
            text = read(log).decode(errors="replace")
            report = bool(SANITIZER.search(text)) and "hard rss limit" not in text
            first = "%s (exit status %s)" % (summarise(log), rc)
            if rc == "timeout" and index < 0:
                raise HarnessError("timeout before the first case")
            # Believe a crash or hang only when it happens again.
            for tag, extra in (("-only", ["--only", str(index)]), ("-upto", ["--upto", str(index)])):
                rc2, res2, log2, prog2, _ = self.attempt(k, tag, extra)
                if res2 is None and rc2 != "timeout":
                    viol.append({"key": "hang" if rc2 == 98 else "crash", "index": index, "detail": "%s; while: %s" % (summarise(log2), prog2[1] or what),
                                 "log": read(log2).decode(errors="replace")[-6000:], "extra": extra})
                    break
                if res2 is not None and res2["violations"]:
                    break
            else:
                if report:
                    # A sanitizer report stands on its own even if the schedule that led to it does not come back.
                    viol.append({"key": "crash", "index": index, "detail": "%s; while: %s" % (first, what), "log": text[-6000:], "extra": ["--upto", str(index)]})
                else:
                    self.notes.append("shard %d ended with %s and did so only once; ran it again" % (k, first))
                    rc, res, log, prog, out = self.attempt(k, "-again")
                    if res is None:
                        raise HarnessError("inconclusive: " + summarise(log))
            if not viol and res is None:
                rc, res, log, prog, out = rc2, res2, log2, prog2, None
        if res is not None:
            for v in res["violations"]:
                v["extra"] = ["--only", str(v["index"])]
                viol.append(v)
            merged = [res]
            if out and os.path.exists(out + ".cov"):
                a = array.array("Q")
                a.frombytes(read(out + ".cov"))
                covered = set(a)
        for v in viol:
            v["shard"] = k
        return merged, covered, viol

    def run(self):
        results, covered, viol = [], set(), []
        with concurrent.futures.ThreadPoolExecutor(self.shards) as ex:
            for m, c, v in ex.map(self.shard, range(self.shards)):
                results += m
                covered |= c
                viol += v
        return results, covered, viol


def known_findings(prop):
    """Lines 'known: property=ID key=KEY match=REGEX :: description'."""
    r = []
    if os.path.exists(KNOWN):
        for l in read(KNOWN).decode().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) :: (.*)$", l)
            if m and m.group(1) == prop:
                r.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return r


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        b = Builder()
        b.compile(b.library("asan"))
        print("built %d objects" % len(b.repo_sources))
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = CHECKS[prop]
    start = time.time()
    b = Builder()
    runs = [r for r in conf["runs"] if r["cases"].get(tier)]
    # one pass of compilation for everything, so that all cores are busy
    exes = [b.binary(r, tier, seed) for r in runs]
    built = time.time() - start
    results, covered, viol, notes = [], set(), [], []
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        for n, (spec, exe) in enumerate(zip(runs, exes)):
            sub = os.path.join(work, str(n))
            os.makedirs(sub)
            run = Run(prop, spec, tier, seed, exe, sub)
            r, c, v = run.run()
            results += r
            covered |= {hash((n, x)) for x in c} if len(runs) > 1 else c
            for x in v:
                x["run"] = n
            viol += v
            notes += run.notes
    finally:
        shutil.rmtree(work, ignore_errors=True)

    tallies, peaks, samples = {}, {}, []
    for r in results:
        for k, v in r["tallies"].items():
            tallies[k] = tallies.get(k, 0) + v
        for k, v in r["peaks"].items():
            peaks[k] = max(peaks.get(k, v), v)
        samples += r["samples"]
    evaluations = sum(r["evaluations"] for r in results)

    fresh, seen = [], {}
    findings = known_findings(prop)
    for v in viol:
        for key, rx, text in findings:
            if key == v["key"] and rx.search(v["detail"]):
                seen[text] = seen.get(text, 0) + 1
                break
        else:
            fresh.append(v)
    for text in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(covered), "rule": conf["rule"],
            "samples": samples[:6], "observed": dict(sorted(tallies.items())), "maxima": dict(sorted(peaks.items())),
            "build_s": round(built, 1), "notes": notes,
        },
        "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - start, 1), "violations": len(fresh),
    }
    Builder.atomic(os.path.join(VERIF, "evidence", prop + ".json"), (json.dumps(evidence, indent=1, ensure_ascii=False) + "\n").encode())

    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        by_key = {}
        for v in fresh:
            by_key.setdefault(v["key"], v)
        for key, v in sorted(by_key.items()):
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", key), v["index"]))
            Builder.atomic(path, json.dumps({"property": prop, "tier": tier, "seed": seed, "run": v["run"], "shard": v["shard"], "extra": v["extra"],
                                             "key": key, "detail": v["detail"], "log": v.get("log", "")}, indent=1, ensure_ascii=False).encode())
            print("%s: %s" % (key, v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    missing = [t for t in conf.get("must_observe", []) if not tallies.get(t)]
    if evaluations == 0 or len(covered) < 2 or missing:
        print("error: the monitors observed nothing (%d evaluations, %d distinct, missing %s)" % (evaluations, len(covered), missing))
        return 2
    print("%s %s: held on %d cases (%d distinct), %.0f s" % (prop, tier, evaluations, len(covered), time.time() - start))
    return 0


def replay(path):
    r = json.loads(read(path))
    spec = [x for x in CHECKS[r["property"]]["runs"] if x["cases"].get(r["tier"])][r["run"]]
    exe = Builder().binary(spec, r["tier"], r["seed"])
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        run = Run(r["property"], spec, r["tier"], r["seed"], exe, work)
        rc, res, log, prog, _ = run.attempt(r["shard"], "", r["extra"])
        print(read(log).decode(errors="replace")[-6000:])
        print("exit status %s during case %d: %s" % (rc, prog[0], prog[1]))
        if res:
            print(json.dumps(res["violations"], indent=1, ensure_ascii=False))
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("error: %s" % e)
        sys.exit(2)
