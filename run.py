#!/usr/bin/env python3
"""Runs the check of one property: builds the library from /repo's working tree with the
instrumentation the property needs, runs its workload in sharded processes, lets the monitors in the
harness (and the sanitizers) judge, and writes evidence/<id>.json.

  python3 run.py C08                 quick or thorough as VERIF_TIER says (default quick)
  python3 run.py C08 --replay FILE   run the single case recorded in a replay file
  python3 run.py --selftest          compiler and layout sanity (setup_cmd)
"""
import fcntl
import hashlib
import json
import mmap
import os
import re
import shutil
import struct
import subprocess
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import props

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LOCALES = os.path.join(BUILD, "locale")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known-findings.txt")
JOBS = min(8, os.cpu_count() or 8)

COMMON = ["-std=c++17", "-fopenmp", "-include", "cstdint", "-g1", "-fno-omit-frame-pointer", "-w"]
FLAVOURS = {
    # the library as users get it, with libstdc++'s precondition assertions
    "plain": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    # address + undefined behaviour; every report is fatal
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
    # for valgrind
    "vg": ["-O1"],
}
LINK = {"tsan": ["-Wl,--wrap=" + f for f in (
    "GOMP_parallel", "GOMP_parallel_loop_static", "GOMP_parallel_loop_dynamic", "GOMP_parallel_loop_guided",
    "GOMP_parallel_loop_nonmonotonic_dynamic", "GOMP_parallel_loop_nonmonotonic_guided", "GOMP_barrier",
    "GOMP_loop_end", "GOMP_critical_start", "GOMP_critical_end", "GOMP_atomic_start", "GOMP_atomic_end")]}
BASE_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=0:"
                    "strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:"
                    "max_malloc_fill_size=4096:malloc_fill_byte=203",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4",
    "OMP_WAIT_POLICY": "passive",
    "LC_ALL": "C",
}
BUDGET = {"quick": 600, "thorough": 24 * 3600}  # seconds; what is not done by then stays unexplored
STALL = 120  # seconds without progress before a process is called hung (then it is re-run once)


class CheckError(Exception):
    pass


# --------------------------------------------------------------------------- building
def tree_hash(root, subdirs, exts):
    h = hashlib.sha256()
    for sub in subdirs:
        for d, dirs, files in sorted(os.walk(os.path.join(root, sub))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def compile_one(src, obj, flags, incs):
    if os.path.exists(obj):
        return
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-c", *COMMON, *flags, *incs, src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, p.stdout[-4000:]))
    os.rename(tmp, obj)


def comma_locale():
    """A locale with decimal commas and digit grouping, if this system can make one."""
    d = os.path.join(LOCALES, "de_DE.UTF-8")
    if os.path.isdir(d) or not shutil.which("localedef"):
        return
    t = d + ".%d.tmp" % os.getpid()
    os.makedirs(LOCALES, exist_ok=True)
    subprocess.run(["localedef", "--no-archive", "-i", "de_DE", "-f", "UTF-8", t], stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)


def build(needs):
    """needs: set of (harness source name, flavour, with_lib). Returns {(harness, flavour): binary}."""
    os.makedirs(BUILD, exist_ok=True)
    lib = os.path.join(REPO, "lib")
    libkey = tree_hash(lib, ["src", "include"], (".cpp", ".hpp", ".h"))
    hkey = tree_hash(HERE, ["harness"], (".cpp", ".hpp"))
    incs = ["-I" + os.path.join(lib, "include"), "-I" + os.path.join(lib, "src"), "-I" + os.path.join(HERE, "harness")]
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        comma_locale()
        out, jobs, links = {}, {}, []
        for harness, flavour in sorted(needs):
            flags = FLAVOURS[flavour]
            fkey = hashlib.sha256(repr((COMMON, flags, LINK.get(flavour))).encode()).hexdigest()[:8]
            ldir = os.path.join(BUILD, "lib-%s-%s-%s" % (flavour, fkey, libkey))
            hdir = os.path.join(BUILD, "bin-%s-%s-%s-%s" % (flavour, fkey, libkey, hkey))
            os.makedirs(ldir, exist_ok=True)
            os.makedirs(hdir, exist_ok=True)
            objs = []
            srcs = [os.path.join(lib, "src", f) for f in sorted(os.listdir(os.path.join(lib, "src"))) if f.endswith(".cpp")]
            for s in srcs:
                o = os.path.join(ldir, os.path.basename(s)[:-4] + ".o")
                jobs[o] = (s, flags, 9 if "tsetlini" in s else 1)
                objs.append(o)
            hs = [harness, "est.cpp"] + (["tsanrt.cpp"] if flavour == "tsan" else [])
            for h in hs:
                o = os.path.join(hdir, h[:-4] + ".o")
                # the interposed runtime itself is not instrumented
                jobs[o] = (os.path.join(HERE, "harness", h), flags if h != "tsanrt.cpp" else ["-O1"], 8)
                objs.append(o)
            binary = os.path.join(hdir, harness[:-4])
            out[(harness, flavour)] = binary
            links.append((binary, objs, flags + LINK.get(flavour, [])))
        with ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(compile_one, s, o, fl, incs)
                  for o, (s, fl, w) in sorted(jobs.items(), key=lambda kv: -kv[1][2])]
            for f in fs:
                f.result()
        for binary, objs, flags in links:
            if not os.path.exists(binary):
                tmp = binary + ".tmp"
                p = subprocess.run(["g++", *COMMON, *flags, *objs, "-o", tmp, "-lpthread"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    raise CheckError("linking %s failed:\n%s" % (binary, p.stdout[-4000:]))
                os.rename(tmp, binary)
        # keep the cache small: drop all but the newest few directories
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(("lib-", "bin-"))),
                    key=os.path.getmtime)
        keep = {os.path.dirname(o) for o in jobs} | {os.path.dirname(b) for b in out.values()}
        for d in ds[:-16]:
            if d not in keep:
                shutil.rmtree(d, ignore_errors=True)
        return out
    finally:
        lock.close()


# --------------------------------------------------------------------------- running
def crash_key(rc, err):
    """Classify an abnormal end: (key, text)."""
    def lib_frame():
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", err):
            if "/lib/src/" in m.group(2) or "/lib/include/" in m.group(2):
                fn = re.sub(r"[<(\[].*", "", m.group(1).replace("(anonymous namespace)::", ""))
                return (fn.split("::")[-1].split() or ["?"])[-1] + "@" + os.path.basename(m.group(2))
        return "?"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), lib_frame())
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", err)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|'[^']*'", "#", m.group(2))
        return "ubsan:%s:%s" % (what[:60].strip().replace(" ", "-"), os.path.basename(m.group(1)))
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "terminate:%s" % m.group(1)
    m = re.search(r"Assertion '([^']*)' failed", err)
    if m:
        return "assertion:%s" % re.sub(r"\W+", "-", m.group(1))[:40]
    if "ThreadSanitizer" in err:
        return "tsan"
    if rc == 99:
        m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|[\d,]+ bytes in [\d,]+ blocks are definitely lost|Syscall param|Mismatched|Source and dest)", err)
        k = re.sub(r"[\d,]+", "#", m.group(1)).replace(" ", "-") if m else "error"
        return "valgrind:%s" % k
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


class Stage:
    """One harness run over a range of cases under one build flavour."""

    def __init__(self, spec, binary, prop, seed, tier, scratch):
        self.spec, self.binary, self.prop, self.seed, self.tier = spec, binary, prop, seed, tier
        self.scratch = scratch
        self.violations, self.counters, self.distinct, self.samples = [], {}, set(), []
        self.outputs = {}
        self.lock = threading.Lock()
        self.crashes = 0
        self.inconclusive = 0
        self.deadline = time.time() + 24 * 3600
        self.cut = 0

    def command(self, a, b, log, progress):
        c = list(self.spec.get("wrap", [])) + [
            self.binary, "--prop", self.prop, "--seed", str(self.seed), "--tier", self.tier,
            "--from", str(a), "--to", str(b)]
        if log:
            c += ["--log", log, "--progress", progress]
        if self.spec.get("extra"):
            c += ["--extra", self.spec["extra"]]
        return c

    def env(self):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(("OMP_", "GOMP_", "MALLOC_", "GLIBC_TUNABLES", "LD_PRELOAD")):
                del e[k]
        e.update(BASE_ENV)
        if os.path.isdir(os.path.join(LOCALES, "de_DE.UTF-8")):
            e["LOCPATH"] = LOCALES
        e.update(self.spec.get("env", {}))
        return e

    def run_range(self, a, b, tag):
        nxt, n = a, 0
        if time.time() > self.deadline:
            self.cut += 1
            return
        while nxt < b:
            n += 1
            log = os.path.join(self.scratch, "%s-%d.log" % (tag, n))
            prog = os.path.join(self.scratch, "%s-%d.prog" % (tag, n))
            nxt = self.run_once(nxt, b, log, prog)
            with self.lock:
                if self.crashes >= 12:
                    return
            if time.time() > self.deadline:
                if nxt < b:
                    self.cut += 1
                return

    def read_progress(self, prog):
        try:
            with open(prog, "rb") as f:
                raw = f.read()
            cid, tick = struct.unpack("qq", raw[:16])
            return cid, tick, raw[16:].split(b"\0")[0].decode(errors="replace")
        except (OSError, struct.error):
            return -1, -1, ""

    def run_once(self, a, b, log, prog, stall=STALL, retry=True):
        errp = log + ".err"
        with open(errp, "wb") as ef:
            p = subprocess.Popen(self.command(a, b, log, prog), stdout=ef, stderr=ef, env=self.env(),
                                 stdin=subprocess.DEVNULL, cwd=self.scratch)
            last, since, hung, asked = None, time.time(), False, None
            while True:
                try:
                    p.wait(timeout=1.0 if last is not None else 0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if asked is None and time.time() > self.deadline:
                    asked = time.time()
                    self.cut += 1
                    p.terminate()
                if asked is not None and time.time() > asked + 40:
                    p.kill()
                    p.wait()
                    break
                cur = self.read_progress(prog)[:2]
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > stall * self.spec.get("slow", 1):
                    hung = True
                    p.kill()
                    p.wait()
                    break
        cid, _, op = self.read_progress(prog)
        with open(errp, "rb") as f:
            err = f.read().decode(errors="replace")
        done = False
        try:
            with open(log) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d["t"] == "violation":
                        self.add(d["case"], d["key"], d["what"])
                    elif d["t"] == "summary":
                        done = True
                        with self.lock:
                            for k, v in d["counters"].items():
                                self.counters[k] = self.counters.get(k, 0) + v
                            self.distinct.update(d["distinct"])
                            self.samples += d["samples"]
                            self.outputs.update(d["outputs"])
        except OSError:
            pass
        for f in (log, prog):
            if os.path.exists(f):
                os.unlink(f)
        if hung:
            if retry:  # decide on a second, longer look at the same case alone
                with self.lock:
                    self.inconclusive += 1
                if cid >= a:
                    self.run_once(cid, cid + 1, log + "r", prog + "r", stall=stall * 1.5, retry=False)
                    return cid + 1
                return self.run_once(a, b, log + "r", prog + "r", stall=stall * 1.5, retry=False)
            self.add(cid, "hang", "no progress for %d s in: %s" % (stall, op), err)
            with self.lock:
                self.crashes += 4
            return cid + 1 if cid >= a else b
        if asked is not None and p.returncode == -9:
            return b
        if p.returncode == -9 and cid >= a and (retry or self.spec.get("giant")):
            # ended from outside, for want of memory; a second look at the case alone
            with self.lock:
                self.inconclusive += 1
            if retry:
                self.run_once(cid, cid + 1, log + "r", prog + "r", retry=False)
            return cid + 1
        races = self.parse_tsan(err) if self.spec["flavour"] == "tsan" else []
        for key, text in races:
            self.add(cid if cid >= 0 else a, key, text, text)
        if p.returncode == 0 and done:
            return b
        if done and p.returncode in (66,) and races:
            return b
        if done and p.returncode == 99 and self.spec.get("wrap"):
            self.add(a, crash_key(99, err), err[-1500:], err)
            return b
        # abnormal end
        if cid < a:
            raise CheckError("harness ended with %d before its first case or after its last:\n%s" % (p.returncode, err[-3000:]))
        self.add(cid, "crash:" + crash_key(p.returncode, err), "process died (%d) in: %s" % (p.returncode, op), err)
        with self.lock:
            self.crashes += 1
        return cid + 1

    @staticmethod
    def parse_tsan(err):
        out = []
        for blk in err.split("=================="):
            m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", blk)
            if not m:
                continue
            fr = []
            for f in re.finditer(r"#\d+ (.+?) (/\S+?):\d+", blk):
                if "/lib/src/" in f.group(2) or "/lib/include/" in f.group(2):
                    x = re.sub(r"[<(\[].*", "", f.group(1)).split("::")[-1].strip()
                    if x and x not in fr:
                        fr.append(x)
            out.append(("tsan:%s:%s" % (m.group(1).replace(" ", "-"), "+".join(sorted(fr[:2])) or "?"), blk[:3000]))
        return out

    def add(self, case, key, what, detail=""):
        with self.lock:
            self.violations.append({"case": case, "key": key, "what": what, "detail": detail[-6000:],
                                    "stage": self.spec["name"]})

    def run(self):
        n = self.spec[self.tier]
        chunk = max(1, self.spec.get("chunk") or -(-n // (JOBS * 4)))
        workers = max(1, min(self.spec.get("workers", JOBS), JOBS))
        first = self.spec.get("first", 0)
        ranges = [(i, min(i + chunk, first + n)) for i in range(first, first + n, chunk)]
        t0 = time.time()
        with ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(self.run_range, a, b, "%s-%d" % (self.spec["name"], a)) for a, b in ranges]
            for f in fs:
                f.result()
        self.wall = time.time() - t0
        return self


def load_known():
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--selftest":
        return selftest()
    pid = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = props.PROPS[pid]
    stages = [dict(s) for s in spec["stages"]]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
        seed, tier = replay["seed"], replay["tier"]
        stages = [s for s in stages if s["name"] == replay["stage"]]
        for s in stages:
            s["first"], s[tier] = replay["case"], 1
    stages = [s for s in stages if s.get(tier, 0) > 0]
    only = os.environ.get("VERIF_STAGE")
    if only:
        stages = [s for s in stages if s["name"] in only.split(",")]
    bins = build({(s["harness"], s["flavour"]) for s in stages})
    tb = time.time() - t0
    scratch = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch)
    done = []
    try:
        groups = {}
        for i, s in enumerate(stages):  # one after another
            st = Stage(s, bins[(s["harness"], s["flavour"])], pid, seed, tier, scratch)
            st.deadline = t0 + BUDGET[tier] * (i + 1) / len(stages)
            st.run()
            done.append(st)
            groups[s["name"]] = st
        cross = props.CROSS.get(pid)
        if cross and not replay and not only:
            cross(groups)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations = [v for s in done for v in s.violations]
    counters = {}
    distinct, samples = set(), []
    for s in done:
        for k, v in s.counters.items():
            counters[k] = counters.get(k, 0) + v
        distinct |= s.distinct
        samples += s.samples
    known = load_known()
    by_key = {}
    for v in violations:
        by_key.setdefault(v["key"], v)
    new = 0
    lines = []
    for key, v in sorted(by_key.items()):
        hit = [k for k in known if k[0] == pid and k[1] == key]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2]))
            continue
        new += 1
        os.makedirs(REPLAYS, exist_ok=True)
        name = "%s-%s-%s.json" % (pid, re.sub(r"[^\w.-]+", "_", key)[:80], v["case"])
        path = os.path.join(REPLAYS, name)
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, **v,
                       "rerun": "python3 run.py %s --replay %s" % (pid, path)}, f, indent=1)
        print("  %s [case %s, stage %s]: %s" % (key, v["case"], v["stage"], v["what"][:700]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    for ln in lines:
        print(ln)

    wall = time.time() - t0
    if not replay and not only:
        # refuse to call an idle run a pass
        if not new:
            for k, floor in spec.get("floors", {}).items():
                if counters.get(k, 0) < floor:
                    raise CheckError("observed too little: %s=%d < %d" % (k, counters.get(k, 0), floor))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": counters.get("evaluations", counters.get("cases", 0)),
                "distinct_nontrivial": len(distinct),
                "rule": spec["rule"],
                "samples": samples[:4] or ["none"],
                "observed": counters,
                "stages": [{"name": s.spec["name"], "flavour": s.spec["flavour"], "cases": s.spec[tier],
                            "inconclusive_reruns": s.inconclusive, "ranges_cut_for_time": s.cut, "wall_s": round(s.wall, 2)} for s in done],
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": new,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %s; %d evaluations, %d distinct; build %.1f s, total %.1f s" % (
        pid, tier, seed, "VIOLATED" if new else "held on everything observed",
        counters.get("evaluations", counters.get("cases", 0)), len(distinct), tb, wall))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(counters, indent=1, sort_keys=True))
    return 1 if new else 0


def selftest():
    for t in ("g++", "valgrind"):
        if not shutil.which(t):
            print("missing tool: " + t)
            return 2
    for pid, s in props.PROPS.items():
        for st in s["stages"]:
            if not os.path.exists(os.path.join(HERE, "harness", st["harness"])):
                print("missing harness " + st["harness"])
                return 2
    print("ok: %d properties" % len(props.PROPS))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    except Exception:  # a fault of this driver, never a verdict
        traceback.print_exc(file=sys.stdout)
        print("CHECK ERROR: internal")
        sys.exit(2)
