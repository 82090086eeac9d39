#!/usr/bin/env python3
"""Driver of the checks:  python3 run.py <PROPERTY>   (VERIF_SEED, VERIF_TIER=quick|thorough)

Builds the monitors of the property together with the sources of /repo's working tree, runs their workloads,
and decides on what the monitors and the sanitizers observed.
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the check could not decide.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, os.path.join(VERIF, "checks"))


class Inconclusive(Exception):
    pass


class NotCompiled(Inconclusive):
    def __init__(self, src, text):
        Inconclusive.__init__(self, text)
        self.src = src


class InterfaceBroken(Exception):
    """A monitor, which uses documented interfaces only, no longer compiles while the headers themselves do."""


# ------------------------------------------------------------------------------------------- building
COMMON = ["-std=gnu++17", "-pthread", "-g", "-w", "-I" + os.path.join(VERIF, "harness"), "-I" + REPO + "/src/include"]
FLAVORS = {
    "asan": (["clang++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                           "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DVF_ASAN"]),
    "tsan": (["clang++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVF_TSAN"]),
    "plain": (["g++"], ["-O2", "-D_GLIBCXX_ASSERTIONS"]),
    "native": (["g++"], ["-O2"]),
    "debug": (["g++"], ["-O0", "-D_GLIBCXX_ASSERTIONS"]),
    "gasan": (["g++"], ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
}
ENGINE_LOG = ["src/engine/logsystem.cpp", "src/engine/logger.cpp", "src/engine/logstream.cpp"]


def engine_sources(group):
    """The sources of a part of the engine; files added to the directory are taken in as the project's glob does."""
    d = os.path.join(REPO, "src", "engine")
    allf = sorted(f for f in os.listdir(d) if f.endswith(".cpp"))
    known = {"log": {"logsystem.cpp", "logger.cpp", "logstream.cpp"}, "futex": {"futex.cpp"},
             "item": {"handlerfactory.cpp"}, "code": {"code.cpp", "compiler.cpp"}}
    if group == "none":
        return []
    known["values"] = known["item"] | known["code"]
    others = set().union(*known.values())
    pick = [f for f in allf if f in known[group] or f not in others]
    return [os.path.join(d, f) for f in pick]


def fut_sources(with_main):
    d = os.path.join(REPO, "src", "fut")
    fs = sorted(f for f in os.listdir(d) if f.endswith(".cpp"))
    if not with_main:
        fs = [f for f in fs if f != "fut_main.cpp"]
    return [os.path.join(d, f) for f in fs] + [os.path.join(d, "marktime-unix.c++")]


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_tree = None


def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness"), os.path.join(REPO, "cmake")):
            for root, dirs, files in os.walk(base):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        for f in ("CMakeLists.txt", "version.cmake"):
            with open(os.path.join(REPO, f), "rb") as fh:
                h.update(fh.read())
        _tree = h.hexdigest()
    return _tree


def configure():
    """Generates config.h as the project does, out of its tree."""
    out = os.path.join(BUILD, "cfg-" + tree_hash()[:16])
    inc = os.path.join(out, "include", "falcon")
    if os.path.exists(os.path.join(inc, "falcon", "config.h")):
        return inc
    tmp = out + ".%d" % os.getpid()
    env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS")}
    env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    r = run_cmd(["cmake", "-S", REPO, "-B", tmp, "-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Wno-dev"], env=env)
    if r.returncode != 0 or not os.path.exists(os.path.join(tmp, "include", "falcon", "falcon", "config.h")):
        alt = os.path.join(REPO, "_build", "include", "falcon")
        if os.path.exists(os.path.join(alt, "falcon", "config.h")):
            return alt
        raise Inconclusive("cannot configure: " + r.stdout[-1500:])
    try:
        os.rename(tmp, out)
    except OSError:
        pass
    return inc if os.path.exists(inc) else os.path.join(tmp, "include", "falcon")


def compile_one(src, flavor, defs, inc):
    cxx, flags = FLAVORS[flavor]
    cmd = cxx + flags + COMMON + ["-I" + inc] + defs + ["-c", src]
    key = hashlib.sha256(("\0".join(cmd) + tree_hash()).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        lang = ["-x", "c++"] if src.endswith(".c++") else []
        r = run_cmd(cxx + flags + COMMON + ["-I" + inc] + defs + lang + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise NotCompiled(src, "cannot compile %s (%s):\n%s" % (src, flavor, r.stdout[-3000:]))
        os.replace(tmp, obj)
    return obj


class Program:
    """A monitor program: harness sources + sources under test, in one flavor."""

    def __init__(self, harness, flavor, group="none", defs=(), link=(), extra=(), optional=False):
        self.harness, self.flavor, self.group, self.optional = harness, flavor, group, optional
        self.defs, self.link, self.extra = list(defs), list(link), list(extra)

    def key(self):
        return (self.harness, self.flavor, self.group, tuple(self.defs), tuple(self.link), tuple(self.extra))

    def build(self, pool, inc):
        srcs = [os.path.join(VERIF, "harness", h) for h in ([self.harness] + self.extra)]
        srcs += engine_sources(self.group) if self.group not in ("fut", "fut_main") else fut_sources(self.group == "fut_main")
        futs = [pool.submit(compile_one, s, self.flavor, self.defs, inc) for s in srcs]
        return futs

    def link_objs(self, objs):
        cxx, flags = FLAVORS[self.flavor]
        key = hashlib.sha256(("\0".join(objs) + str(self.key())).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", os.path.basename(self.harness).split(".")[0] + "-" + self.flavor + "-" + key)
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            r = run_cmd(cxx + flags + ["-pthread"] + objs + self.link + ["-o", tmp])
            if r.returncode != 0 and "undefined reference" in r.stdout and self.group not in ("fut", "fut_main"):
                # a part of the engine may come to use another one
                inc, more = configure(), list(objs)
                for f in sorted(set(sum((engine_sources(g) for g in ("log", "futex", "values")), []))):
                    o = compile_one(f, self.flavor, self.defs, inc)
                    if o not in more and not any("VF_INSTR" in d for d in self.defs):
                        more.append(o)
                r = run_cmd(cxx + flags + ["-pthread"] + more + self.link + ["-o", tmp])
            if r.returncode != 0:
                if "multiple definition" in r.stdout:
                    two_sources(self, r.stdout)
                raise Inconclusive("cannot link %s:\n%s" % (exe, r.stdout[-3000:]))
            os.replace(tmp, exe)
        return exe


class ModProgram(Program):
    """A program of an executable, the engine and another library linked to it, and modules it loads."""
    PIC = ["-fPIC"]

    def __init__(self, flavor, rdynamic, lib=True):
        self.lib = lib
        Program.__init__(self, "h_mod.cpp", flavor, "values", self.PIC + ([] if lib else ["-DVF_NOLIB"]), WRAP + ["-ldl"] + (["-rdynamic"] if rdynamic else []),
                         ["h_mod_main.cpp", "h_mod_lib.cpp", "h_mod_plug.cpp"])

    def sources(self):
        return [os.path.join(VERIF, "harness", h) for h in ([self.harness] + self.extra)] + \
            sorted(set(sum((engine_sources(g) for g in ("log", "futex", "values")), [])))

    def build(self, pool, inc):
        return [pool.submit(compile_one, s, self.flavor, self.defs, inc) for s in self.sources()]

    def link_objs(self, objs):
        cxx, flags = FLAVORS[self.flavor]
        key = hashlib.sha256(("\0".join(objs) + str(self.key())).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", "h_mod-%s-%s.d" % (self.flavor, key))
        exe = os.path.join(out, "h_mod-" + self.flavor)
        if os.path.exists(exe):
            return exe
        tmp = out + ".%d.tmp" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        base = cxx + flags + ["-pthread"]
        so = base + ["-shared", "-fPIC", "-Wl,-rpath,$ORIGIN"]
        head, mine, lib, plug, engine = objs[0], objs[1], objs[2], objs[3], objs[4:]
        eng, libso = os.path.join(tmp, "libengine.so"), os.path.join(tmp, "libpart.so")
        cmds = [so + engine + ["-Wl,-soname,libengine.so", "-o", eng],
                so + [lib, eng, "-Wl,-soname,libpart.so", "-o", libso],
                so + [plug, eng, "-o", os.path.join(tmp, "plug1.so")],
                so + [plug, eng, "-o", os.path.join(tmp, "plug2.so")],
                base + [head, mine] + ([libso] if self.lib else []) + [eng, "-Wl,-rpath,$ORIGIN"] + self.link + ["-o", os.path.join(tmp, os.path.basename(exe))]]
        for c in cmds:
            r = run_cmd(c)
            if r.returncode != 0:
                raise Inconclusive("cannot link %s:\n%s" % (exe, r.stdout[-3000:]))
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
        return exe


WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock"]


def build_all(programs):
    inc = configure()
    uniq = {}
    for p in programs:
        uniq.setdefault(p.key(), p)
    exes = {}
    with cf.ThreadPoolExecutor(JOBS) as pool:
        pend = {k: p.build(pool, inc) for k, p in uniq.items()}
        objs = {}
        for k, fs in pend.items():
            try:
                objs[k] = [f.result() for f in fs]
            except NotCompiled as e:
                if not uniq[k].optional:
                    diagnose(e, uniq[k], inc)
        links = {k: pool.submit(uniq[k].link_objs, o) for k, o in objs.items()}
        for k, f in links.items():
            try:
                exes[k] = f.result()
            except Inconclusive:
                if not uniq[k].optional:
                    raise
    return exes


def headers_of(prog):
    """The headers of the tree which a program's harness includes."""
    heads, todo, seen = [], [prog.harness] + prog.extra, set()
    while todo:
        h = todo.pop()
        if h in seen:
            continue
        seen.add(h)
        text = open(os.path.join(VERIF, "harness", h)).read()
        heads += re.findall(r"^\s*#\s*include\s*(<falcon/[^>]+>)", text, re.M)
        todo += re.findall(r'^\s*#\s*include\s*"([^"/]+)"', text, re.M)
    return heads


def two_sources(prog, said):
    """A program does not link: can its headers be included by two sources at all?"""
    inc = configure()
    cxx, flags = FLAVORS[prog.flavor]
    objs = []
    for n in "ab":
        src = os.path.join(BUILD, "probe-%d-%d%s.cpp" % (os.getpid(), threading.get_ident(), n))
        with open(src, "w") as f:
            f.write("".join("#include %s\n" % h for h in headers_of(prog)))
        r = run_cmd(cxx + COMMON + ["-I" + inc] + prog.defs + ["-c", src, "-o", src + ".o"])
        os.remove(src)
        if r.returncode != 0:
            return
        objs.append(src + ".o")
    r = run_cmd(["g++", "-r", "-nostdlib"] + objs + ["-o", objs[0] + ".r"])
    for f in objs + [objs[0] + ".r"]:
        if os.path.exists(f):
            os.remove(f)
    if r.returncode != 0 and "multiple definition" in r.stdout:
        raise InterfaceBroken("two-sources", "the headers cannot be included by two sources of a program:\n" + r.stdout[-1500:])


def diagnose(e, prog, inc):
    """A source does not compile: is it the tree, or only the use of its interfaces?"""
    if not e.src.startswith(os.path.join(VERIF, "harness")):
        raise e
    heads = headers_of(prog)
    if not heads or re.search(r"/verif/harness/\S+: (?:fatal )?error: .*file not found|No such file or directory", str(e)):
        raise e
    os.makedirs(BUILD, exist_ok=True)
    probe = os.path.join(BUILD, "probe-%d-%d.cpp" % (os.getpid(), threading.get_ident()))
    with open(probe, "w") as f:
        f.write("".join("#include %s\n" % h for h in heads))
    cxx, flags = FLAVORS[prog.flavor]
    defs = [d for d in prog.defs if "VF_INSTR" not in d]
    r = run_cmd(cxx + flags + COMMON + ["-I" + inc] + defs + ["-fsyntax-only", probe])
    os.remove(probe)
    if r.returncode != 0:
        raise e
    raise InterfaceBroken(prog.harness, str(e))


# ------------------------------------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1",
}
FRAME = re.compile(r"^\s*#\d+\s+(?:0x[0-9a-f]+\s+in\s+)?(.+?)\s+(/\S+?)?(?::\d+)?(?::\d+)?(?:\s+\(.*\))?$")


def short_fn(fn):
    fn = re.sub(r"<.*>", "<>", fn)
    fn = re.sub(r"\(.*", "", fn)
    return fn.strip()


def falcon_frames(block):
    """Functions of the code under test in a report, outermost harness frames left out."""
    res = []
    for l in block:
        m = re.match(r"^\s*#\d+\s+(.*)$", l)
        if m and REPO + "/src" in m.group(1):
            res.append(short_fn(re.sub(r"^0x[0-9a-f]+ in ", "", m.group(1))))
    return res


def sanitizer_keys(text):
    """Deduplicated findings of the sanitizers: kind + the functions of the code under test involved."""
    keys = {}
    lines = text.split("\n")
    for i, l in enumerate(lines):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)", l)
        if m:
            j = i + 1
            while j < len(lines) and not lines[j].startswith("SUMMARY: ThreadSanitizer"):
                j += 1
            blk = lines[i:j + 1]
            # split in stacks; take the innermost frame of the code under test of each of the first two
            stacks, cur = [], None
            for b in blk[1:]:
                if re.match(r"^  \S", b):
                    cur = []
                    stacks.append(cur)
                elif cur is not None:
                    cur.append(b)
            names = []
            for s in stacks[:2]:
                fr = falcon_frames(s)
                names.append(fr[0] if fr else "-")
            keys.setdefault("tsan:%s:%s" % (m.group(1).strip(), "/".join(sorted(names))), "\n".join(blk[:60]))
        m = re.search(r"ERROR: AddressSanitizer:? (\S+)", l)
        if m:
            blk = lines[i:i + 60]
            fr = falcon_frames(blk)
            keys.setdefault("asan:%s:%s" % (m.group(1), fr[0] if fr else "-"), "\n".join(blk))
        m = re.search(r"runtime error: (.*)", l)
        if m:
            blk = lines[i:i + 30]
            fr = falcon_frames(blk)
            what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
            keys.setdefault("ubsan:%s:%s" % (what, fr[0] if fr else "-"), "\n".join(blk))
    return keys


class Result:
    def __init__(self):
        self.viols = {}     # key -> (detail, replay)
        self.stats = {}
        self.samples = []
        self.hang = None
        self.skipped = []
        self.runs = 0


def parse_output(out, err, rc, cmd, res, env):
    replay = {"cmd": cmd, "env": env}
    done = False
    for l in out.split("\n"):
        if l.startswith("@@VIOL "):
            k, _, d = l[7:].partition("|")
            res.viols.setdefault(k, (d, replay))
        elif l.startswith("@@HANG "):
            k, _, d = l[7:].partition("|")
            res.hang = ("hang:" + k, d)
        elif l.startswith("@@STAT "):
            for k, v in json.loads(l[7:]).items():
                if k.startswith("max_"):
                    res.stats[k] = max(res.stats.get(k, 0), v)
                else:
                    res.stats[k] = res.stats.get(k, 0) + v
        elif l.startswith("@@SAMPLE "):
            if len(res.samples) < 6:
                res.samples.append(l[9:])
        elif l.startswith("@@DONE"):
            done = True
    for k, blk in sanitizer_keys(err).items():
        res.viols.setdefault(k, (blk, replay))
    if not done and not res.hang:
        if rc in (-9,):
            raise Inconclusive("%s was killed" % cmd)
        if not any(k.startswith(("asan:", "ubsan:", "tsan:")) for k in res.viols):
            tail = [x for x in err.strip().split("\n") if x.strip()][-1:] or [""]
            last = re.sub(r"0x[0-9a-f]+|\d+", "N", tail[0])[:120]
            name = "signal %d" % -rc if rc < 0 else "exit %d" % rc
            res.viols.setdefault("crash:%s:%s" % (name, last), (err[-1500:], replay))
    return done


class Job:
    def __init__(self, prog, mode, quick, thorough, shards=1, tshards=None, timeout=240):
        self.prog, self.mode, self.quick, self.thorough = prog, mode, quick, thorough
        self.shards = shards
        self.tshards = tshards or shards
        self.timeout = timeout

    def instances(self, salt=0):
        n = self.shards if TIER == "quick" else self.tshards
        args = dict(self.quick)
        if TIER == "thorough":
            args.update(self.thorough)
        for i in range(n):
            yield dict(args, mode=self.mode, seed=SEED * 100000 + salt * 1000 + i)


def run_instance(exe, args, timeout, workdir):
    cmd = [exe] + ["%s=%s" % kv for kv in sorted(args.items())]
    env = dict(SAN_ENV, PATH=os.environ.get("PATH", ""), HOME="/tmp", LANG="C.UTF-8", TZ="VRF-3:30")
    res = Result()
    for attempt in (1, 2):
        r1 = Result()
        d = os.path.join(workdir, "w%x" % (hash((tuple(cmd), attempt, time.time())) & 0xffffffffff))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "out"), "w+b") as fo, open(os.path.join(d, "err"), "w+b") as fe:
            p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
            if "-plain-" in os.path.basename(exe):
                # code gone wild must not take the memory of the whole machine (the sanitizers' shadows need no such limit)
                try:
                    resource.prlimit(p.pid, resource.RLIMIT_AS, (12 << 30, 12 << 30))
                except (OSError, ValueError):
                    pass
            to = False
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                to = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            fo.seek(0)
            fe.seek(0)
            out = fo.read().decode("utf-8", "replace")
            err = fe.read(4000000).decode("utf-8", "replace")
        shutil.rmtree(d, ignore_errors=True)
        res.runs += 1
        if to:
            # whatever was already observed counts; the time out itself decides nothing
            for k, blk in sanitizer_keys(err).items():
                r1.viols.setdefault(k, (blk, {"cmd": cmd, "env": env}))
            for l in out.split("\n"):
                if l.startswith("@@VIOL "):
                    k, _, dd = l[7:].partition("|")
                    r1.viols.setdefault(k, (dd, {"cmd": cmd, "env": env}))
            if not r1.viols:
                if attempt == 1:
                    continue
                raise Inconclusive("timeout of %s" % " ".join(cmd))
        else:
            parse_output(out, err, p.returncode, cmd, r1, env)
            if r1.hang and not r1.viols and attempt == 1:
                # no progress: run once more before calling it a hang
                continue
            if r1.hang:
                r1.viols.setdefault(r1.hang[0], (r1.hang[1], {"cmd": cmd, "env": env}))
        res.viols.update(r1.viols)
        res.stats, res.samples = r1.stats, r1.samples
        return res
    return res


def run_jobs(jobs, par):
    exes = build_all([j.prog for j in jobs])
    workdir = os.path.join(BUILD, "work-%d" % os.getpid())
    os.makedirs(workdir, exist_ok=True)
    total = Result()
    flav = {}
    try:
        with cf.ThreadPoolExecutor(par) as pool:
            futs = []
            for ji, j in enumerate(jobs):
                if j.prog.key() not in exes:
                    total.skipped.append(j)
                    continue
                to = j.timeout if TIER == "quick" else j.timeout * 12
                for a in j.instances(ji):
                    futs.append((j, pool.submit(run_instance, exes[j.prog.key()], a, to, workdir)))
            for j, f in futs:
                r = f.result()
                total.viols.update(r.viols)
                total.runs += r.runs
                flav[j.prog.flavor] = flav.get(j.prog.flavor, 0) + 1
                for k, v in r.stats.items():
                    total.stats[k] = max(total.stats.get(k, 0), v) if k.startswith("max_") else total.stats.get(k, 0) + v
                for s in r.samples:
                    if len(total.samples) < 8:
                        total.samples.append(s)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    total.stats["process_runs"] = total.runs
    for k, v in flav.items():
        total.stats["process_runs_" + k] = v
    return total


# ------------------------------------------------------------------------------------------- verdict
def known_findings():
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) key=<(.*?)> (.*)$", l.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


def verdict(prop, spec, res, t0):
    known = known_findings()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    new = []
    for k, (detail, replay) in sorted(res.viols.items()):
        if (prop, k) in known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, known[(prop, k)]))
        else:
            new.append((k, detail, replay))
    st = dict(res.stats)
    ev = st.pop("evaluations", 0)
    dn = st.pop("distinct_nontrivial", 0)
    missing = [k for k in spec.get("require", []) if not st.get(k)]
    st["jobs_not_applicable"] = len(res.skipped)
    cov = {"evaluations": ev, "distinct_nontrivial": dn, "rule": spec["rule"], "samples": res.samples}
    cov["observed"] = st
    evidence = {"property": prop, "tier": TIER, "seed": SEED, "level": spec.get("level", "exploration"),
                "coverage": cov, "assumptions": spec.get("assumptions", []),
                "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if new:
        path = os.path.join(VERIF, "evidence", prop + ".replay.json")
        with open(path, "w") as f:
            json.dump([{"key": k, "detail": d, "replay": r} for k, d, r in new], f, indent=1)
        for k, d, r in new[:5]:
            print("  %s: %s" % (k, d[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if ev < spec.get("min_evaluations", 1) or dn < 1 or missing:
        raise Inconclusive("not enough was observed: evaluations=%d distinct=%d missing=%s" % (ev, dn, missing))
    print("%s held: %d evaluations, %d distinct, %s" % (prop, ev, dn, json.dumps(st)))
    return 0


def main():
    t0 = time.time()
    import props
    if sys.argv[1:] == ["--setup"]:
        for t in ("g++", "clang++", "cmake", "ninja"):
            if not shutil.which(t):
                print("missing tool:", t)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        configure()
        print("ready")
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in props.PROPS:
        print("usage: run.py <%s>" % "|".join(sorted(props.PROPS)))
        return 2
    prop = sys.argv[1]
    spec = props.PROPS[prop]()
    try:
        if "jobs" in spec:
            res = run_jobs(spec["jobs"], spec.get("par", 4))
            if spec.get("then"):
                spec["then"](res)
        else:
            res = spec["run"]()
        return verdict(prop, spec, res, t0)
    except InterfaceBroken as e:
        res = Result()
        res.viols["interface:" + e.args[0]] = (e.args[1], {"compile": e.args[0]})
        return verdict(prop, spec, res, t0)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    try:
        sys.exit(main())
    except Exception:
        # a failure of the machinery is no verdict
        traceback.print_exc()
        sys.exit(2)
