#!/usr/bin/env python3
"""Systematic mutants of the sources, run against the checks (a way to find what the checks do not see).

  mutate.py FILE-REGEX [every=N] [from=K] [slot=S] [props=P,Q]
For each mutant: the checks of its file's properties are run on a scratch copy until one alarms; a mutant all of them
accept is built and given the stable tests; those that survive both are appended to the log as SURVIVOR, to be looked at.
"""
import json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = [
    (r"logsystem", "L01 L06 L04 L05 L03 L02 L07 L12 L11"), (r"logstream", "L08 L07"), (r"logproxy", "L12"),
    (r"logger", "L09 L10 L11 L07"), (r"pagedstack", "S01 S03 S02 S06 S04 S07 S05"), (r"futex", "F01 F02 F03"),
    (r"atomic_gcc", "A01 F01"), (r"singleton", "G01"), (r"engine/code|engine/compiler", "C01 I04"), (r"distribute", "D01"),
    (r"engine/(item|handler|.*handler)", "I01 I02 I03 I04"), (r"fut/marktime|fut/timelapse", "T07 T01 T05"),
    (r"fut/fut\.h", "T06 T01"), (r"fut/", "T01 T02 T03 T05 T04 T07 T06"), (r"error", "L03 T06")]


def sh(cmd, cwd=None, timeout=None, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        class T: returncode, stdout = 99, "timeout"
        return T


def code_part(l):
    return re.sub(r'"(?:\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', l.split("//")[0])


OPS = [("rel", r"<=", "<"), ("rel", r">=", ">"), ("rel", r"(?<=\w) < (?=\w)", " <= "), ("rel", r"(?<=\w) > (?=\w)", " >= "),
       ("rel", r"(?<![=!<>])==(?!=)", "!="), ("rel", r"!=", "=="), ("log", r"&&", "||"), ("log", r"\|\|", "&&"),
       ("ari", r"(?<=[\w)]) \+ (?=[\w(])", " - "), ("ari", r"(?<=[\w)])\s*\+ 1\b", ""), ("ari", r"(?<=[\w)])\s*- 1\b", ""), ("ari", r"(?<=[\w)]) - (?=[\w(])", " + "),
       ("ari", r"\+=", "-="), ("ari", r"-=", "+="), ("inc", r"\+\+", "--"), ("inc", r"(?<!-)--(?!-)", "++"),
       ("con", r"(?<![\w.])0(?![\w.])", "1"), ("con", r"(?<![\w.])1(?![\w.])", "2"), ("con", r"(?<![\w.])1(?![\w.])", "0"),
       ("con", r"\btrue\b", "false"), ("con", r"\bfalse\b", "true"), ("not", r"!(?=[\w(])", ""),
       ("con", r"(?<![\w.])([2-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) + 1)),
       ("mem", r"memory_order_(acquire|release|acq_rel|seq_cst)", "memory_order_relaxed"), ("mem", r"__ATOMIC_(ACQUIRE|RELEASE|ACQ_REL|SEQ_CST)", "__ATOMIC_RELAXED"),
       ("one", r"notify_all", "notify_one"), ("ref", r"std::move\((\w+)\)", r"\1"), ("ari", r" / ", " % "), ("ari", r" % ", " / ")]


def mutants(path, text):
    lines = text.split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "*", "#")) and not (path.endswith("logger.h") or path.endswith("fut.h")) or s.startswith(("#include", "#if", "#endif", "#el")):
            continue
        c = code_part(l)
        for kind, rx, rep in OPS:
            if re.search(r"\btemplate\b|^\s*(class|struct|using|namespace)\b", c) and kind != "mem":
                continue
            for m in re.finditer(rx, c):
                new = l[:m.start()] + m.expand(rep) if isinstance(rep, str) else l[:m.start()] + rep(m)
                new += l[m.end():]
                yield i, kind, l, new
        m = re.match(r"^(\s*)(\}?\s*(?:else )?if\s*(?:constexpr\s*)?)\((.*)\)(\s*\{?.*)$", c)
        if m and m.group(3).count("(") == m.group(3).count(")") and "constexpr" not in c:
            a, b = m.start(3), m.end(3)
            for v in ("true", "false"):
                yield i, "cond", l, l[:a] + v + l[b:]
            yield i, "cond", l, l[:a] + "!(" + l[a:b] + ")" + l[b:]
        body = c.rstrip().rstrip("\\").rstrip()
        decl = re.compile(r"^\s*(?!delete|throw|else|case)[\w:<>,&*]+[ &*]+[~\w]+(\(.*\)\s*(const)?\s*(noexcept)?\s*(override)?\s*(= ?\w+)?)?\s*(=.*|\{.*\})?;$|^\s*~?\w+\(.*&.*\);$|^\s*~\w+\(\);$")
        if path.endswith(".h") and decl.match(body) or re.match(r"^\s*assert\(", body):
            continue
        tail = " \\" if c.rstrip().endswith("\\") else ""
        if body.endswith(";") and not re.match(r"^\s*(using|typedef|return\s*;|friend|virtual|static\b.*;|public|private|break)", body) \
           and body.count("(") == body.count(")") and body.count("{") == body.count("}"):
            if re.match(r"^\s*(return\b)", body):
                pass
            else:
                yield i, "del", l, re.match(r"^\s*", l).group(0) + ";" + tail
                # the statement after the next one
                if i + 1 < len(lines):
                    n = code_part(lines[i + 1]).rstrip().rstrip("\\").rstrip()
                    if n.endswith(";") and n.count("(") == n.count(")") and not re.match(r"^\s*(return|break|using|friend|virtual)", n) and not tail:
                        yield i, "swap", l, lines[i + 1] + "\n" + l


def main():
    args = dict(a.split("=", 1) for a in sys.argv[2:] if "=" in a)
    rx, every, start, slot = sys.argv[1], int(args.get("every", 1)), int(args.get("from", 0)), args.get("slot", "0")
    S = "/tmp/mut." + slot
    repo = S + "/repo"
    if not os.path.isdir(repo):
        os.makedirs(S + "/vp")
        sh(["git", "clone", "-q", "/repo", repo])
        for f in ("build.sh", "test.sh", "run_fut.py", "results.py"):
            t = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp", S + "/vp")
            open(S + "/vp/" + f, "w").write(t)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    log = open("/tmp/mutants.%s.log" % slot, "a")

    def say(*a):
        print(*a, file=log, flush=True)
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=repo)
    verif = args.get("verif", VERIF)
    files = sh("git ls-files src", cwd=repo).stdout.split()
    for f in files:
        if not re.search(rx, f) or "/test/" in f or not re.search(r"\.(h|cpp|c\+\+)$", f) or "win" in f or "_vc" in f:
            continue
        props = args["props"].split(",") if "props" in args else next((p.split() for r, p in FILES if re.search(r, f)), None)
        if not props:
            continue
        path = os.path.join(repo, f)
        text = open(path).read()
        lines = text.split("\n")
        seen, ms = set(), []
        for i, kind, old, new in mutants(f, text):
            if new != old and (i, new) not in seen:
                seen.add((i, new))
                ms.append((i, kind, old, new))
        say("== %s: %d mutants" % (f, len(ms)))
        order = list(range(len(ms)))
        random.Random(7).shuffle(order)
        order = order[start::every]
        n = {"alarm": 0, "nocompile": 0, "tests": 0, "survivor": 0}
        for k in order:
            i, kind, old, new = ms[k]
            t = lines[:]
            if kind == "swap":
                t[i:i + 2] = new.split("\n")
            else:
                t[i] = new
            open(path, "w").write("\n".join(t))
            # does it compile at all
            inc = "/repo/_build/include/falcon"
            if f.endswith(".h"):
                probe = S + "/p.cpp"
                open(probe, "w").write('#include <falcon/%s>\n' % f.split("include/falcon/")[1])
            else:
                probe = path
            r = sh(["g++", "-std=gnu++17", "-w", "-fsyntax-only", "-x", "c++", "-I" + repo + "/src/include", "-I" + inc, probe])
            if r.returncode:
                n["nocompile"] += 1
                continue
            got = None
            if verif != VERIF:
                shutil.rmtree(verif + "/build", ignore_errors=True)
            for p in props:
                r = sh(["python3", "run.py", p], cwd=verif, timeout=600, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
                if r.returncode == 1:
                    got = p
                    break
                if r.returncode not in (0, 1):
                    if "cannot compile" in r.stdout or "cannot link" in r.stdout:
                        got = "nocompile"
                        break
                    say("ODD %s %s:%d rc=%d %s" % (p, f, i + 1, r.returncode, r.stdout[-300:].replace("\n", " | ")))
            if got:
                n["nocompile" if got == "nocompile" else "alarm"] += 1
                say("%s %s:%d %s | %s -> %s" % (got, f, i + 1, kind, old.strip(), new.strip().replace("\n", " ;; ")))
                continue
            r = sh(["bash", S + "/vp/build.sh"], cwd=repo)
            if r.returncode:
                n["nocompile"] += 1
                say("NOBUILD %s:%d %s | %s -> %s" % (f, i + 1, kind, old.strip(), new.strip()))
                continue
            ok = False
            for _ in range(2):
                r = sh(["bash", S + "/vp/test.sh", S + "/o.json"], cwd=repo, timeout=300)
                try:
                    o = json.load(open(S + "/o.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    want = base.get("stable") or base.get("passed") or base
                    names = want if isinstance(want, list) else list(want)
                    ok = set(names) <= set(o.get("passed", []))
                except Exception as e:
                    ok = None
                    say("ODD tests", repr(e), r.stdout[-200:])
                if ok:
                    break
            n["survivor" if ok or ok is None else "tests"] += 1
            say("%s %s:%d %s | %s -> %s" % ("SURVIVOR" if ok or ok is None else "tests-only", f, i + 1, kind, old.strip(), new.strip().replace("\n", " ;; ")))
        open(path, "w").write(text)
        say("== %s: %s" % (f, n))


main()
