"""T01-T05, T07: scripted test programs run with generated command lines, judged on the log of what their cases did.

The cases write what they do in a log of their own (start and end of each phase, outputs, failures, with the time);
what the framework says - exit status, standard output and error, XML report, accessors - is compared to that log.
"""
import collections, concurrent.futures as cf, os, random, re, shutil, signal, subprocess, time
import xml.etree.ElementTree as ET
import run as R

OPTS = "-e -i -h -n -q -t -v -x".split()
FLAV = ["asan", "plain"]
REG = [("Zulu", "first", 1, True), ("Mike", "one", 1, False), ("Alpha", "b", 1, True), ("Mike", "2nd", 1, False), ("Alpha", "a", 1, True),
       ("Bravo", "x", 1, False), ("Zulu", "second", 1, True), ("Alpha", "z", 1, True), ("Bare", "t1", 1, False), ("Mike", "a", 1, False),
       ("mike", "one", 1, False), ("Mik", "e_one", 1, False), ("Mike", "zz", 2, False), ("Alpha", "second_file", 2, True),
       ("Oscar", "_1", 2, False), ("Mike", "b", 2, False)]
TOK = re.compile(rb"@[0-9a-f]{6}@")


def hx(b):
    return "x" + (b if isinstance(b, bytes) else b.encode()).hex()


def unhx(s):
    return bytes.fromhex(s[1:])


# ------------------------------------------------------------------------------------------------- generation
class Gen:
    def __init__(self, seed, focus):
        self.r = random.Random(seed)
        self.focus = focus
        self.n = 0

    def tok(self):
        self.n += 1
        return "@%06x@" % (self.r.randrange(256) * 65536 + self.n)

    def body_text(self, hostile):
        r = self.r
        if r.random() < .15:
            return ""
        out = []
        for _ in range(r.choice([1, 1, 2, 4, 8, 30])):
            k = r.random()
            if k < .3:
                out.append(r.choice(["a", "word ", "0", "x y", "Passed", "FAILED", "OK", "::", ", "]))
            elif k < .5 and hostile:
                out.append(r.choice(["&", "<", ">", '"', "'", "&amp;", "<failure>", "]]>", "<![CDATA[", "<!--", "-->", "<?xml", "&#0;", "&lt", "</testsuite>", "%s", "%n", "\\", "{", "$"]))
            elif k < .65:
                out.append(r.choice(["\n", "\n\n", "\t", "  ", " \n"]))
            elif k < .75 and hostile:
                out.append(r.choice(["\r", "\x01", "\x1f", "\x7f", "\x08", "\x0b", "\x0c", "\r\n", "\x1b[0m", "\u0085", "\u2028"]))
            elif k < .85 and hostile:
                out.append(r.choice(["\ufffe", "\uffff", "\U0010ffff", "\U0001f600", "\u00e9", "\u4e2d", "\ufffd", "\U0001fffe", "\ud7ff", "\ue000", "\u0080", "\ufeff"]))
            else:
                out.append(chr(r.randrange(33, 126)).replace("@", "a"))
        return "".join(out)

    def text(self, hostile=True):
        # begins and ends by a mark, to be found anywhere
        if self.r.random() < .04 and hostile:
            big = self.body_text(True) + "x" * self.r.choice([1000, 5000, 70000]) + self.body_text(True)
            return self.tok() + big + self.tok()
        return self.tok() + self.body_text(hostile) + self.tok()

    def output(self):
        # what's written may contain zero characters, also to begin with
        t, k = self.text(), self.r.random()
        if k < .1:
            i = self.r.randrange(len(t) - 16) + 8 if len(t) > 16 else 8
            t = t[:i] + self.r.choice(["\0", "\0\0", "a\0b"]) + t[i:]
        elif k < .15:
            t = "\0" + t
        return t

    def name(self, hostile, plain_end=False):
        r = self.r
        s = self.body_text(hostile and r.random() < .5)[:60]
        s = s.replace("\n", "n").replace("::", ":") if r.random() < .8 else s.replace("::", ":")
        pre = r.choice(["", "", "A", "a", "Z", "01_", "é", "_"]) if not plain_end else ""
        return pre + self.tok() + s.strip(":") + r.choice(["", "", "z"])

    def actions(self, fail_p, heavy_out, capture_err_ok=True):
        """Actions of a case by phase; what they do is recorded by the case, not foreseen here."""
        r = self.r
        acts = []
        for ph in "SBD":
            n = r.choice([0, 0, 1]) if ph != "B" else r.choice([0, 1, 1, 2, 3])
            if heavy_out:
                n = r.choice([0, 1, 2, 3])
            for _ in range(n):
                k = r.random()
                if k < .45:
                    acts.append((ph, r.choice(["out", "out", "outw", "outc", "outt"]), [hx(self.output())]))
                elif k < .6 and capture_err_ok and r.random() < (.5 if heavy_out else .3):
                    acts.append((ph, r.choice(["err", "err", "errc"]), [hx(self.output())]))
                elif k < .7:
                    acts.append((ph, "flush", []))
                elif k < .8:
                    acts.append((ph, r.choice(["EQ", "TRUE", "THROW", "NOTHROW"]), ["1"]))
                elif k < .9:
                    acts.append((ph, "pass", []))
                else:
                    acts.append((ph, "fmt", []))
            p = fail_p if ph == "B" else fail_p / 3
            m = 0
            while r.random() < p and m < 3:
                m += 1
                f, ln = r.choice(["", "/a/b/", "../", "./"]) + r.choice(["x", "f&<>", "é"]) + self.tok() + ".cpp", r.choice([1, 2, 77, 123456])
                k = r.random()
                if k < .25:
                    acts.append((ph, "checkfail", [hx(f), str(ln), hx(self.text()), hx(r.choice(["", "7", self.text()]))]))
                elif k < .35:
                    acts.append((ph, "fail", [hx(f), str(ln), hx(self.text())]))
                elif k < .5:
                    acts.append((ph, "FAIL", [hx(self.text())]))
                elif k < .7:
                    acts.append((ph, r.choice(["EQ", "TRUE", "THROW", "NOTHROW"]), ["0"]))
                elif k < .78:
                    acts.append((ph, "ret", []))
                else:
                    acts.append((ph, r.choice(["throwstd", "throwstd", "throwmy", "throwint", "throwstr"]), [hx(self.text())]))
                if ph == "S" and acts[-1][1].startswith("throw"):
                    # what follows is not specified when the set-up throws
                    acts[:] = [a for a in acts if a[0] != "D"]
                    return acts, True
                if r.random() < .5:
                    acts.append((ph, "out", [hx(self.text())]))
        if self.focus in ("T01", "T03", "T04", "T05", "T07") and acts and r.random() < (.05 if self.focus == "T04" else .02):
            # the global locale stays so
            acts.insert(0, (acts[0][0], "locale", []))
            self.locales = True
        if capture_err_ok and self.mutes and acts and r.random() < .08:
            i = r.randrange(len(acts) + 1)
            ph = acts[i - 1][0] if i else acts[0][0]
            acts.insert(i, (ph, "mute", [r.choice(["out", "out", "err", "both", "failout", "baderr", "nullout", "errtoout", "outtoerr", "crossed", "early", "joined", "swapped"])]))
        return acts, False

    def times(self, acts):
        r = self.r
        for ph in "SBD":
            if r.random() < (.7 if ph == "B" else .25):
                acts.insert(0, (ph, "sleep", [str(r.choice([1000, 5000, 20000, 60000]))]))
        sb = [i for i, a in enumerate(acts) if a[0] == "B"]
        # the phases in order, with readings of the running time around
        acts = [("B", "now", [])] + acts if r.random() < .5 else acts
        return acts

    def naming(self, old, hostile, apiargs, op):
        """Report, name and identifier asked for by the options before a run; the latter two may stay."""
        r = self.r
        name, uid = old or ("", "")
        if r.random() < .5:
            name = self.name(hostile)
            apiargs.append(op + ",n" + name)
        if r.random() < .5:
            uid = self.name(hostile)
            apiargs.append(op + ",i" + uid)
        apiargs.append(op + ",x")
        return name, uid

    def program(self):
        """(program, script, argv, plan)"""
        r, fo = self.r, self.focus
        plan = {"focus": fo}
        reg = r.random() < (.35 if fo == "T02" else .15) and fo not in ("T07",)
        plan["reg"] = reg
        hostile = fo == "T04" or r.random() < .3
        fail_p = r.choice([0, 0, .1, .3, .6, .95])
        if fo == "T01" and r.random() < .3:
            fail_p = .05
        cases = []
        if reg:
            for c, n, tu, fx in REG:
                cases.append({"comp": c, "name": n, "tu": tu, "fixture": fx})
        else:
            ncomp = r.choice([0, 1, 1, 2, 3, 6]) if fo != "T02" else r.choice([1, 2, 3, 5, 9])
            comps = [self.name(hostile) for _ in range(ncomp)]
            full = set()
            for _ in range(0 if not comps else r.choice([1, 2, 3, 5, 8, 14])):
                c = r.choice(comps)
                n = self.name(hostile)
                if (c + "::" + n) not in full:
                    full.add(c + "::" + n)
                    cases.append({"comp": c, "name": n, "tu": 1, "fixture": True})
        crowd = not reg and r.random() < {"T01": .02, "T02": .012, "T04": .012}.get(fo, 0)
        if crowd:
            # as many failures as an exit status cannot tell
            comps = [self.name(False) for _ in range(r.choice([1, 2, 5] if fo == "T01" else [1, 2, 5, 40, 260]))]
            cases = [{"comp": r.choice(comps), "name": "n%d" % i + self.tok(), "tu": 1, "fixture": True}
                     for i in range(r.choice([255, 256, 256, 257, 512, 512, 768]))]
        opts = []
        capture = r.random() >= (.25 if fo in ("T03", "T05") else .08)
        e = r.random() < .3
        if reg:
            plan["api"] = "reg"
        elif fo in ("T05", "T04") or r.random() < .75:
            plan["api"] = r.choice(["main", "main", "singleton"] if r.random() < .85 else ["perform", "several"])
        else:
            plan["api"] = r.choice(["perform", "single", "several"])
        heavy = fo == "T03"
        self.mutes = capture and not reg
        self.locales = False
        for i, c in enumerate(cases):
            c["id"] = i
            if crowd:
                c["acts"], c["sthrow"] = [("B", r.choice(["EQ", "TRUE"]), ["0" if fo == "T01" or r.random() < .3 else "1"])], False
                continue
            c["acts"], c["sthrow"] = self.actions(fail_p, heavy, not (e and not capture))
            if not c["fixture"]:
                # no set-up and tear-down of ours there
                c["acts"] = [a for a in c["acts"] if a[0] == "B"]
                c["sthrow"] = False
            if fo == "T07":
                c["acts"] = self.times(c["acts"])
        plan.update(cases=cases, reports=[], capture=capture, verb=2, sel=None, xml=None, bad=None, help=False)
        apiargs = []
        argv0 = r.choice(["/a/b/prog", "prog", "./fut_x.y.z", "a/b.c/prog.exe", "/x.y/" + r.choice(["fut_" + self.tok(), "t&t", "a b", "é"]), "../p", "T"])
        base = argv0.rsplit("/", 1)[-1]
        plan["uname"] = plan["uid"] = base.split(".")[0]
        argv = []
        if plan["api"] in ("main", "singleton", "reg"):
            if not capture:
                opts.append(["-c"])
            if e:
                opts.append(["-e"])
            k = r.random()
            if k < .15:
                opts.append(["-q"])
                plan["verb"] = 0
            elif k < .85:
                plan["verb"] = r.choice([0, 1, 2, 3, 4, 5, 5, 4])
                opts.append(["-v", str(plan["verb"])])
            if cases and not crowd and r.random() < (.5 if fo in ("T02", "T05") else .25):
                sel = [r.choice(cases) for _ in range(r.choice([1, 1, 2, 3, 6]))]
                if r.random() < .8:
                    sel = list({c["id"]: c for c in sel}.values())
                plan["sel"] = [c["id"] for c in sel]
            if fo == "T04" or r.random() < (.5 if fo in ("T05", "T07") else .2):
                opts.append(["-x", "report.xml"])
                plan["xml"] = "report.xml"
            elif r.random() < .06:
                # a report that can't be written changes nothing of the run
                opts.append(["-x", "no/where/report.xml"])
                plan["lost"] = True
            if r.random() < .3:
                plan["uname"] = self.name(hostile)
                opts.append(["-n", plan["uname"]])
            if r.random() < .3:
                plan["uid"] = self.name(hostile)
                opts.append(["-i", plan["uid"]])
            r.shuffle(opts)
            # the selections keep the order among them
            for i in reversed(plan["sel"] or []):
                pass
            seq = [["-t", cases[i]["comp"] + "::" + cases[i]["name"]] for i in (plan["sel"] or [])]
            pos = sorted(r.randrange(len(opts) + 1) for _ in seq)
            for q, (p, s) in enumerate(zip(pos, seq)):
                opts.insert(p + q, s)
            if r.random() < {"T05": .35, "T02": .12}.get(fo, .03):
                # what matters to the selection is a name that is nobody's
                k = r.random() if fo != "T02" else .7
                if k < .15 and ["-q"] not in opts and plan["verb"] != 0:
                    plan["help"] = True
                    opts.insert(r.randrange(len(opts) + 1), ["-h"])
                elif k < .4:
                    plan["bad"] = "missing argument"
                    opts.append([r.choice(["-v", "-t", "-x", "-n", "-i"])])
                elif k < .6:
                    plan["bad"] = "verbosity"
                    opts = [o for o in opts if o[0] not in ("-v", "-q")]
                    opts.insert(r.randrange(len(opts) + 1), ["-v", r.choice(["6", "-1", "abc", "3x", "", "99999999999", "2.5", "100", "-5", "5 5", "4294967296", "4294967297", "--"])])
                elif k < .8:
                    plan["bad"] = "unknown case"
                    known = set(c["comp"] + "::" + c["name"] for c in cases)
                    w = r.choice([x for x in ["Nope::nope", "", "::", (cases[0]["comp"] if cases else "x"), (cases[0]["comp"] + "::" if cases else "y"),
                                              (cases[0]["comp"] + "::" + cases[0]["name"] + "x" if cases else "z"), (cases[0]["name"] if cases else "w"),
                                              (cases[-1]["comp"] + "::" + cases[-1]["name"][:-1] if cases else "w")] if x not in known])
                    opts.insert(r.randrange(len(opts) + 1), ["-t", w])
                else:
                    plan["bad"] = "unknown option"
                    opts.insert(r.randrange(len(opts) + 1), [r.choice(["-z", "--verbose", "-vv", "-v5", "foo", "", "-", "-Q", "-cc", "--help", "-tfoo", "5", "v", "/q", "-v=3"])])
            argv = [a for o in opts for a in o]
        elif plan["api"] == "perform":
            plan["perform"] = [r.choice([0, 1, 2, 3, 4, 5]) for _ in range(r.choice([1, 2, 3]))]
            apiargs, named = [], None
            for v in plan["perform"]:
                if r.random() < (.8 if fo == "T04" else .2):
                    named = self.naming(named, hostile, apiargs, "X0")
                plan["reports"].append(named)
                apiargs.append(str(v))
            plan["capture"] = capture = True
        elif plan["api"] == "several":
            plan["capture"] = capture = True
            known = [[], [], []]
            chosen = [[], [], []]
            apiargs = ["V%d,%d" % (u, r.choice([0, 0, 2, 5])) for u in range(3)]
            plan["silent"] = all(a.endswith(",0") for a in apiargs)
            nxt = [0, 0, 0]
            plan["several"] = []
            plan["caps"] = []
            uncap = r.random() < .4
            caps, named = [True] * 3, [None] * 3
            for _ in range(r.choice([4, 8, 16, 32])):
                u = r.randrange(3)
                k = r.random()
                if k < .45 and nxt[u] < len(cases):
                    nxt[u] += r.choice([0, 0, 1])
                    if nxt[u] < len(cases):
                        known[u].append(nxt[u])
                        apiargs.append("R%d,%d" % (u, nxt[u]))
                        nxt[u] += 1
                elif uncap and caps[u] and r.random() < .1:
                    # its later runs capture nothing
                    caps[u] = False
                    apiargs.append("C%d,0" % u)
                elif k < .52 and known[u]:
                    chosen[u].append(r.choice(known[u]))
                    apiargs.append("A%d,%d" % (u, chosen[u][-1]))
                elif k < .85:
                    if r.random() < (.6 if fo == "T04" else .1):
                        named[u] = self.naming(named[u], hostile, apiargs, "X%d" % u)
                    plan["reports"].append(named[u])
                    plan["several"].append(("P", list(chosen[u] or known[u])))
                    plan["caps"].append(caps[u])
                    apiargs.append("P%d,0" % u)
                else:
                    c = r.choice(known[u]) if known[u] and r.random() < .8 else r.choice([-1] + [i for i in range(len(cases)) if i not in known[u]])
                    plan["reports"].append(None)
                    plan["several"].append(("T", [c] if c in known[u] else None))
                    plan["caps"].append(caps[u])
                    apiargs.append("T%d,%d" % (u, c))
            if False in caps:
                for c in cases:
                    # nothing would put such streams back
                    c["acts"] = [a for a in c["acts"] if a[1] != "mute"]
        else:
            plan["verb"] = r.choice([0, 2, 5])
            plan["capture"] = True
            names = [r.choice(cases)["id"] if cases and r.random() < .85 else None for _ in range(r.choice([1, 2, 4]))]
            plan["single"] = names
            apiargs = [str(plan["verb"])] + [(cases[i]["comp"] + "::" + cases[i]["name"]) if i is not None else "No::such" for i in names]
        lines = ["api %s %s" % ("main" if plan["api"] == "reg" else plan["api"], " ".join(hx(a) for a in apiargs))]
        # what the program does with the standard output, or the global locale, before it runs anything
        plan["pre"] = r.choice([["fmt"], ["fmt", "imbue"], ["locale"], ["locale", "imbue"], ["width"]]) if r.random() < .12 and not reg else []
        lines += ["pre " + w for w in plan["pre"]]
        if "locale" in plan["pre"]:
            self.locales = True
        for c in cases:
            lines.append("case %d %s %s" % (c["id"], hx(c["comp"]), hx(c["name"])))
            for ph, op, args in c["acts"]:
                lines.append("a %s %s %s" % (ph, op, " ".join(args)))
        plan["crowd"] = crowd
        plan["script"] = "\n".join(lines) + "\n"
        plan["argv"] = [argv0] + argv
        plan["locale"] = self.locales
        return plan


# ------------------------------------------------------------------------------------------------- the log
class Exe:
    """One execution of a case, as its log tells."""

    def __init__(self, cid):
        self.id = cid
        self.phases = []
        self.out = b""
        self.err = b""
        self.fails = []      # (desc, file, line) ; exceptions have no file
        self.t = {}
        self.now = []
        self.muted = False
        self.sthrow = False
        self.cap = True
        self.first = self.last = None

    def key(self):
        return tuple(self.phases)


def read_events(path):
    ev = []
    if os.path.exists(path):
        for l in open(path, "rb").read().decode("ascii", "replace").split("\n"):
            w = l.split(" ")
            if len(w) > 1:
                ev.append((int(w[0]), w[1:]))
    return ev


def executions(ev):
    """The executions of the cases between two marks, split by their set-up (or body, for cases without)."""
    res, cur = [], None
    nofix = set()
    for t, w in ev:
        k = w[0]
        if k in ("M", "P", "Q", "U", "I"):
            if k in ("M", "P"):
                cur = None
            continue
        cid = int(w[1])
        if k == "S" or (k == "B" and (cur is None or cur.id != cid or "S" not in cur.phases)) or cur is None:
            cur = Exe(cid)
            cur.first = t
            res.append(cur)
        if cid != cur.id:
            cur.phases.append("?%s%d" % (k, cid))
            continue
        cur.last = t
        if k in ("S", "B", "D", "Se", "Be", "De"):
            cur.phases.append(k)
            cur.t[k] = t
        elif k == "O":
            cur.out += unhx(w[2])
        elif k == "R":
            cur.err += unhx(w[2])
        elif k == "F":
            cur.fails.append((unhx(w[2]), unhx(w[3]), int(w[4])))
        elif k == "E":
            cur.sthrow = cur.sthrow or cur.phases[-1:] == ["S"]
            cur.fails.append((None if w[2] == "*" else unhx(w[2]), None, None))
        elif k == "V":
            cur.muted = True
        elif k == "N":
            cur.now.append((t, int(w[2])))
    return res


# ------------------------------------------------------------------------------------------------- judging
class Judge:
    def __init__(self, plan, ev, out, err, rc, xml, stats, xmls={}):
        self.xmls = xmls
        self.plan, self.ev, self.out, self.err, self.rc, self.xml, self.stats = plan, ev, out, err, rc, xml, stats
        self.viols = []
        self.cases = plan["cases"]

    def bad(self, prop, key, detail):
        self.viols.append((prop, "%s:%s" % (prop, key), detail))

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def full(self, cid):
        c = self.cases[cid]
        return (c["comp"] + "::" + c["name"]).encode()

    def passed(self, x):
        return not x.fails and not (x.cap and x.err)

    def executions(self, ev, cap=None):
        xs = executions(ev)
        for x in xs:
            x.cap = self.plan["capture"] if cap is None else cap
        return xs

    def judge(self):
        p = self.plan
        ends = [w for t, w in self.ev if w[0] == "M" and w[1] == "end"]
        begins = [w for t, w in self.ev if w[0] == "M" and w[1] == "begin"]
        if len(ends) != 1 or len(begins) != 1:
            self.bad("*", "incomplete", "the program did not end: status %s, %r" % (self.rc, self.err[-400:]))
            return
        for t, w in self.ev:
            if w[0] == "I":
                if not p["sel"]:
                    self.bad("T02", "fixture-shared", "the fixture of %s is not its own (run %s)" % (unhx(w[1]), w[2]))
            if w[0] == "U":
                self.bad("T02", "unknown-case", "case %r was run" % unhx(w[1]))
        self.streams(ends[0][3:])
        if p["api"] in ("main", "singleton", "reg"):
            xs = self.executions(self.ev)
            if p["pre"]:
                self.st("formats_set_by_the_program")
            if p["bad"] or p["help"]:
                self.st("refused_command_lines" if p["bad"] else "help_requests")
                if xs:
                    self.bad("T05", "ran:%s" % (p["bad"] or "help"), "%d cases were run" % len(xs))
                    if p["bad"] == "unknown case" and set(x.id for x in xs) - set(p["sel"] or []):
                        self.bad("T02", "ran-unnamed", "%d cases were run that no option names" % len(set(x.id for x in xs) - set(p["sel"] or [])))
                if p["bad"] and self.rc == 0:
                    self.bad("T05", "status:%s" % p["bad"], "exit status 0")
                if p["help"]:
                    miss = [o for o in OPTS if o.encode() not in self.out]
                    if miss:
                        self.bad("T05", "usage", "the usage does not tell of %s: %r" % (miss, self.out[:300]))
                return
            ran = self.order(xs, p["sel"])
            self.status("exit status", self.rc, xs)
            self.output(self.out, xs, p["verb"], True)
            self.errstream(xs)
            if p["xml"]:
                self.report(xs)
            self.states([w for t, w in self.ev if w[0] == "Q"], xs)
            if p["focus"] == "T07":
                self.timing(xs)
        else:
            # runs delimited by marks
            runs, cur = [], None
            for t, w in self.ev:
                if w[0] == "P" and w[1] == "begin":
                    cur = [[], None, [], t, t]
                    runs.append(cur)
                elif w[0] == "P":
                    cur[1] = w
                    cur[4] = t
                elif w[0] == "Q":
                    cur[2].append(w)
                elif cur is not None and w[0] != "M":
                    cur[0].append((t, w))
            allx = []
            if p["api"] == "perform":
                if len(runs) != len(p["perform"]):
                    self.bad("*", "incomplete", "only %d runs" % len(runs))
                for k, (evs, end, q, t0, t1) in enumerate(runs):
                    xs = self.executions(evs)
                    allx += xs
                    self.order(xs, None)
                    self.status("status of performUnitTests", int(end[2]), xs)
                    self.streams(end[3:])
                    self.states(q, xs)
                    self.reportOf(k, xs)
                    self.timing(xs, (t0, t1))
                    self.st("repeated_runs")
            elif p["api"] == "several":
                if len(runs) != len(p["several"]):
                    self.bad("*", "incomplete", "only %d runs" % len(runs))
                for k, ((evs, end, q, t0, t1), (what, want), cap) in enumerate(zip(runs, p["several"], p["caps"])):
                    xs = self.executions(evs, cap)
                    allx += xs
                    if not cap:
                        self.st("runs_after_capture_was_disabled")
                    if (end[1] == "refused") != (want is None):
                        self.bad("T02", "single-refused" if want else "single-unknown", "case %s: %s" % (want, end))
                        continue
                    self.order(xs, want or [])
                    if want is not None:
                        self.status("status of a run", int(end[2]), xs)
                        self.streams(end[3:])
                    self.states(q, xs)
                    self.reportOf(k, xs)
                    self.timing(xs, (t0, t1))
                    self.st("runs_of_several_units")
                want = b"".join(x.out for x in allx if not x.cap)
                if p["silent"] and self.out != want:
                    self.bad("T03", "not-silent", "printed %r instead of %r" % (self.out[:300], want[:300]))
            else:
                for (evs, end, q, t0, t1), cid in zip(runs, p["single"]):
                    xs = self.executions(evs)
                    allx += xs
                    if cid is None:
                        if end[1] != "refused" or xs:
                            self.bad("T02", "single-unknown", "an unknown case was not refused: %s" % (end,))
                        continue
                    if end[1] == "refused":
                        self.bad("T02", "single-refused", "case %r was refused" % self.full(cid))
                        continue
                    self.order(xs, [cid])
                    self.status("status of performTest", int(end[2]), xs)
                    self.streams(end[3:])
                    self.states(q, xs)
                    self.timing(xs, (t0, t1))
                    self.st("single_runs")
            self.errstream(allx)
            if p["api"] == "several":
                pass
            elif p["api"] == "single":
                self.output(self.out, allx, p["verb"], False)
            elif len(p["perform"]) == 1:
                self.output(self.out, allx, p["perform"][0], True, name=(p["reports"][0] or ("",))[0])
            elif not any(p["perform"]) and self.out:
                self.bad("T03", "not-silent", "printed %r" % self.out[:300])

    # -- T02
    def order(self, xs, sel):
        n = len(self.cases)
        want = collections.Counter(range(n) if sel is None else sel)
        got = collections.Counter(x.id for x in xs)
        for cid in set(want) | set(got):
            if want[cid] != got[cid]:
                self.bad("T02", "count", "case %r was run %d times instead of %d" % (self.full(cid), got[cid], want[cid]))
                return
        seq = [self.cases[x.id]["comp"].encode() for x in xs]
        if seq != sorted(seq):
            self.bad("T02", "component-order", "components were run as %r" % seq)
        for comp in set(seq):
            ids = [x.id for x in xs if self.cases[x.id]["comp"].encode() == comp]
            named = [i for i in (sel or []) if self.cases[i]["comp"].encode() == comp]
            for tu in (1, 2):
                i2 = [i for i in ids if self.cases[i]["tu"] == tu]
                if i2 != sorted(i2) and ids != named:
                    self.bad("T02", "case-order", "cases of %r were run as %s" % (comp, ids))
        for x in xs:
            c = self.cases[x.id]
            self.st("executions")
            if x.muted:
                self.st("streams_left_redirected")
            ph = [k for k in x.phases]
            ok = ["B", "Be"] if not c["fixture"] else ["S", "Se", "B", "Be", "D", "De"]
            if x.sthrow:
                self.st("setups_throwing")
                okk = ph in (["S", "Se"], ["S", "Se", "D", "De"])
            else:
                okk = ph == ok
            if not okk:
                self.bad("T02", "phases", "case %r did %s" % (self.full(x.id), ph))
        if sel is not None:
            self.st("selections")
        if len(set(seq)) > 1:
            self.st("multi_component_runs")

    # -- T01
    def status(self, what, rc, xs):
        failed = [x for x in xs if not self.passed(x)]
        if (rc == 0) != (not failed):
            self.bad("T01", "exit-status", "%s %s with %d cases failed out of %d" % (what, rc, len(failed), len(xs)))
        self.st("cases_failed", len(failed))
        self.st("cases_passed", len(xs) - len(failed))
        self.st("runs_judged")
        if failed and len(failed) % 256 == 0:
            self.st("runs_failing_by_256")

    def states(self, qs, xs):
        last = {}
        for x in xs:
            last[x.id] = x
        for w in qs:
            cid = int(w[1])
            x = last.get(cid)
            if x is None:
                continue
            st, co, ce, desc, f, ln, el = int(w[2]), unhx(w[3]), unhx(w[4]), unhx(w[5]), unhx(w[6]), int(w[7]), int(w[8])
            x.elapsed = el
            self.st("states_read")
            if x.cap:
                # (the accessors are C strings)
                if co != x.out.split(b"\0")[0]:
                    self.bad("T03", "captured-out", "case %r wrote %r, captured %r" % (self.full(cid), x.out[:200], co[:200]))
                if ce != x.err.split(b"\0")[0]:
                    self.bad("T03", "captured-err", "case %r wrote %r on the error stream, captured %r" % (self.full(cid), x.err[:200], ce[:200]))
            elif co or ce:
                self.bad("T03", "captured-uncaptured", "case %r captured %r %r" % (self.full(cid), co[:200], ce[:200]))
            exc = [d for d, ff, ll in x.fails if ff is None]
            chk = [(d, ff, ll) for d, ff, ll in x.fails if ff is not None]
            if not x.fails:
                want = 4 if x.cap and x.err else 1
                if st != want:
                    self.bad("T01", "status", "case %r has status %d" % (self.full(cid), st))
                if desc or f or ln:
                    self.bad("T01", "failure-data", "case %r did not fail but has failure data %r %r %d" % (self.full(cid), desc[:200], f, ln))
            else:
                ok = False
                if st == 3:
                    ok = any(d is None or d == desc for d in exc)
                elif st == 2:
                    ok = any(d in desc and ff == f and ll == ln for d, ff, ll in chk)
                if not ok:
                    self.bad("T01", "failure-data", "case %r failed by %r but tells status %d, %r at %r:%d" % (self.full(cid), x.fails[:3], st, desc[:300], f, ln))

    # -- T03
    def streams(self, w):
        if w[0] != "1" or w[1] != "1":
            self.bad("T03", "not-undone", "the streams do not write where they did (out %s, err %s)" % (w[0], w[1]))
        if w[2] != "1" or w[3] != "1":
            self.bad("T03", "stream-state", "the streams are no longer good")
        if (w[4] != "1" or w[5] != "1") and self.plan["capture"] and all(self.plan.get("caps", [])):
            self.bad("T03", "stream-format", "the format of the streams was changed (err %s, out %s)" % (w[4], w[5]))

    def errstream(self, xs):
        want = b"".join(x.err for x in xs if not x.cap)
        if self.plan.get("lost"):
            # how it is told that the report can't be written is free
            self.st("reports_unwritable")
            if not self.err.startswith(want):
                self.bad("T03", "stderr", "on standard error %r instead of %r" % (self.err[:300], want[:300]))
        elif self.err != want:
            self.bad("T03", "stderr", "on standard error %r instead of %r" % (self.err[:300], want[:300]))

    def output(self, out, xs, verb, summary, name=None):
        p = self.plan
        if verb == 0:
            want = b"" if p["capture"] else b"".join(x.out for x in xs)
            if out != want:
                self.bad("T03", "not-silent", "printed %r instead of %r" % (out[:300], want[:300]))
            self.st("silent_runs")
            return
        pos = 0
        marks = [m.start() for m in TOK.finditer(out)]
        reg = p["reg"]

        def piece(rx, what, prop="T03"):
            """The next thing printed; nothing marked may be in between."""
            nonlocal pos
            m = rx.search(out, pos)
            if not m:
                self.bad(prop, "missing-" + what[0], "%s is missing at %r" % (what[1], out[pos:pos + 300]))
                return False
            lead = TOK.search(out, pos, m.start())
            if lead:
                self.bad("T03", "unexpected-text", "unexpected text before %s: %r" % (what[1], out[lead.start():lead.start() + 200]))
                return False
            pos = m.end()
            return True

        failed = [x for x in xs if not self.passed(x)]
        for n, x in enumerate(xs):
            full = self.full(x.id)
            ok = self.passed(x)
            short = re.escape(full[:45])
            nm = b"(?:" + re.escape(full) + b"|" + re.escape(full[:50]) + b")"
            if verb == 1:
                break
            if verb >= 3 and not piece(re.compile(nm), ("announce", "announcement of %r" % full)):
                return
            if not p["capture"] and x.out and not piece(re.compile(re.escape(x.out)), ("output", "output of %r" % full)):
                return
            if p["capture"]:
                if x.out and (verb >= 5 or not ok):
                    if not piece(re.compile(re.escape(full) + rb"[^@]*?" + re.escape(x.out)), ("stdout-dump", "output of %r" % full)):
                        return
                    self.st("dumps_checked")
                if x.err and (verb >= 4 or not ok):
                    if not piece(re.compile(re.escape(full) + rb"[^@]*?" + re.escape(x.err)), ("stderr-dump", "error output of %r" % full)):
                        return
                    self.st("dumps_checked")
            if ok:
                if not piece(re.compile(nm + rb"[^@\n]*\bOK\b"), ("result", "success of %r" % full), "T01"):
                    return
            elif not x.fails:
                if not piece(re.compile(nm + rb"[^@\n]*\bFAIL"), ("result", "failure of %r" % full), "T01"):
                    return
            else:
                alts = []
                gap = rb"(?:(?!====)[^@])*?"      # not up to what is told of another case
                for d, f, l in x.fails:
                    if f is not None:
                        alts.append(re.escape(full) + gap + re.escape(f) + rb"\D{1,8}%d\b" % l + gap + re.escape(d) + rb"(?: \(Actually [^@]*?(?:@[0-9a-f]{6}@.*?@[0-9a-f]{6}@)?\"\))?")
                    else:
                        alts.append(re.escape(full) + gap + (re.escape(d) if d is not None else b""))
                if not piece(re.compile(b"|".join(b"(?:" + a + b")" for a in alts), re.S), ("failure", "failure of %r" % full), "T01"):
                    return
        if verb == 1:
            # a summary at the end; of the cases that passed nothing is told
            for x in xs:
                if self.passed(x):
                    for m in TOK.findall(self.full(x.id))[1:2] + (TOK.findall(x.out) if p["capture"] else []):
                        if m in out:
                            self.bad("T03", "v1-passed-told", "something of the passed case %r was told: %r" % (self.full(x.id), out[:400]))
                            return
        rest = out[pos:]
        if not summary:
            if TOK.search(rest):
                self.bad("T03", "unexpected-text", "after the cases: %r" % rest[:300])
            return
        self.st("summaries")
        # summary: exactly the failed cases
        i = rest.rfind(b"Failed cases")
        if failed:
            if i < 0:
                self.bad("T01", "summary", "the failed cases are not summarised: %r" % rest[-300:])
                return
            tail = rest[i:]
            names = collections.Counter(self.full(x.id) for x in failed)
            if reg:
                line = tail.split(b"\n")[0].split(b":", 1)[1]
                got = collections.Counter(x.strip() for x in line.split(b",") if x.strip())
            else:
                got = collections.Counter()
                for full in set(self.full(c["id"]) for c in self.cases):
                    k = tail.count(full)
                    if k:
                        got[full] = k
            if got != names:
                self.bad("T01", "summary", "failed cases told %r instead of %r" % (dict(got), dict(names)))
        elif b"Failed cases" in TOK.sub(b"", rest) and not any(b"Failed cases" in (x.out + self.full(x.id)) for x in xs):
            self.bad("T01", "summary", "failed cases told with no failure: %r" % rest[-300:])
        # components
        comps = sorted(set(self.cases[x.id]["comp"].encode() for x in xs))
        if len(comps) > 1:
            for comp in comps:
                bad = any(self.cases[x.id]["comp"].encode() == comp for x in failed)
                m = re.search(rb"Component " + re.escape(comp) + rb" [^@\n]*?(Passed|FAILED)", rest)
                if not m:
                    self.bad("T01", "component", "component %r is not told: %r" % (comp, rest[-400:]))
                elif (m.group(1) == b"FAILED") != bad:
                    self.bad("T01", "component", "component %r told as %r" % (comp, m.group(1)))
                self.st("components_told")
        un = (p["uname"] if name is None else name).encode()
        m = re.search(rb"Unit Test " + re.escape(un) + rb" [^@\n]*?(Passed|FAILED)[^@]*$", rest)
        if not m:
            self.bad("T05" if re.search(rb"Unit Test ", rest) else "T01", "unit-name", "the result of unit test %r is not told: %r" % (un, rest[-300:]))
        elif (m.group(1) == b"FAILED") != bool(failed):
            self.bad("T01", "unit-result", "told %r with %d failed" % (m.group(1), len(failed)))

    # -- T04
    def reportOf(self, k, xs):
        """The report of the k-th run of a program that runs several."""
        names = self.plan["reports"][k]
        self.xml = None
        if names is None:
            if self.xmls.get(k) is not None:
                self.bad("T05", "report-unasked", "run %d wrote a report" % k)
            return
        self.xml = self.xmls.get(k)
        self.report(xs, *names)
        self.st("reports_of_later_runs", int(k > 0))

    def report(self, xs, uname=None, uid=None):
        p = self.plan
        uname, uid = p["uname"] if uname is None else uname, p["uid"] if uid is None else uid
        if self.xml is None:
            self.bad("T05", "no-report", "no report was written")
            self.bad("T04", "no-report", "no report was written")
            return
        self.st("reports")
        if p.get("locale"):
            self.st("reports_under_locale")
        try:
            root = ET.fromstring(self.xml)
        except ET.ParseError as e:
            self.bad("T04", "not-well-formed", "%s: %r" % (e, self.xml[:500]))
            return

        def same(xmltext, orig):
            rx = []
            for ch in orig.decode():
                o = ord(ch)
                if (o < 32 and ch not in "\t\n\r") or o in (0xfffe, 0xffff):
                    rx.append("(?s:.{0,8}?)")
                else:
                    rx.append(re.escape(ch))
            return re.fullmatch("".join(rx), xmltext or "") is not None

        if root.tag != "testsuites":
            self.bad("T04", "root", root.tag)
            return
        failed = [x for x in xs if not self.passed(x)]
        if not same(root.get("name"), uname.encode()):
            self.bad("T05", "report-name", "name %r instead of %r" % (root.get("name"), uname))
        if not same(root.get("id"), uid.encode()):
            self.bad("T05", "report-id", "id %r instead of %r" % (root.get("id"), uid))
        if root.get("tests") != str(len(xs)) or root.get("failures") != str(len(failed)):
            self.bad("T04", "counts", "tests=%s failures=%s instead of %d %d" % (root.get("tests"), root.get("failures"), len(xs), len(failed)))
        suites = list(root)
        order = []
        for x in xs:
            c = self.cases[x.id]["comp"].encode()
            if c not in order:
                order.append(c)
        if len(suites) != len(order):
            self.bad("T04", "components", "%d components instead of %d" % (len(suites), len(order)))
            return
        left = list(suites)
        for comp in order:
            su = next((s for s in left if same(s.get("name"), comp)), None)
            if su is None or su.tag != "testsuite":
                self.bad("T04", "components", "component %r is missing" % comp)
                return
            left.remove(su)
            cx = [x for x in xs if self.cases[x.id]["comp"].encode() == comp]
            nf = sum(1 for x in cx if not self.passed(x))
            if su.get("tests") != str(len(cx)) or su.get("failures") != str(nf):
                self.bad("T04", "counts", "component %r tests=%s failures=%s instead of %d %d" % (comp, su.get("tests"), su.get("failures"), len(cx), nf))
            tl = list(su)
            if len(tl) != len(cx):
                self.bad("T04", "cases", "component %r has %d cases instead of %d" % (comp, len(tl), len(cx)))
                return
            for x in cx:
                nm = self.cases[x.id]["name"].encode()
                tc = next((t for t in tl if same(t.get("name"), nm)), None)
                if tc is None or tc.tag != "testcase":
                    self.bad("T04", "cases", "case %r is missing in %r" % (nm, comp))
                    return
                tl.remove(tc)
                x.xml = tc
                fs = [f for f in tc if f.tag == "failure"]
                self.st("report_cases")
                if len(fs) != (0 if self.passed(x) else 1):
                    self.bad("T04", "failure-elements", "case %r has %d failure elements" % (nm, len(fs)))
                    continue
                if fs:
                    self.st("report_failures")
                    msg, txt = fs[0].get("message"), fs[0].text or ""
                    ok = not x.fails
                    for d, f, l in x.fails:
                        if f is None:
                            ok = ok or d is None or (same(msg, d) and self.infix(txt, d))
                        else:
                            ok = ok or (self.infix(msg, d) and self.infix(txt, d) and self.infix(txt, f) and str(l) in txt)
                    if not ok:
                        self.bad("T04", "failure-text", "case %r failed by %r but the report tells %r %r" % (nm, x.fails[:3], (msg or "")[:300], txt[:300]))
            x0 = su

    def infix(self, xmltext, orig):
        rx = []
        for ch in orig.decode():
            o = ord(ch)
            rx.append("(?s:.{0,8}?)" if (o < 32 and ch not in "\t\n\r") or o in (0xfffe, 0xffff) else re.escape(ch))
        return re.search("".join(rx), xmltext or "") is not None

    # -- T07
    def timing(self, xs, span=None):
        p = self.plan
        t0, t1 = span or (next(t for t, w in self.ev if w[0] == "M" and w[1] == "begin"),
                          next(t for t, w in self.ev if w[0] == "M" and w[1] == "end" or w[0] == "Q"))
        comp = {}
        last_of = {x.id: x for x in xs}
        for i, x in enumerate(xs):
            lo = (x.t["Be"] - x.t["B"]) / 1000.0 - 1 if "Be" in x.t and "B" in x.t else 0
            before = xs[i - 1].last if i else t0
            after = xs[i + 1].first if i + 1 < len(xs) else t1
            hi = (after - before) / 1000.0 + 1
            c = comp.setdefault(self.cases[x.id]["comp"], [0, None, None])
            c[0] += max(lo, 0)
            c[1] = before if c[1] is None else c[1]
            c[2] = after
            vals = []
            if last_of[x.id] is x:
                if hasattr(x, "elapsed"):
                    vals.append(("accessor", x.elapsed))
            if getattr(x, "xml", None) is not None and len([y for y in xs if y.id == x.id]) == 1:
                vals.append(("report", float(x.xml.get("time")) * 1000))
            for src, v in vals:
                self.st("times_checked")
                slack = v * 1e-5 + 1e-6
                if v < lo - slack or v > hi + slack:
                    self.bad("T07", "case-time", "%s: case %r took between %.3f and %.3f ms, told %.3f" % (src, self.full(x.id), lo, hi, v))
            for t, v in x.now:
                # read in the body
                l2 = (t - x.t["B"]) / 1000.0 - 1
                self.st("running_times_checked")
                if v < l2 - 1e-6 or v > (t - before) / 1000.0 + 1:
                    self.bad("T07", "running-time", "case %r was told %s ms after %.3f to %.3f" % (self.full(x.id), v, l2, (t - before) / 1000.0))
        if self.xml and (p["xml"] or span):
            try:
                root = ET.fromstring(self.xml)
                tot = float(root.get("time")) * 1000
                lo, hi = sum(c[0] for c in comp.values()), (t1 - t0) / 1000.0 + 1
                if tot < lo - tot * 1e-5 or tot > hi + tot * 1e-5:
                    self.bad("T07", "total-time", "told %.3f ms, was between %.3f and %.3f" % (tot, lo, hi))
                by = {s.get("name"): float(s.get("time")) * 1000 for s in root}
                for n, (lo, b, a) in comp.items():
                    if n in by:
                        self.st("component_times_checked")
                        v, hi = by[n], (a - b) / 1000.0 + 1
                        if v < lo - v * 1e-5 or v > hi + v * 1e-5:
                            self.bad("T07", "component-time", "component %r told %.3f ms, was between %.3f and %.3f" % (n, v, lo, hi))
            except (ET.ParseError, TypeError, ValueError) as e:
                self.bad("T07", "unreadable", str(e))
        if p["verb"] >= 1 and not span:
            m = re.search(rb"Unit Test " + re.escape(p["uname"].encode()) + rb" \(elapsed ([0-9.e+-]+)s\)[^@]*$", self.out)
            if m:
                tot = float(m.group(1)) * 1000
                lo, hi = sum(c[0] for c in comp.values()), (t1 - t0) / 1000.0 + 1
                self.st("printed_times_checked")
                if tot < lo - tot * 1e-3 or tot > hi + tot * 1e-3:
                    self.bad("T07", "total-time", "printed %.3f ms, was between %.3f and %.3f" % (tot, lo, hi))
            if p["verb"] >= 2:
                pos = 0
                for x in xs:
                    if self.passed(x):
                        m = re.compile(re.escape(self.full(x.id)[:50]) + rb"\s+([0-9.]+)s\s+OK").search(self.out, pos)
                        if m:
                            pos = m.end()
                            v = float(m.group(1)) * 1000
                            lo = (x.t["Be"] - x.t["B"]) / 1000.0 - 1
                            self.st("printed_times_checked")
                            if v < lo - 1e-6 or v > (t1 - t0) / 1000.0 + 1:
                                self.bad("T07", "case-time", "printed %.3f ms for %r, at least %.3f" % (v, self.full(x.id), lo))


# ------------------------------------------------------------------------------------------------- running
def one(exes, flavor, focus, seed, workdir, replay=False):
    plan = Gen(seed, focus).program()
    d = os.path.join(workdir, "p%s-%d" % (flavor, seed))
    os.makedirs(d)
    with open(os.path.join(d, "script"), "w") as f:
        f.write(plan["script"])
    if plan["xml"] and seed % 2:
        with open(os.path.join(d, plan["xml"]), "w") as f:
            f.write("<old>" * 20000)
    exe = exes[("reg" if plan["reg"] else "fut", flavor)]
    env = dict(R.SAN_ENV, VF_SCRIPT=os.path.join(d, "script"), VF_EVENTS=os.path.join(d, "events"), LANG="C.UTF-8", PATH=os.environ.get("PATH", ""))
    res = {"plan": plan, "stats": {}, "viols": [], "san": {}}
    for attempt in (1, 2):
        with open(os.path.join(d, "out"), "w+b") as fo, open(os.path.join(d, "err"), "w+b") as fe:
            p = subprocess.Popen(plan["argv"], executable=exe, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, cwd=d, env=env, start_new_session=True)
            try:
                rc = p.wait(timeout=120)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
            fo.seek(0)
            fe.seek(0)
            out, err = fo.read(), fe.read()
        if rc is not None or attempt == 2:
            break
        os.unlink(os.path.join(d, "events"))
    ev = read_events(os.path.join(d, "events"))
    xml = None
    if plan["xml"] and os.path.exists(os.path.join(d, plan["xml"])):
        xml = open(os.path.join(d, plan["xml"]), "rb").read()
        if xml.startswith(b"<old>"):
            xml = None
    xmls = {}
    for k in range(len(plan["reports"])):
        if os.path.exists(os.path.join(d, "run%d.xml" % k)):
            xmls[k] = open(os.path.join(d, "run%d.xml" % k), "rb").read()
    if rc is None:
        res["viols"].append(("*", "hang", "the test program does not end"))
    elif rc in (-9, 98, 99):
        raise R.Inconclusive("test program ended by %s" % rc)
    else:
        san = R.sanitizer_keys(err.decode("utf-8", "replace"))
        if san:
            res["san"] = san
        else:
            j = Judge(plan, ev, out, err, rc, xml, res["stats"], xmls)
            j.judge()
            res["viols"] = j.viols
            if focus == "T05" and plan["argv"][1:]:
                # what the options ask for: selection, verbosity and capture
                res["viols"] += [("T05", "T05:effect:" + k, dd) for pr, k, dd in j.viols
                                 if (pr == "T02" and plan["sel"]) or pr == "T03"]
    res["events"] = len(ev)
    res["nexec"] = len(plan["cases"])
    shutil.rmtree(d, ignore_errors=True)
    return res


def programs():
    return {("fut", fl): R.Program("h_fut.cpp", fl, "fut") for fl in FLAV} | \
           {("reg", fl): R.Program("h_futreg.cpp", fl, "fut_main", extra=["h_futreg2.cpp"]) for fl in FLAV}


def check(prop, quick, thorough):
    def go():
        progs = programs()
        built = R.build_all(list(progs.values()))
        exes = {k: built[p.key()] for k, p in progs.items()}
        n = quick if R.TIER == "quick" else thorough
        work = os.path.join(R.BUILD, "fut-%d" % os.getpid())
        os.makedirs(work, exist_ok=True)
        total = R.Result()
        st = total.stats
        distinct = set()
        base = R.SEED * 10000000 + int(prop[1:]) * 1000003
        try:
            with cf.ThreadPoolExecutor(R.JOBS) as pool:
                futs = []
                for i in range(n):
                    fl = FLAV[i % 2]
                    futs.append((fl, base + i, pool.submit(one, exes, fl, prop, base + i, work)))
                for fl, seed, f in futs:
                    r = f.result()
                    plan = r["plan"]
                    st["evaluations"] = st.get("evaluations", 0) + 1
                    st["events"] = st.get("events", 0) + r["events"]
                    total.runs += 1
                    for k, v in r["stats"].items():
                        st[k] = st.get(k, 0) + v
                    distinct.add(hash((plan["script"], tuple(plan["argv"]))))
                    rep = {"argv": plan["argv"], "script": plan["script"], "flavor": fl, "seed": seed}
                    for pr, k, dd in r["viols"]:
                        if pr in ("*", prop):
                            total.viols.setdefault(k, (dd + " argv=%r" % (plan["argv"],), rep))
                    for k, dd in r["san"].items():
                        total.viols.setdefault(k, (dd, rep))
                    if len(total.samples) < 6 and len(plan["cases"]) > 1:
                        total.samples.append("%s %s: %d cases, %s" % (plan["api"], " ".join(plan["argv"][1:])[:120], len(plan["cases"]),
                                             "refused" if plan["bad"] else "%d events" % r["events"]))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        st["distinct_nontrivial"] = len(distinct)
        st["process_runs"] = total.runs
        return total
    return go
