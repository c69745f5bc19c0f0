"""Sessions for C22 (robustness), C23 (size), C24 (memory) and C25 (interrupts)."""
import itertools, os, random, re, time
import lb, gen, gen2, mix
from lb import session, lines
from common import *
from gen import Prop, prop, prog_file, number, standard
from gen2 import programs, one_way, plain

# ------------------------------------------------------------------ C22: robustness
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
SAN_ENV = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98"}


def alive(check, rep, real, s, typed):
    """Nothing more than that the interpreter ends normally."""
    if real["late"]:
        return "does not end"
    if real["exit"] != 0 and (s["what"] == "monitor" or real["exit"] != 1):
        return "exit status %s: %s" % (real["exit"], real["err"][:400])
    return None


def robust(check, rep, real, s, typed):
    if real["exit"] in (98, 99) or real["exit"] < 0:
        return "exit status %s: %s" % (real["exit"], real["err"][:400])
    return lb.compare(rep, real, False)


class Robust(Prop):
    flags = SAN
    env = SAN_ENV
    note = ("The interpreter is built with the address and undefined-behaviour sanitizers, whose reports make it end with a status "
            "that is not the specification's. Input outside the specification (NUL characters, unpredicted RND values) "
            "is only required to leave the interpreter alive.")

    def jobs(self, check, rep):
        if rep["mode"] != "done":
            return []
        return [(rep["session"], rep["typed"], rep["marks"], rep, robust)]

    def lost(self, check, rep):
        """A behaviour that leaves what is specified: the interpreter has to survive it."""
        s = rep["session"]
        todo = [x for a in s["script"][len(rep["path"]):] for x in a[0]]
        return [(s, list(rep["typed"]) + todo, [], None, alive)]

    def raw(self, check):
        """Sessions the specification does not predict."""
        return [(s, t, alive) for s, t in raw_sessions(check.rng, 400 if check.tier == "quick" else 4000)]


def soup(rng, k):
    """Random tokens."""
    ts = [rng.choice(POOL + NVARS + SVARS + ["(", ")", ",", "=", "1", "2"]) for _ in range(k)]
    return "".join(t + rng.choice(["", " ", " "]) for t in ts)


def no_rand(t):
    """Not the statements whose effect is not specified."""
    u = t.upper()
    return "TIME" not in u and "*" != t.lstrip()[:1]


def c22_soup(rng, n):
    res = []
    for _ in range(n):
        ls = []
        for i in range(rng.randint(1, 6)):
            t = soup(rng, rng.choice([1, 2, 3, 4, 5, 8, 15]))
            if no_rand(t) and len(t) < 110:
                ls.append(t)
        ls = ls or ["PRINT"]
        if rng.random() < .4:
            p = ["%d %s" % (10 * i + 10, t) for i, t in enumerate(ls)]
            res += prog_file("soup", p, modes=(rng.choice(["run", "run", "parse", "names", "list"]),), any=rng.random() < .3, script=lines("1", "x"), fuel=150)
        else:
            res.append(session("soup-typed", [["%d %s" % (10 * i + 10, t) for t in [t]] if rng.random() < .3 else [t if not t[:1].isdigit() else ":" + t] for i, t in enumerate(ls)] + [["RUN"], ["LIST"], ["PRINT 1"], ["RENUM"], ["RUN"]], any=rng.random() < .2, fuel=200))
    return res


def c22_mutants(rng, n):
    res = []
    for _ in range(n):
        st = []
        for _ in range(rng.randint(1, 5)):
            t = rng.choice(STATEMENTS)
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = mutate(rng, t)
            if no_rand(t) and len(t) < 115:
                st.append(t)
        if not st:
            continue
        p = ["5 A=2:B$=\"ab\":DIM Q(3)"] + ["%d %s" % (10 * i + 10, t) for i, t in enumerate(st)]
        if rng.random() < .5:
            res += prog_file("mutants", p, script=lines("1", "x", "2"), any=rng.random() < .2, fuel=200)
        else:
            res.append(session("mutants-typed", [[x] for x in p] + [["RUN"], ["1"], ["x"]] + [[t if not t.lstrip()[:1].isdigit() else ":" + t] for t in st] + [["1"], ["LIST"], ["RENUM 7,0,3"], ["LIST"], ["CONT"], ["RUN"], ["BYE"]], fuel=400))
    return res


ODD = [1, 7, 8, 9, 11, 12, 27, 31, 127, 128, 159, 160, 200, 228, 254, 255]


def c22_bytes(rng, n):
    """Lines of any bytes."""
    res = []
    for _ in range(n):
        def junk(k):
            a = rng.choice([list(range(32, 127)), list(range(33, 256)), ODD + [34, 58, 32, 65], [34, 39, 40, 41, 44, 46, 48, 57, 69, 101, 45, 36, 58, 65]])
            return "".join(chr(rng.choice(a)) for _ in range(k))
        ls = [junk(rng.choice([0, 1, 2, 3, 5, 9, 20, 60, 120, 126, 127, 140, 260, 300])) for _ in range(rng.randint(1, 7))]
        ls = [l for l in ls if no_rand(l)] or ["x"]
        heads = ["10 ", "20 PRINT \"", "30 REM ", "40 DATA ", "A$=\"", "PRINT ", "", "", "LIST ", "LOAD \"", "RENUM ", "INPUT A$:A=", "50"]
        sc = []
        for l in ls:
            h = rng.choice(heads)
            if h.startswith(("LOAD", "RENUM")):
                l = l.replace("/", "-").replace("\"", "")
                if h.startswith("RENUM") and (re.search(r"\d{6}", l) or re.search(r"[ \t].*,", l)):
                    h = "LIST "
            if re.match(r"\s*\d{9,}", h + l):
                h = "x"
            sc.append([h + l])
        res.append(session("bytes", sc + [["LIST"], ["RUN"], ["RENUM"], ["PRINT 5"]], fuel=200, any=rng.random() < .2))
    return res


def c22_programs(rng, n):
    """Programs made for other properties, whole and damaged."""
    res = []
    for p, script, fuel in programs(rng, n):
        script = one_way(rng, script)
        for _ in range(2):
            q = list(p)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                i = rng.randrange(len(q))
                k = rng.random()
                if k < .3 and len(q) > 1:
                    del q[i]
                elif k < .5 and " " in q[i]:
                    a, b = q[i].split(" ", 1)
                    q[i] = a + " " + mutate(rng, b)
                elif k < .7:
                    q[i] = q[i][:rng.randint(1, len(q[i]))]
                    if not q[i].split(" ")[0].isdigit():
                        q[i] = p[i] if i < len(p) else "9999 X"
                elif k < .8 and " " in q[i]:
                    q[i] = q[i].split(" ")[0] + " " + q[rng.randrange(len(q))].split(" ", 1)[-1]
                else:
                    j = rng.randrange(len(q))
                    a, b = q[i].split(" ", 1)[0], q[j].split(" ", 1)[-1]
                    q[i] = a + " " + (q[i].split(" ", 1) + [""])[1] + ":" + b
            q = [l for l in q if len(l) < 250 and no_rand(l.split(" ", 1)[-1])]
            res += prog_file("damaged", q, script=script + lines("x", "1,2", ""), fuel=min(fuel, 300))
    return res


XNUM = ["0", "-1", "1", "1.5", "255", "256", "32767", "32768", "65535", "65536", "70000", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "1E10", "-1E10", "9E15", "1E18", "1E19", "1E20", "-1E20", "1E300", "1E-300", "1/0", "-1/0", "0/0", "1E308*10", "-0", "0.5", "-0.5", "4294967295.5", "4294967294", "2147483646.5"]
XFORMS = ["PRINT CHR$({0})", "PRINT LEFT$(\"abc\",{0})", "PRINT RIGHT$(\"abc\",{0})", "PRINT MID$(\"abc\",{0},1)", "PRINT MID$(\"abc\",1,{0})", "PRINT MID$(\"abc\",{0},{1})", "DIM D({0})", "DIM D({0},{1})", "DIM D(3):D({0})=1:PRINT D({0})", "D({0})=1", "PRINT D({0},{1})", "D$({0})=\"x\":PRINT D$({0})", "DIM D$({0}):PRINT D$(0)", "ON {0} GOTO 90,91", "ON {0} GOSUB 90,91",
          "PRINT INT({0});ABS({0});SGN({0})", "PRINT {0} AND {1}", "PRINT {0} OR {1}", "PRINT NOT {0}", "PRINT SQR({0})", "PRINT LOG({0})", "PRINT EXP({0})", "PRINT {0}^{1}", "PRINT {0}+{1};{0}-{1};{0}*{1}", "PRINT STR$({0})", "PRINT VAL(\"{2}\")", "FOR I={0} TO {1}:PRINT I:GOTO 90:NEXT", "FOR I=1 TO 2 STEP {0}:PRINT I:GOTO 90:NEXT", "RANDOMIZE {0}:PRINT 1", "IF {0} THEN PRINT 1 ELSE PRINT 2",
          "GOTO {2}", "RESTORE {2}", "PRINT {0};-({1})", "A={0}:PRINT A:A$=STR$(A)", "READ D({0})", "INPUT D({0})", "PRINT SPC({0})", "PRINT TAB({0})", "PRINT FNA({0})", "PRINT ASC(CHR$({0}))", "PRINT LEN(LEFT$(A$,{0}))", "LIST {2}", "RENUM {2}"]


def c22_extremes(rng, n):
    res = []
    for f in XFORMS:
        for x in XNUM:
            if ("SPC" in f or "TAB" in f) and re.match(r"[\d.]", x) and not (x in ("0", "1", "1.5", "255", "256", "0.5") or "/" in x or "E" in x and len(x) > 4):
                continue
            if ("{2}" in f) and not x.isdigit():
                continue
            y = rng.choice(XNUM)
            t = f.format(x, y, x)
            if t.startswith(("LIST", "RENUM")):
                if len(x) < 9:
                    res.append(session("extremes", [["10 PRINT 1"], [t], ["LIST"]]))
                continue
            p = ["5 DATA 1,2,3:A$=\"abcdef\":DEF FNA(X)=X*X", "10 " + t, "20 PRINT \"on\"", "30 END", "90 PRINT 90:END", "91 PRINT 91:RETURN"]
            if rng.random() < .5:
                res += prog_file("extremes", p, script=lines("4"), fuel=120)
            else:
                res.append(session("extremes", [[l] for l in p if l[:2] != "10"] + [["RUN"], [t], ["4"], ["PRINT \"on\""], ["10 " + t], ["RUN"], ["4"], ["PRINT D(1)"]], fuel=300))
    return res


def c22_inputs(rng, n):
    """Input lines of all lengths and kinds, after every INPUT."""
    res = []
    ks = [0, 1, 2, 78, 79, 80, 81, 82, 126, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 300, 511, 512, 600, 1100]
    for st in ("INPUT A$", "LINE INPUT A$", "INPUT A", "INPUT A$,B$,A", "INPUT D$(1)", "LINE INPUT \"p\";D$(2)", "INPUT A,D(A)"):
        for k in ks:
            for ch in ("x", "9", ",", "\"", " ", "\xff", "1,"):
                if rng.random() < n / 1000.0:
                    t = (ch * k)[:k]
                    sc = [[t], [rng.choice(["5", "a,b,3", t, "\"q\",r,4", "2,3"])], ["7"], ["x,y,1"]]
                    if rng.random() < .5:
                        res += prog_file("inputs", ["10 " + st, "20 PRINT A;A$;\"|\";LEN(A$);B$;D$(1);D$(2)", "30 B$=A$+A$:PRINT LEN(B$):B$=A$+\"x\"+B$:PRINT LEN(B$)", "40 K=K+1:IF K<2 THEN 10"], script=sc, fuel=200)
                    else:
                        res.append(session("inputs", [[st]] + sc + [["PRINT A;LEN(A$)"], ["BYE"]], fuel=200))
    return res


def c22_capacity(rng, n):
    """As much as fits, and one more."""
    res = []

    def both(p, typed=True, **kw):
        r = prog_file("capacity", p, fuel=900, **kw)
        if typed and all(len(l) < 126 for l in p):
            r.append(session("capacity", [[l] for l in p] + [["RUN"], ["PRINT \"alive\""], ["RUN"], ["LIST"]], fuel=1800))
            r.append(session("capacity", [[l.split(" ", 1)[1]] for l in p if " " in l] + [["PRINT \"alive\""]], fuel=900))
        return r
    for k in (1, 7, 8, 9, 15, 16, 17, 30, 40):
        res += both(["10 PRINT " + "(1+" * k + "2" + ")" * k, "20 PRINT 3"])
        res += both(["10 PRINT " + "1+(" * k + "2" + ")" * k])
        res += both(["10 PRINT " + "-" * k + "5;" + "NOT " * min(k, 25) + "0"])
        res += both(["10 PRINT LEN(" + "\"a\"+(" * min(k, 20) + "\"b\"" + ")" * min(k, 20) + ")"])
        res += both(["10 A=" + "ABS(" * min(k, 22) + "-1" + ")" * min(k, 22), "20 PRINT A"])
        res += both(["10 X=X+1:IF X<%d THEN GOSUB 10" % k, "20 PRINT X;:RETURN"])
        res += both(["%d FOR A%d=1 TO 1" % (i + 1, i) for i in range(k)] + ["90 PRINT \"in\""] + ["%d NEXT" % (100 + i) for i in range(k)])
        res += both(["10 IF 1 THEN " * 1 + "IF 1 THEN " * min(k, 10) + "PRINT \"deep\""])
        res += both(["10 " + "IF 1 THEN " * min(k, 9) + "PRINT 1" + " ELSE PRINT 2" * min(k, 5)], typed=False)
        res += both(["%d DEF F%d(X)=%s" % (i + 1, i, "F%d(X)+1" % (i - 1) if i else "X") for i in range(k)] + ["99 PRINT F%d(1)" % (k - 1)])
        res += both(["10 D(" + "D(" * min(k, 30) + "1" + ")" * min(k, 30) + ")=5:PRINT D(0)"])
        res += both(["10 ON 2 GOTO " + ",".join(["20"] * k), "20 PRINT \"t\""])
        res += both(["10 DIM " + ",".join("A%d(2)" % i for i in range(min(k, 17)))])
        res += both(["10 PRINT A(" + ",".join(["1"] * k) + ")"])
        res += both(["10 DIM A(" + ",".join(["1"] * k) + ")"])
        res += both(["10 READ " + ",".join(["A"] * k) + ":PRINT A", "20 DATA " + ",".join(str(i) for i in range(min(k, 20)))])
        res += both(["10 " + ":" * k + "PRINT 1" + ":" * k])
        res += both(["10 PRINT" + " ;" * k + " 1" + "," * k])
    for k in (1, 2, 20, 30, 31, 32, 33, 63, 64, 65, 78, 79, 80, 81, 82, 100, 117):
        for w in ("A" * k, "A" * k + "$", "1" * k, "." + "1" * k, "1" * k + "E5", "0" * k, "1E" + "0" * k, "1." + "0" * k, "PRINT" + "X" * k):
            v = '"s"' if w.endswith("$") else "2"
            res += both(["10 PRINT %s" % w], modes=("run", "names"), any=rng.random() < .3)
            if w[0].isalpha() and k < 55:
                res += both(["10 %s=%s" % (w, v), "20 PRINT %s" % w], any=rng.random() < .3)
        res += both(["10 A$=\"%s\":PRINT A$;LEN(A$)" % ("s" * k), "20 DATA \"%s\",%s" % ("d" * min(50, k), "e" * min(50, k)), "30 READ A$,B$:PRINT A$;B$"])
        res += both(["10 DATA %s" % ("e" * k), "30 READ A$:PRINT A$;LEN(A$)"])
        res += both(["10 PRINT \"%s" % ("o" * k)])
    for k in (63, 64, 79, 80, 120, 127, 128, 200, 230, 236, 239, 240, 241, 243, 245):
        res += prog_file("capacity", ["10 A$=\"%s\"" % ("s" * k), "20 PRINT LEN(A$):B$=A$+\"x\":PRINT LEN(B$):B$=B$+B$:PRINT LEN(B$)", "30 B$=A$+\"yy\"+A$:PRINT LEN(B$)"], fuel=200)
        res += prog_file("capacity", ["10 DATA %s" % ("s" * k), "20 READ A$:PRINT LEN(A$):B$=A$+\"0123456789\"+LEFT$(A$,5):PRINT LEN(B$)"], fuel=200)
        res += prog_file("capacity", ["10 INPUT \"%s\";A$" % ("s" * (k - 6)), "20 PRINT A$"], script=lines("q"), fuel=200)
        res += prog_file("capacity", ["10 REM %s" % ("s" * k)], modes=("run", "list", "names"))
        res += prog_file("capacity", ["10 %s=5" % ("s" * k), "20 PRINT %s" % ("s" * k)], modes=("run", "names"))
        res += prog_file("capacity", ["10 PRINT %s" % ("7" * k)], modes=("run", "names"))
    for k in (30, 31, 32, 60, 63, 64, 84, 85, 86, 126, 127, 128, 200, 253, 254, 255, 256, 257):
        res += prog_file("capacity", ["10 FOR I=1 TO %d:A$=A$+CHR$(65+I-26*INT(I/26)):NEXT:PRINT LEN(A$)" % k, "20 B$=A$+\"b\":PRINT LEN(B$)", "30 PRINT LEN(A$+A$)", "40 PRINT RIGHT$(A$,3);LEFT$(A$,300)=A$;MID$(A$,%d,9)" % k], fuel=4000)
    return res


def c22_edits(rng, n):
    """Lines put in and taken out when the program just fills the room it has."""
    res = []
    for k in (1, 2, 126, 127, 128, 129, 255, 256, 257, 512):
        t = "".join("%d REM %d\n" % (10 * i + 10, i) for i in range(k))
        for at in (1, 15, 10 * k - 5, 10 * k + 5):
            res.append(session("edits", [["LOAD \"p\""], ["%d PRINT %d" % (at, at)], ["LIST -30"], ["%d PRINT 7" % (at + 1)], ["RUN"], ["%d" % at], ["10", "%d" % (10 * k)], ["%d PRINT 8" % (at + 2)], ["RUN"], ["LIST %d-" % (10 * k - 10)]], files={"p": t}, fuel=3 * k + 300))
        if k < 300:
            order = list(range(k))
            rng.shuffle(order)
            res.append(session("edits", [["%d REM %d" % (i + 1, i) for i in [j]] for j in order] + [["RUN"], ["5 PRINT 5"], ["LIST -9"], ["NEW"], ["10 PRINT 1"], ["LIST"]], fuel=3 * k + 300))
    return res


def c22_errors(rng, n):
    return gen2.c17_errors(rng, n) + gen2.c17_mixed(rng, n) + gen2.c17_commands(rng, n) + gen2.c16_cont(rng, n) + gen2.c15_forms(rng, n // 2) + gen2.c14_files(rng, n) + gen2.c20_literals(rng, 1)


def raw_sessions(rng, n):
    """(session, typed) the specification does not predict."""
    res = []
    words = ["PRINT", "INPUT A$", "10 PRINT \"x\"", "20 INPUT A", "RUN", "LIST", "RND", "A$=\"", "\0", "\0\0", "x\0y", "\n", "\r", "10 \0", "RENUM 4000000000", "RENUM 1,2,3,4", "LIST 4294967295-", "RANDOMIZE", "PRINT TIME$", "PRINT INKEY$", "LOAD \".\"", "SAVE \".\"", "LOAD \"p.bas\"", "CONT", "PRINT RND", "10 A$=INKEY$:PRINT TIME$", "*", "*true", "*nosuch", "HELP", "PRINT TAB(20000);1", "PRINT SPC(12345);1",
             "RENUM 10, 5 , 1", "RENUM ,,,", "LINE INPUT A$", "4294967295 PRINT", "300000000 PRINT", "2147483648 X", "10", "IF RND<.5 THEN PRINT 1 ELSE PRINT 2", "FOR I=1 TO RND*5:PRINT I:NEXT", "DIM A(RND*9)", "STOP", "GOTO 10", "PRINT 0/0,1", "PRINT 1,2,TAB(9);0/0", "ON RND*3 GOTO 10,20", "PRINT CHR$(0);\"x\"", "A$=CHR$(0)+\"y\":PRINT LEN(A$)", "BYE\0"]
    for _ in range(n):
        t = ""
        for _ in range(rng.randint(1, 12)):
            w = rng.choice(words)
            if rng.random() < .3:
                i = rng.randint(0, len(w))
                w = w[:i] + rng.choice(["\0", "\xff", "\x80", "\"", "(", "9" * 12, " ", "\x1a", "\x04"]) + w[i:]
            t += w + rng.choice(["\n"] * 9 + ["", "\r\n", "\0\n"])
        f = {"p.bas": "".join(rng.choice(["10 PRINT 1\n", "20 PRINT \0 2\n", "\0\n", "30 \"\0\n", "40 DATA \0,\xff\n", "50\n", "60 X\xe9=1\n"]) for _ in range(rng.randint(0, 4)))}
        s = session("raw", what=rng.choice(["monitor"] * 4 + ["run", "list", "names", "parse", "code"]), file="p.bas", files=f, any=rng.random() < .3, trace=rng.random() < .2, opts=rng.choice([[], [], ["-m"], ["-g"]]))
        res.append((s, [t]))
    return res


# ------------------------------------------------------------------ C23: size
JUMP = re.compile(r'("[^"]*"?)|\b(GOTO|GOSUB|THEN|ELSE|RESTORE)\b([ \t]*)(\d+(?:[ \t]*,[ \t]*\d+)*)', re.I)


def renumbered(p, f):
    """The program with other line numbers."""
    def sub(m):
        if m.group(1):
            return m.group(1)
        return m.group(2) + m.group(3) + re.sub(r"\d+", lambda d: str(f(int(d.group()))), m.group(4))
    res = []
    for l in p:
        n, t = re.match(r"(\d+)(.*)$", l, re.S).groups()
        o = ""
        for part in re.findall(r'(?:"[^"]*"?|[^":])+:?|:', t):    # statement by statement
            if re.match(r"\s*REM", part, re.I):
                o += t[len(o) if len(o) == len(t) else t.index(part):]
                break
            o += part if re.match(r"\s*DATA", part, re.I) else JUMP.sub(sub, part)
        res.append("%d%s" % (f(int(n)), o))
    return res


def mentioned(p):
    ns = set()
    for l in p:
        ns |= {int(x) for x in re.findall(r"\d+", l) if int(x) < 65536}
    return sorted(ns)


def sized(p):
    """What a behaviour shows, without the line numbers in messages."""
    out, errs = plain(p)
    return out, [re.sub(r"\d+", "#", e) for e in errs]


def numbering(rng, ns, how):
    """An increasing map of the numbers, all different."""
    step, start = {"one": (1, 1), "c397": (397, 397), "c293": (293, 293), "c256": (256, 256), "c79": (79, 79), "high": (1, 65535 - len(ns) + 1), "c1021": (1021, 1), "c64": (64, 64)}.get(how, (0, 0))
    if how == "any" or start + step * len(ns) > 65535 and how != "high":
        v = sorted(rng.sample(range(1, 65536), len(ns)))
    else:
        v = [start + step * i for i in range(len(ns))]
    return dict(zip(ns, v))


HOWS = ["one", "c397", "c293", "c256", "c79", "high", "any", "c64", "c1021"]
FAMS23 = [gen.c02_ifs, gen.c02_jumps, gen.c03_ranges, gen.c03_scramble, gen.c03_nest, gen.c04_scramble, gen.c04_tree, gen.c05_lifetimes, gen.c06_random, gen.c07_random, gen.c12_random, mix.family, mix.family]


def c23_numbers(rng, n):
    """The same programs with other line numbers."""
    res = []
    for g, (p, script, fuel) in enumerate(programs(rng, n, FAMS23)):
        if any("CLS" in l for l in p) or any(re.search(r"RESTORE *\d", l) and False for l in p):
            continue
        script = one_way(rng, script)
        grp = dict(group="numbers%d" % g, view=sized, fuel=fuel)
        ns = mentioned(p)
        if 0 in ns:
            ns.remove(0)
        res += prog_file("numbers", p, script=script, **grp)
        for how in rng.sample(HOWS, 3):
            f = numbering(rng, ns, how)
            q = renumbered(p, lambda x: f.get(x, x))
            if all(len(l) < 254 for l in q):
                res += prog_file("numbers", q, script=script, **grp)
    return res


def padding(rng, k):
    """k statements that are never reached, with names of their own."""
    return [rng.choice(["Q%d=W%d+E%dX" % (i, i, i), "PRINT J%d$;K%d" % (i, i), "DIM U%d(%d)" % (i, i), "DEF V%d(X)=X+%d" % (i, i), "FOR T%d=1 TO 3:NEXT T%d" % (i, i), "GOSUB 1", "REM pad %d" % i, "INPUT QX%d" % i, "IF B%d THEN PRINT \"pad\" ELSE Y%d=1" % (i, i), "A%d$=\"text %d\"" % (i, i)]) for i in range(k)]


def c23_padded(rng, n):
    """The same programs among lines and names that are never reached."""
    res = []
    for g, (p, script, fuel) in enumerate(programs(rng, n, FAMS23)):
        script = one_way(rng, script)
        grp = dict(group="padded%d" % g, view=sized, fuel=fuel + 50)
        ns = mentioned(p)
        if 0 in ns:
            ns.remove(0)
        k = rng.choice([3, 30, 60, 130, 140, 270])
        gap = max(1, min(40, 60000 // max(1, len(ns) + k) // 4))
        f = {x: 100 + gap * (i + 1) for i, x in enumerate(ns)}
        q = renumbered(p, lambda x: f.get(x, x))
        where = sorted(f.values())
        end = max(where) + 1
        pads = padding(rng, k)
        rems = []
        # remarks anywhere; a block jumped over at the start; the rest after the end
        a = rng.randint(0, min(80, k))
        blk = ["1 GOTO 99"] + ["%d %s" % (2 + i, t) for i, t in enumerate(pads[:a])] + ["99 REM"] if a else []
        tail = ["%d END" % end] + ["%d %s" % (end + 1 + i, t) for i, t in enumerate(pads[a:])]
        if gap > 2:
            rems = ["%d REM %s" % (x - 1, rng.choice(["", "GOTO 1", "Z%d" % x])) for x in rng.sample(where, min(len(where), 30))]
        q2 = sorted(blk + q + rems + tail, key=lambda l: int(re.match(r"\d+", l).group()))
        if len({int(re.match(r"\d+", l).group()) for l in q2}) < len(q2) or any(len(l) > 250 for l in q2):
            continue
        res += prog_file("padded", p, script=script, **grp)
        res += prog_file("padded", q2, script=script, **grp)
    return res


def c23_many(rng, n):
    """Many lines, names, DATA items, functions, arrays, subroutines."""
    res = []
    ks = (60, 126, 127, 128, 129, 255, 256, 257, 300, 397, 400, 513, 700)
    for k in ks if n > 1 else (60, 127, 129, 130, 257, 400):
        st = rng.choice([1, 1, 2, 7, 79])
        if st * k > 60000:
            st = 1
        res += prog_file("many-lines", ["%d N=N+%d" % (st * i + 1, i) for i in range(k)] + ["%d PRINT N" % (st * k + 1)], fuel=9000)
        order = list(range(1, k + 1))
        rng.shuffle(order)
        if k <= 400:
            nxt = {a: b for a, b in zip(order, order[1:] + [0])}
            res += prog_file("many-jumps", ["%d GOTO %d" % (1, 10 * order[0] + 5)] + ["%d S=S*3+%d:S=S-9973*INT(S/9973):GOTO %d" % (10 * i + 5, i, 10 * nxt[i] + 5 if nxt[i] else 65000) for i in range(1, k + 1)] + ["65000 PRINT S"], fuel=12000)
            nm = rng.choice(["A%d", "%dB", "NAME%d", "X%dY"]).replace("%dB", "B%d")
            res += prog_file("many-names", ["%d %s=%d" % (i + 1, nm % i, i) for i in range(k)] + ["%d %s$=\"s%d\"" % (5000 + i, nm % i, i) for i in range(0, k, 7)] + ["%d IF %s<>%d THEN PRINT \"bad %d\"" % (10000 + i, nm % i, i, i) for i in rng.sample(range(k), min(k, 90))] + ["%d PRINT %s$" % (20000 + i, nm % i) for i in range(0, k, 7)], fuel=9000)
            res += prog_file("many-names", ["%d PRINT %s" % (i + 1, ";".join(nm % j for j in range(i, min(k, i + 9)))) for i in range(0, k, 9)], modes=("names",))
        d = []
        for i in range(0, k, 10):
            d.append("%d DATA %s" % (100 + i, ",".join(str((7 * j) % 1000) for j in range(i, min(k, i + 10)))))
        res += prog_file("many-data", ["10 FOR I=1 TO %d:READ A:S=S+A*I:NEXT:PRINT S" % k, "20 RESTORE %d:READ A,B:PRINT A;B" % (100 + 10 * (k // 20)), "30 RESTORE:READ A,B:PRINT A;B"] + d, fuel=30 * k + 100)
        if k <= 300:
            res += prog_file("many-subs", ["%d GOSUB %d" % (i + 1, 20000 + 10 * rng.randint(0, k - 1)) for i in range(k)] + ["10000 PRINT S", "10010 END"] + ["%d S=S*2+%d:S=S-997*INT(S/997):RETURN" % (20000 + 10 * i, i) for i in range(k)], fuel=30 * k + 100)
            res += prog_file("many-fns", ["%d DEF F%d(X)=X+%d" % (i + 1, i, i) for i in range(k)] + ["%d PRINT F%d(%d);" % (10000 + i, j, i) for i, j in enumerate(rng.sample(range(k), min(k, 60)))], fuel=30 * k + 100)
            res += prog_file("many-arrays", ["%d DIM Z%d(%d):Z%d(%d)=%d" % (i + 1, i, i, i, i, i) for i in range(k)] + ["%d PRINT Z%d(%d);" % (10000 + i, j, j) for i, j in enumerate(rng.sample(range(k), min(k, 60)))], fuel=40 * k + 100)
            res += prog_file("many-loops", ["%d FOR I%d=1 TO 2:S=S+I%d:NEXT" % (i + 1, i, i) for i in range(k)] + ["60000 PRINT S"], fuel=60 * k + 100)
        if k <= 257:
            nums = rng.sample(range(1, 9000), k)
            res.append(session("many-typed", [[["%d S=S*3+%d:S=S-9973*INT(S/9973)" % (x, x) for x in nums]], ["9000 PRINT S"], ["RUN"], [["%d" % x for x in nums[::3]]], ["LIST %d-" % sorted(nums)[-5]], ["RUN"], ["RENUM 1,1,1"], ["RUN"], ["LIST 1-3"]], fuel=60 * k + 100))
    return res


HASHES = (64, 79, 97, 128, 256, 293, 397, 512)


def c23_chains(rng, n):
    """Line numbers and names that meet in hash tables."""
    res = []
    for m in HASHES:
        for r in (0, 1, m - 1):
            ls = [r + m * i for i in range(1, 20)]
            ls = [x for x in ls if 0 < x < 65000]
            order = ls[:]
            rng.shuffle(order)
            nx = dict(zip(order, order[1:] + [65001]))
            res += prog_file("chains", ["1 GOTO %d" % order[0]] * (1 not in ls) + ["%d PRINT %d;:GOTO %d" % (x, x, nx[x]) for x in ls] + ["65001 RESTORE %d:READ A,B:PRINT A;B" % ls[5], "65002 GOTO %d" % (ls[3] + 1 if ls[3] + 1 not in ls else 64999)] + ["%d DATA %d" % (x + 1, x) for x in ls if x + 1 not in ls], fuel=1000)
    # names of the same letters in other orders; long common beginnings and ends
    for base in ("ABCD", "XY12", "NAME", "AAB1"):
        perms = ["".join(x) for x in itertools.permutations(base) if x[0].isalpha()]
        perms = sorted({x for x in perms if x not in ("NAME", "AND", "NAEM")})[:24]
        res += prog_file("chains", ["%d %s=%d:%s$=\"%s\"" % (i + 1, w, i, w, w) for i, w in enumerate(perms)] + ["%d PRINT %s;%s$;" % (1000 + i, w, w) for i, w in enumerate(perms)], fuel=1000)
    for w in ("A" * 40, "LONGNAME" * 4, "X1" * 20):
        names = [w[:i] for i in range(1, len(w))] + [w + c for c in "ABC123"]
        names = [x for x in names if x not in ("LON", "LONG")][:40]
        res += prog_file("chains", ["%d %s=%d" % (i + 1, x, i) for i, x in enumerate(names)] + ["%d IF %s<>%d THEN PRINT \"bad %d\"" % (1000 + i, x, i, i) for i, x in enumerate(names)] + ["9000 PRINT \"ok\""], fuel=2000)
    return res


# Programs that do the same thing N times, N being typed in; what they write does not depend on N
REPEAT = [
    ["20 X=I:A$=\"ab\"+STR$(3):B$=LEFT$(A$,2)+MID$(A$,2,1)"], ["20 GOSUB 900"], ["20 GOSUB 900:GOSUB 910", "910 GOSUB 900:RETURN"], ["20 X=FNA(FNA(I)):A$=FNS$(2)"], ["20 DIM D(5):D(1)=D(1)+1:DIM E$(2,2):E$(1,1)=\"x\"+E$(1,1)"],
    ["20 DEF FNB(Q)=Q+X:X=FNB(1)-FNB(0):DEF FNC$(Q)=STR$(Q):A$=FNC$(1)"], ["20 FOR J=1 TO 2:NEXT:FOR J=1 TO 0:NEXT"], ["20 FOR J=1 TO 5:IF J=2 THEN 30", "25 NEXT"], ["20 FOR J=1 TO 2:FOR K=1 TO 2:NEXT:NEXT J"], ["20 RESTORE:READ A,A$,B$"], ["20 RESTORE 950:READ A"],
    ["20 IF I/2=INT(I/2) THEN X=1 ELSE X=2", "25 IF X=1 THEN 30 ELSE 30"], ["20 ON 2 GOTO 99,25,99", "25 ON 1 GOSUB 900,99:ON 3 GOTO 99", "26 ON 0 GOSUB 99"], ["20 A$=STR$(I):X=VAL(A$):X=LEN(A$)+ASC(A$)"], ["20 RANDOMIZE 5:X=RND:X=RND(1)"], ["20 A$=\"\":FOR J=1 TO 3:A$=A$+\"xy\":NEXT"],
    ["20 GOTO 24", "22 GOTO 26", "24 GOTO 22", "26 REM"], ["20 X=SIN(I)+COS(I)+SQR(I)+EXP(0)+LOG(I)+ATN(I)+TAN(I)+ABS(-I)+SGN(I)+INT(I/3)"], ["20 D(1)=I:D(2)=D(1):E$(3)=\"k\":A$=E$(3)"], ["20 PRINT \"\";"], ["20 A$=CHR$(65)+CHR$(255):B$=RIGHT$(A$,1):IF A$<B$ THEN X=1"], ["20 X=((((((((I+1)+2)+3)+4)+5)+6)+7)+8)"], ["20 DIM D(20):D(20)=1:DIM D(3)"],
    ["20 FOR J=1 TO 3:GOSUB 900:NEXT J"], ["20 GOSUB 920", "920 FOR J=1 TO 9:IF J=3 THEN RETURN", "921 NEXT"], ["20 A$=\"\":A$=A$:B$=A$+A$+B$:B$=\"\""], ["20 LET X=NOT I>0:LET X=I AND 7 OR 8"], ["20 :::REM"], ["20 DIM BIG(2000):BIG(2000)=1"], ["20 DIM T$(50):T$(7)=\"long text to be released \"+STR$(5)"],
]


def repeat_program(body):
    p = ["1 DEF FNA(Z)=Z+1:DEF FNS$(Z)=STR$(Z)+\"!\"", "2 INPUT N", "5 DATA 4,f,g", "10 FOR I=1 TO N"] + body + ["30 NEXT I", "40 PRINT \"done\":Y=FNA(1):GOSUB 900:PRINT Y;FNS$(8);LEN(STR$(1)+\"z\")", "50 GOSUB 930:END", "900 RETURN", "930 V=V+1:IF V<8 THEN GOSUB 930", "931 RETURN", "950 DATA 5,6,7"]
    return sorted(p, key=lambda l: int(l.split()[0]))


def c23_repeat(rng, n):
    """Repetition: what the specification shows for a few rounds is what the interpreter shows for very many."""
    res = []
    for g, body in enumerate(REPEAT):
        for form in ("file", "typed"):
            ns = lines(["3", "4", "9"])
            if form == "file":
                ss = prog_file("repeat", repeat_program(body), script=[["3", "4", "9"]], fuel=3000, group="repeat%d" % g, view=lambda p: p["out"], own=1)
            else:
                ss = [session("repeat-typed", [[x] for x in repeat_program(body)] + [["RUN"], ["3", "4", "9"], ["PRINT N=I-1"], ["RUN"], ["2"]], fuel=4000)]
            for s in ss:
                s["many"] = True
            res += ss
    return res


def c23_commands(rng, n):
    """Commands given very many times."""
    res = []
    for cmds in (["RUN"], ["X=X+0:PRINT \"\";"], ["LIST"], ["20 PRINT \"b\"", "20"], ["CONT"], ["RENUM"], ["NEW", "10 PRINT \"n\":STOP"], ["SAVE \"q\"", "LOAD \"q\""], ["GOSUB 900", "RETURN"], ["FOR I=1 TO 1:NEXT"], ["FOR Q=1 TO 9"], ["DEF FNA(X)=X", "A=FNA(1)"], ["DIM A(9)"], ["foo", "PRINT LOG(0)"], ["INPUT A$", "x"], ["A$=\"a\"+STR$(1)", "B$=A$"], ["CLEAR"], ["RANDOMIZE 3"], ["NEWNAME%d=1"], ["READ A:DATA 1"], ["%d REM", "%d"], ["GOSUB 20"]):
        for k in (50, 400):
            ls = [c % (i + 100) if "%d" in c else c for i in range(k // len(cmds)) for c in cmds]
            res.append(session("many-commands", [["10 PRINT \"a\":STOP"], ["900 PRINT \"s\";:STOP:RETURN"], ["RUN"], [ls], ["PRINT 1"], ["LIST"], ["RUN"], ["CONT"], ["FOR I1=1 TO 1:FOR I2=1 TO 1:FOR I3=1 TO 1:FOR I4=1 TO 1:PRINT \"loops\""]], fuel=9000))
    return res


HUGE = [   # (number of lines, text of each from its index): never executed
    (3600, lambda i: ":".join(["A=%d+B" % (i % 10)] * 12)), (8000, lambda i: "Q%d=%d" % (i, i)), (8000, lambda i: "REM"), (6000, lambda i: "DATA %d,%d,x%d" % (i, i + 1, i)), (2500, lambda i: "PRINT \"s%d\":IF A THEN %d ELSE GOSUB 50010:FOR I=1 TO 2:NEXT" % (i, 2 * i + 1)), (9000, lambda i: "W%d$=\"t%d\"" % (i, i)), (1500, lambda i: "DEF FZ%d(X)=X+%d" % (i, i)),
    (3300, lambda i: ":".join("V%d=1" % (20 * i + j) for j in range(20))), (2300, lambda i: ":".join("V%d$=W%d" % (15 * i + j, 15 * i + j) for j in range(15))),
]
HUGE_SAYS = [   # what is put behind it
    ["50000 PRINT \"far\":A=1:GOSUB 50010:FOR I=1 TO 3:PRINT I;:NEXT:IF A=1 THEN 50020", "50010 PRINT \"sub\":RETURN", "50020 READ A,B$:PRINT A;B$:RESTORE 50040:READ C:PRINT C:X9=5:DIM Z9(3):Z9(2)=7:PRINT X9;Z9(2)", "50030 DEF FNQ(X)=X*X:PRINT FNQ(4):ON 2 GOTO 50010,50050", "50040 DATA 42,z", "50050 A$=\"end\":PRINT A$:STOP:PRINT \"no\""],
    ["50000 GOSUB 50100:PRINT \"back\":N=0", "50020 N=N+1:PRINT N;:IF N<4 THEN 50020", "50030 FOR I=1 TO 2:FOR J=1 TO 2:PRINT I*J;:NEXT:NEXT", "50040 GOTO 50200", "50100 PRINT \"in\";:GOSUB 50110:RETURN", "50110 PRINT \"deep\";:RETURN", "50150 END", "50200 PRINT 1:D(99)=1"],
]
FALL_SAYS = [   # the lines from the fifth on have very many before them, which do nothing
    ["1 IF S=1 THEN PRINT \"sub\":RETURN", "2 IF S=2 THEN 1", "3 DEF FNQ(X)=X+K", "4 REM", "750000 S=1:K=3:FOR I=1 TO 2:GOSUB 1:PRINT I;FNQ(I):NEXT", "750010 READ A,B$:PRINT A;B$:RESTORE:READ A:PRINT A:ON K GOSUB 1,1,1:PRINT \"back\"", "750020 DATA 42,z", "750030 DEF FNQ(X)=-X:PRINT FNQ(K)", "750040 IF K=4 THEN PRINT \"no\" ELSE PRINT \"else\"", "750050 FOR I=1 TO 3:FOR J=1 TO 2", "750060 PRINT I*J;:NEXT:NEXT:PRINT", "750070 GOSUB 1:PRINT \"again\":X=1:D(99)=X"],
    ["1 IF S=1 THEN PRINT \"sub\":RETURN", "2 REM", "20 DATA 1,2", "50 REM", "750000 FOR I=1 TO 2", "750010 READ X:PRINT X;I", "750020 NEXT I:S=1:GOSUB 1", "750030 PRINT \"stopping\":STOP:PRINT \"no\""],
    ["1 IF S=1 THEN PRINT LOG(0)", "2 REM", "20 DATA 1,2", "50 REM", "750000 S=1:GOSUB 1"],
    ["1 IF S=1 THEN PRINT 1", "2 REM", "20 DATA 1,2", "50 REM", "750000 PRINT \"x\":NEXT"],
]


def c23_huge(rng, n):
    """Programs behind very many lines that are never executed.  The specification runs them
    without most of these lines; in the interpreter all of them are there."""
    res = []
    for k, t in HUGE:
        for q in HUGE_SAYS if n > 1 else [rng.choice(HUGE_SAYS), HUGE_SAYS[0]]:
            p = ["1 GOTO 50000"] + ["%d %s" % (2 + i, t(i)) for i in range(3)] + q
            if "DATA" in t(0):
                p = [x.replace("READ A,B$", "RESTORE 50040:READ A,B$") for x in p]
            s = prog_file("huge", p, fuel=500)[0]
            s["pad"] = ["%d %s" % (2 + i, t(i)) for i in range(k)]
            s["rest"] = p[4:]
            res.append(s)
    for q in HUGE_SAYS:
        for where in ["behind", "through"]:
            # more than 65536 lines; a jump can only be to one of the first 65536 numbers
            p = ["1 GOTO 50000"] + q
            if where == "through":
                p = [x.replace(":STOP:PRINT \"no\"", "").replace(":D(99)=1", "") for x in p] + ["900000 PRINT \"at the end\":D(99)=1"]
            s = prog_file("huge", p, fuel=500)[0]
            s["first"] = p[0]
            s["pad"] = []
            s["rest"] = sorted(p[1:] + ["%d REM" % (760000 + i) for i in range(66000)], key=lambda x: int(x.split()[0]))
            res.append(s)
    for q in FALL_SAYS:
        s = prog_file("huge", q, fuel=500)[0]
        s["first"] = q[0]
        s["pad"] = q[1:4] + ["%d REM" % (100 + i) for i in range(70000)]
        s["rest"] = q[4:]
        res.append(s)
    return res


def behind(check, rep, real, s, typed):
    return lb.compare(dict(rep, files={f["name"]: f["text"] for f in s["files"]}), real, False)


class Size(Prop):
    note = ("Behaviours of a program renumbered or padded have to agree with each other in the specification; where a program takes the number of "
            "repetitions from INPUT and the specification shows that its output does not depend on it, the interpreter is also run with very many.")
    big = ["70000", "300000"]

    def jobs(self, check, rep):
        s = rep["session"]
        res = [(s, rep["typed"], rep["marks"], rep, standard)]
        if "rest" in s:
            big = dict(s, files=[dict(name="p.bas", text="\n".join([s.get("first", "1 GOTO 50000")] + s["pad"] + s["rest"]) + "\n")])
            res.append((big, rep["typed"], [], rep, behind))
        if s.get("many"):
            at = [i for i, t in enumerate(rep["typed"]) if t == "9\n"]
            if at and s["fam"] in ("repeat", "repeat-typed"):
                for b in self.big if check.tier == "thorough" else self.big[:1]:
                    t = list(rep["typed"])
                    t[at[0]] = b + "\n"
                    res.append((s, t, [], rep, standard))
        return res


# ------------------------------------------------------------------ C24: memory
SAYS = re.compile(r"Command syntax error|Invalid line number|Quoted file name|too long|Cannot|Nothing to|annot ")


def balanced(check, rep, real, s, typed):
    if real["exit"] != 0 or rep["exit"] != 0:    # ended by an error
        return lb.compare(rep, real, False)
    r = dict(real)
    m = gen2.MEM.search(r["out"])
    if not m:
        return "no memory report"
    r["out"] = r["out"][:m.start()]
    d = lb.compare(rep, r, False)
    if d:
        return d
    if rep["err"] == "" and not SAYS.search(rep["out"]) and m.group(1) != m.group(2):
        return "%s blocks allocated, %s released" % m.groups()
    return None


class Memory(Prop):
    note = "Only sessions in which, by the specification, no error is reported are judged for equality of the two numbers."

    def jobs(self, check, rep):
        s = rep["session"]
        s["opts"] = ["--report-memory"]
        return [(s, rep["typed"], rep["marks"], rep, balanced)]


def c24_programs(rng, n):
    res = []
    for p, script, fuel in programs(rng, n, PROGS24):
        res += prog_file("programs", p, script=one_way(rng, script), fuel=fuel, modes=("run", "run", rng.choice(["run", "list", "names", "parse"]))[rng.randint(0, 2):][:1], any=rng.random() < .1, trace=rng.random() < .1)
        if rng.random() < .5 and all(len(l) < 125 for l in p):
            res.append(session("programs-typed", [[l] for l in p] + [["RUN"]] + one_way(rng, script) + [[rng.choice(["RUN", "CLEAR", "NEW", "LIST", "10", "RENUM", "PRINT 1", "SAVE \"q\""])], [rng.choice(["RUN", "BYE", "LOAD \"q\"", "PRINT A"])]], fuel=2 * fuel))
    return res


PROGS24 = FAMS23 + [gen.c10_lists, gen.c11_inputs]

OPS24 = ["A$=\"x\"", "A$=A$+\"y\"", "A$=\"\"", "B$=A$", "A$=A$", "A$=LEFT$(A$,1)+STR$(5)", "DIM D$(3)", "DIM D$(5)", "DIM D(3)", "DIM E(2,2)", "D$(1)=\"q\"", "D$(1)=D$(1)+\"r\"", "D$(2)=D$(1)", "E(1,1)=5", "DEF FNA(X)=X", "DEF FNA(X)=X*2", "DEF FNS$(X)=STR$(X)+\"s\"+B$", "A=FNA(FNA(2))", "PRINT FNS$(6)", "A$=FNS$(LEN(FNS$(3)))", "CLEAR",
         "IF A$<\"b\" THEN PRINT \"lt\" ELSE PRINT \"ge\"", "PRINT LEN(A$+\"z\");ASC(\"c\");VAL(\"5\")", "FOR I=1 TO 3:A$=A$+CHR$(65):NEXT", "FOR I=1 TO 3", "READ C$,C:RESTORE", "INPUT A$", "LINE INPUT D$(3)", "INPUT D$(0),A", "PRINT A$;D$(1);D$(2)", "GOSUB 900", "RANDOMIZE 4", "STOP", "PRINT RIGHT$(\"abc\",2)=MID$(\"abc\",2,2)", "NEWN=5", "QX$=\"n\"+\"m\"", "F(2)=3", "G$(4)=\"g\"", "A(1)=2", "A$(1)=\"aa\"", "A$(1)=A$+A$(1)", "REM", "PRINT RND(\"x\")>2", "B=(A$=B$)+(A$<>\"k\")", "ON 1 GOSUB 900", "READ C$,C"]
CMDS24 = ["RUN", "RUN", "RUN", "CONT", "LIST", "NEW", "SAVE \"q\"", "LOAD \"q\"", "LOAD \"p\"", "RENUM", "RENUM 100", "CLEAR", "COMPILE", "30", "30 PRINT \"thirty\"", "40 A$=A$+\"l\":STOP:PRINT A$", "40", "50 DEF FNZ(X)=X", "GOTO 900", "10 REM", "HELP", "LIST 20", "A$=\"imm\"", "PRINT A$", "DEF FNI(X)=X+1", "PRINT FNI(2)", "DIM Z$(4)", "Z$(3)=\"zz\"", "", "X=1:STOP", "FOR I=1 TO 9", "END", "PRINT D$(1)", "RETURN"]


def c24_ops(rng, n):
    """Everything that allocates, in any order, with the session ending at any point."""
    res = []
    for _ in range(n):
        k = rng.randint(1, 8)
        p = ["%d %s" % (10 * i + 10, ":".join(rng.choice(OPS24) for _ in range(rng.choice([1, 1, 2])))) for i in range(k)]
        p += ["800 END", "900 A$=A$+\"g\":RETURN", "910 DATA d,4"]
        ins = lines("7", "7,8", "7")
        if rng.random() < .5:
            res += prog_file("ops", p, script=ins, fuel=400)
        else:
            sc = [[x] for x in p]
            for _ in range(rng.randint(1, 9)):
                sc.append([rng.choice(CMDS24 if rng.random() < .6 else OPS24)])
            sc.append(["RUN", "PRINT 5", "BYE", "NEW", "LOAD \"p\""])
            res.append(session("ops-typed", sc + [["7"]], files={"p": "10 A$=\"p\"\n20 DIM P$(2):P$(1)=A$+A$\n30 PRINT P$(1)\n"}, fuel=900))
    return res


def c24_pairs(rng, n):
    """Each pair of operations, typed and in a program."""
    prs = [(a, b) for a in OPS24 for b in OPS24]
    res = []
    for a, b in rng.sample(prs, min(n, len(prs))):
        res += prog_file("pairs", ["10 A$=\"i\":D$(1)=\"j\"", "15 DEF FNA(X)=X+1:DEF FNS$(X)=A$+STR$(X)+\"t\"", "20 " + a, "30 " + b, "40 " + a, "800 END", "900 A$=A$+\"g\":RETURN", "910 DATA d,4,e,5,f,6"], script=lines("7", "7", "7"), fuel=300)
        res.append(session("pairs-typed", [["DEF FNA(X)=X+1"], ["DEF FNS$(X)=A$+STR$(X)+\"t\""], ["10 PRINT A$"], ["900 A$=A$+\"g\":RETURN"], ["910 DATA d,4,e,5,f,6"], [a, "PRINT 1"], ["7"], [b], ["7"], [a], ["RUN", "NEW", "BYE"]], fuel=300))
    return res


def c24_other(rng, n):
    return gen2.c14_round(rng, n) + gen2.c15_random(rng, n) + gen2.c16_cont(rng, n) + gen2.c16_fresh(rng, n) + mix.sessions(rng, 3 * n, "whole") + gen.c13_edits(rng, n) + gen2.c14_files(rng, n // 4)


def c24_strings(rng, n):
    """String functions and operators with operands of every kind and all lengths of result, many in one session."""
    xs = [("\"\"", 0), ("\"a\"", 1), ("\"abc\"", 3), ("A$", 3), ("Z$", 0), ("D$(1)", 2), ("D$(9)", 0), ("A$+\"d\"", 4), ("CHR$(65)", 1), ("CHR$(0)", 0), ("STR$(12)", 2), ("LEFT$(A$,2)", 2), ("FNS$(1)", 3), ("(A$)", 3)]
    ex = []
    for x, k in xs:
        for c in range(0, k + 3):
            ex += ["LEFT$(%s,%d)" % (x, c), "RIGHT$(%s,%d)" % (x, c)]
            ex += ["MID$(%s,%d,%d)" % (x, i, c) for i in range(1, k + 1)]
        ex += ["LEN(%s)" % x, "ASC(%s)" % x, "RND(%s)>2" % x, "%s" % x]
        for y, m in xs:
            ex += ["%s+%s" % (x, y), "LEN(%s+%s)" % (x, y)] + ["%s%s%s" % (x, o, y) for o in rng.sample(["=", "<>", "<", ">", "<=", ">="], 3)]
    ex += ["VAL(\"%s\")" % v for v in ("5", " 5", "1e2", "-3 ", "0", ".5")] + ["VAL(STR$(%s))" % v for v in ("5", "-1", "1E10")]
    rng.shuffle(ex)
    res = []
    for i in range(0, len(ex), 12):
        sc = [["D$(1)=\"xy\":A$=\"abc\":DEF FNS$(X)=A$"]]
        for e in ex[i:i + 12]:
            st = [t for t in ("B$=%s", "D$(2)=%s") if not re.match(r"LEN|ASC|RND|VAL", e) and not re.search(r"(?<![<>])[<>=]", e)]
            sc.append([rng.choice(["PRINT %s", "PRINT %s"] + st) % e])
        res.append(session("strings", sc, fuel=300))
        res += prog_file("strings", ["10 " + sc[0][0]] + ["%d %s" % (20 + 10 * j, x[0]) for j, x in enumerate(sc[1:])], fuel=300)
    return res


def c24_many(rng, n):
    """Repetition and size."""
    res = []
    for body in REPEAT:
        res += prog_file("repeat", repeat_program(body), script=[["3"]], fuel=3000)
    for k in (100, 127, 128, 129, 256, 257, 300, 600):
        res += prog_file("size", ["%d N%d=%d:S%d$=\"s%d\"" % (i + 1, i, i, i, i) for i in range(k)], fuel=20 * k)
        res += prog_file("size", ["%d DEF F%d(X)=X+%d" % (i + 1, i, i) for i in range(k)] + ["9000 PRINT F%d(1)" % (k // 2)], fuel=20 * k)
        res += prog_file("size", ["10 DIM A$(%d)" % k, "20 FOR I=1 TO %d:A$(I)=STR$(I):NEXT" % min(k, 300), "30 DIM A$(3):A$(2)=\"x\"", "40 CLEAR:DIM A$(%d)" % k], fuel=20 * k)
    return res


# ------------------------------------------------------------------ C25: interrupts
BRK = re.compile(r"Break\n")


def unbroken(t):
    """Output without the traces of interrupts."""
    return t.replace("Break\n", "")


def interrupted(check, rep, real, s, typed):
    d = lb.compare(rep, real, False)
    if d != "output differs" or not s.get("loosely"):
        return d
    # it may have stopped an instruction earlier or later
    return None if unbroken(rep["out"]) == unbroken(real["out"]) and len(BRK.findall(rep["out"])) == len(BRK.findall(real["out"])) else d


SINS = [   # SIN is called here and there, adding nothing
    ["10 FOR I=1 TO 3:X=X+1+SIN(0):PRINT X;:NEXT", "20 PRINT \"end\""],
    ["10 A=1+2*(3+SIN(0)*4)-5:PRINT A;SIN(0)+A;:B=A", "20 A$=\"p\"+LEFT$(\"qrs\",2+SIN(0)):PRINT A$;B"],
    ["10 FOR I=1+SIN(0) TO 3+SIN(0) STEP 1+SIN(0):PRINT I;:NEXT I", "20 PRINT I"],
    ["10 GOSUB 100+0*0", "20 PRINT \"r\";:END", "100 X=SIN(0):PRINT \"s\";:GOSUB 200:PRINT \"t\";:RETURN", "200 Y=SIN(0)+1:RETURN"],
    ["10 X=SIN(0):GOSUB 100:PRINT \"r\";SIN(0):GOSUB 100:END", "100 PRINT \"s\";:Z=SIN(0):RETURN"],
    ["10 DEF F(X)=X+SIN(0)*2+1:DEF G(X)=F(X+SIN(0))+F(0)", "20 A=F(1)+F(2):PRINT A;:PRINT G(3)+G(F(1));", "30 PRINT F(SIN(0))"],
    ["10 IF SIN(0)=0 THEN PRINT \"y\"; ELSE PRINT \"n\";", "20 IF SIN(0)<>0 THEN PRINT \"y\"; ELSE PRINT \"n\";", "30 IF SIN(0)=0 THEN IF SIN(0)=1 THEN 90 ELSE 50", "40 PRINT \"not\"", "50 PRINT \"ok\":END", "90 PRINT \"no\""],
    ["10 ON 2+SIN(0) GOTO 90,20", "20 ON 1+SIN(0) GOSUB 100,90:PRINT \"b\"", "30 ON 3+SIN(0) GOTO 90:PRINT \"c\":END", "90 PRINT \"no\":END", "100 PRINT \"a\";:X=SIN(0):RETURN"],
    ["10 DIM D(3+SIN(0)):D(1+SIN(0))=5+SIN(0):PRINT D(SIN(0)+1);D(0)", "20 READ D(2+SIN(0)),B$:PRINT D(2);B$", "30 DATA 7,z"],
    ["10 READ A:X=SIN(0):READ B:PRINT A;B;:RESTORE:X=SIN(0):READ C:PRINT C", "20 DATA 1", "30 DATA 2"],
    ["10 PRINT \"a\";SIN(0);\"b\";CHR$(65+SIN(0));LEN(\"abc\"+STR$(SIN(0)))", "20 X=X+1:IF X+SIN(0)<3 THEN 10"],
    ["10 FOR I=1 TO 2:FOR J=1 TO 2+SIN(0):PRINT I;J+SIN(0);:NEXT J:X=SIN(0):NEXT I", "20 PRINT \"d\""],
    ["10 A$=\"a\":FOR I=1 TO 4+SIN(0):A$=A$+CHR$(97+I+SIN(0)):NEXT:PRINT A$"],
    ["10 X=SIN(0):STOP:Y=SIN(0):PRINT \"m\";:STOP:PRINT \"n\";SIN(0)"],
    ["10 IF A THEN 40", "20 A=1+SIN(0):GOTO 10", "40 A=A+SIN(0)+1:IF A<4 THEN 40", "50 PRINT A"],
    ["10 K=0", "20 K=K+1:S=S+K*(1+SIN(0)):IF K<4 THEN 20", "30 PRINT S;SIN(0)"],
    ["10 X=SIN(0):END:PRINT \"never\""],
    ["10 RANDOMIZE 5+SIN(0):A=RND(SIN(0)):RANDOMIZE 5:B=RND:PRINT A=B"],
    ["10 X=SIN(0)", "20 REM", "30 DATA 5", "40 DEF Q(X)=X", "50 X=SIN(0)"],
    ["10 PRINT SIN(0)", "20 PRINT LOG(SIN(0))", "30 PRINT \"no\""],
    ["10 X=SIN(0):NEXT", "20 PRINT \"no\""],
    ["10 X=1+SIN(0):CLEAR:PRINT X;SIN(0)"],
    ["10 LET Z=SIN(0)+SIN(0)+SIN(0)", "20 W=SIN(0):W=SIN(0):W=SIN(0):PRINT \"w\""],
]


def sin_count(p):
    return sum(l.count("SIN(") for l in p)


class Interrupts(Prop):
    note = ("Interrupts are delivered while SIN is evaluated (k-th call, for every k, by preloading a library), while the interpreter waits for a line, "
            "and at arbitrary moments of loops that write nothing.")

    def jobs(self, check, rep):
        s = rep["session"]
        if s.get("flood"):
            return [(s, rep["typed"], [], rep, flooding(check.rng.randint(1, 3)))]
        if s.get("async"):
            return [(s, rep["typed"], rep["marks"], rep, asynchronous(check.rng.randint(0, 30) / 1000.0))]
        return [(s, rep["typed"], rep["marks"], rep, interrupted)]


def asynchronous(delay):
    def judge(check, rep, real, s, typed):
        if rep["out"].count("Break\n") != len(s["async"]):
            return lb.compare(rep, real, False)
        return lb.compare(rep, real, False) or lb.compare(rep, check.real.delayed(s, typed, s["async"], delay), False)
    return judge


def flooding(times):
    """Interrupted while it writes more than is read.  What a listing leaves out is its end."""
    def judge(check, rep, real, s, typed):
        d = lb.compare(rep, real, False)
        if d:
            return d
        plain = lambda t: unbroken(t).replace("> ", "")
        k = s["flood"]
        r = check.real.flooded(s, typed[:k], ["CONT\n"] if s["fam"] == "flood" else ["LIST\n"], typed[k:], times if s["fam"] == "flood" else 1)
        if r["late"] or r["exit"] != 0 or r["sent"] == 0:
            return "does not go on after an interrupt"
        if s["fam"] == "flood":
            if r["out"].count("Break\n") != r["sent"]:
                return "not stopped by each interrupt"
            return None if plain(r["out"]) == plain(real["out"]) and lb.loose(r["err"]) == lb.loose(real["err"]) else "interrupted and continued, it writes something else"
        # the listing is cut after a line; then there is a whole one, and what follows
        full, tail = s["listed"], plain(real["out"])
        if not tail.startswith(full):
            return None
        tail = tail[len(full):]
        got = plain(r["out"])
        if not got.endswith(full + tail):
            return "after an interrupted listing, other commands differ"
        cut = got[:len(got) - len(full) - len(tail)]
        return None if full.startswith(cut) and (cut == "" or cut.endswith("\n")) and cut != full else "a listing interrupted leaves out something else than its end"
    return judge


def view25(p):
    return unbroken(p["out"]).replace("> ", ""), re.findall(r"(?m)^Runtime error: .*$", p["err"])


def c25_sin(rng, n):
    """Interrupted at each call of SIN, in a file and at the prompt, and continued."""
    res = []
    for g, p in enumerate(SINS):
        total = 14
        for k in range(1, total + 1):
            if rng.random() < min(1, n / 10.0):
                res += prog_file("file", p, brk_sin=[k], fuel=400)
        grp = dict(group="sin%d" % g, view=view25, fuel=700, own=0, loosely=True)
        nc = 8
        base = [[x] for x in p] + [["RUN"]] + [["CONT"]] * nc
        # CONT given once more than needed says so; how often differs, so what follows the end is not compared
        res.append(session("cont", base, **dict(grp, view=first_end)))
        for k in range(1, total + 1):
            res.append(session("cont", base, brk_sin=[k], **dict(grp, view=first_end)))
        for _ in range(n):
            ks = sorted(rng.sample(range(1, total + 4), rng.randint(2, 6)))
            res.append(session("cont", base, brk_sin=ks, **dict(grp, view=first_end)))
        # immediate statements
        imm = ":".join(l.split(" ", 1)[1] for l in p if "END" not in l)
        if len(imm) < 120 and "IF" not in imm and "GOTO" not in imm and "GOSUB" not in imm:
            for k in range(1, min(9, sin_count(p) * 3)):
                res.append(session("immediate", [["5 PRINT \"prog\";"], [imm], ["CONT"], ["PRINT 1;A;X;I"], [imm], ["CONT"], ["RUN"], ["CONT"]], brk_sin=[k, k + 5], fuel=500, loosely=True))
    return res


def first_end(p):
    """What is shown up to where CONT has nothing left to continue."""
    t = unbroken(p["out"]).replace("> ", "")
    t = re.split(r"Cannot continue|cannot continue|Can't", t)[0]
    return t, re.findall(r"(?m)^Runtime error: .*$", p["err"])


ACTS25 = ["PRINT X;K;I;A$", "X=X+10", "A$=\"z\"", "PRINT F(2)", "Y=SIN(0)", "CONT", "PRINT SIN(0);\"i\"", "FOR Q=1 TO 2:PRINT Q;:NEXT", "15 REM edited", "GOTO 20", "GOSUB 100:PRINT \"g\"", "CLEAR", "RUN", "foo", "PRINT LOG(0)", "LIST 10", "SAVE \"q\"", "NEW", "INPUT Z", "STOP", "READ D:PRINT D", "RETURN", "NEXT"]
PROGS25 = [
    ["10 DEF F(Q)=Q+X:FOR I=1 TO 3:X=X+1+SIN(0):PRINT X;:GOSUB 100:NEXT", "20 PRINT \"fin\";X;A$:END", "100 A$=A$+\"k\":Y=SIN(0):PRINT \"s\";:RETURN", "110 DATA 1,2"],
    ["10 DEF F(Q)=Q*SIN(0)+K", "20 K=K+1:PRINT F(K);F(1);:IF K<3 THEN 20", "30 PRINT \"fin\";K:END", "100 K=K+SIN(0):RETURN"],
]


def c25_acts(rng, n):
    """What is done between the interrupt and CONT."""
    res = []
    for _ in range(n):
        p = rng.choice(PROGS25)
        ks = sorted(rng.sample(range(1, 16), rng.randint(1, 5)))
        sc = [[x] for x in p] + [["RUN"]]
        for _ in range(rng.randint(1, 6)):
            sc.append([rng.choice(ACTS25 + ["CONT"] * 8)])
        sc += [["CONT"], rng.sample(ACTS25, 2), ["CONT"], ["PRINT X;K;I;A$"]]
        res.append(session("acts", sc, brk_sin=ks, fuel=500))
    return res


INS25 = [
    ["10 PRINT \"a\";:INPUT A:PRINT A;:INPUT \"p\";B$,C:PRINT B$;C", "20 LINE INPUT L$:PRINT L$", "30 PRINT \"end\""],
    ["10 INPUT X:S=S+X:PRINT S:IF S<9 THEN 10", "20 PRINT \"end\";S"],
    ["10 FOR I=1 TO 2:INPUT D(I):GOSUB 100:NEXT:PRINT D(1);D(2):END", "100 INPUT \"in\";E:PRINT E;:RETURN"],
]


def c25_input(rng, n):
    """Interrupted while waiting for input."""
    res = []
    for p in INS25:
        for k in range(1, 6):
            ins = ["3", "x,4", "5,6", "7", "8"]
            for mode in ("file", "typed"):
                for _ in range(max(1, n // 8)):
                    t = [rng.choice(["3", "4", "5,6", "x,4", "", "\"q\",2", "9"]) for _ in range(5)]
                    if mode == "file":
                        res += prog_file("input-file", p, script=[[x] for x in t], brk_input=[k], fuel=400)
                    else:
                        acts = [rng.choice(["CONT", "PRINT A;S;B$;C", "A=5", "X=1", "CONT", "INPUT Z", "RUN", "LIST 10"]) for _ in range(3)]
                        mixed = []
                        for i in range(5):
                            mixed.append(t[i])
                            if rng.random() < .6:
                                mixed.append("CONT")
                        res.append(session("input-typed", [[x] for x in p] + [["RUN"]] + [[x] for x in mixed] + [[a] for a in acts] + [["CONT"], ["4"], ["PRINT A;S;B$"]], brk_input=rng.choice([[k], [k], [1, k + 1], [k, k + 1], [1, 2, 3]]), fuel=500))
    return res


ASYNC = [   # loops that write nothing until Q is 1: (program, what must hold afterwards)
    (["10 X=X+1:Y=Y+1:IF SIN(Q)=0 THEN 10", "20 PRINT \"free\";INT((X-Y)/2):END"], ["PRINT INT((X-Y)/2)"]),
    (["10 FOR I=1 TO 3:A$=A$+\"k\":IF LEN(A$)>200 THEN A$=\"\"", "15 NEXT:IF SIN(Q)=0 THEN 10", "20 PRINT \"free\":END"], ["PRINT LEN(A$)<999", "FOR J=1 TO 2:PRINT J;:NEXT"]),
    (["10 GOSUB 100:GOSUB 100:IF SIN(Q)=0 THEN 10", "20 PRINT \"free\":END", "100 Z=Z+1:GOSUB 200:RETURN", "200 Z=Z-1:RETURN"], ["PRINT Z<=1", "PRINT \"x\""]),
    (["5 DEF F(X)=X*2+1:DEF G(X)=X*4", "10 B=G(F(3))+F(2):IF SIN(Q)=0 THEN 10", "20 PRINT \"free\";B;F(1):END"], ["PRINT F(1);G(2)", "DEF H(X)=X+1:PRINT H(1)+F(1)"]),
    (["10 RESTORE:READ A,B$,C:D(A)=C:IF SIN(Q)=0 THEN 10", "20 PRINT \"free\";D(3):END", "30 DATA 3,q,4"], ["PRINT D(3)=4 OR D(3)=0"]),
    (["10 IF SIN(Q)=0 THEN 10", "20 PRINT \"free\":END"], ["PRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(10+(11+(12+(13+(14+(15+16))))))))))))))"]),
    (["10 ON 1+SIN(Q) GOTO 10", "20 PRINT \"free\":END"], ["PRINT \"1\"+(\"2\"+(\"3\"+(\"4\"+(\"5\"+(\"6\"+(\"7\"+\"8\"))))))"]),
    (["10 A$=\"a\"+(\"b\"+(\"c\"+STR$(X))):DIM E$(3):E$(1)=A$:B$=LEFT$(E$(1),2)+MID$(A$,2,2):IF SIN(Q)=0 THEN 10", "20 PRINT \"free\";A$;B$:END"], ["PRINT B$"]),
]


def c25_async(rng, n):
    """Interrupted at any moment of a loop, several times, and released by an assignment."""
    res = []
    for p, probes in ASYNC:
        for how in ("once", "often", "restart", "file"):
            for _ in range(max(1, n // 4)):
                if how == "file":
                    s = prog_file("async-file", p, brk_sin=[3], fuel=900)[0]
                    s["async"] = [0]
                else:
                    typed = [x for x in p]
                    cuts, sins, c = [], [], 0
                    typed.append("RUN"); cuts.append(len(typed)); sins.append(3)
                    if how == "often":
                        for _ in range(4):
                            typed.append(rng.choice(probes)) if rng.random() < .6 else None
                            typed.append("CONT"); cuts.append(len(typed)); sins.append(sins[-1] + 2)
                    if how == "restart":
                        typed += ["PRINT \"r\"", "RUN"]; cuts.append(len(typed)); sins.append(sins[-1] + 2)
                    typed += [rng.choice(probes), "Q=1.5707963267948966:PRINT \"go\"", "CONT", "PRINT \"after\"", "CONT", "FOR J=1 TO 2:PRINT J;:NEXT"]
                    s = session("async", [[x] for x in typed], brk_sin=sins, fuel=900)
                    s["async"] = cuts
                res.append(s)
    return res


def c25_listing(rng, n):
    """Interrupted while LIST P waits: the listing ends and nothing else changes."""
    res = []
    for k in (20, 23, 24, 47, 48, 70, 80):
        for brk in ([1], [2], [3], [1, 2], [1, 3], [2, 3], [2, 4]):
            for _ in range(n):
                p = ["%d REM line %d" % (10 * i + 10, i) for i in range(k - 3)] + ["%d X=X+1:PRINT X;:STOP:PRINT X" % (10 * k), "%d INPUT A:PRINT A;X" % (10 * k + 10), "%d END" % (10 * k + 20)]
                cmds = ["LIST P", "LIST P", "LISTP", "list -%d p" % (10 * k - 20), "LIST 20P", "LIST 100-%d p" % (10 * k)]
                sc = [["RUN", "PRINT 1"], [rng.choice(cmds)], ["", "PRINT \"dropped\""], ["PRINT \"a\";X", "CONT", ""], [rng.choice(cmds + ["CONT"])], [""], [rng.choice(["LIST -30", "RUN", "", "X=5"])], ["CONT"], ["7"], ["PRINT \"z\";A"]]
                res.append(session("listing", sc and [["LOAD \"p\""]] + sc, files={"p": "\n".join(p) + "\n"}, brk_input=brk, fuel=600))
    return res


FLOODS = [
    ["10 A$=\"abcdefghijklmnopqrstuvwxyz0123456789\":A$=A$+A$+A$", "20 FOR I=1 TO 400:PRINT I;A$;I;LEN(A$+\"q\");:PRINT:NEXT", "30 PRINT \"end\";I"],
    ["10 DEF F(X)=X*2+1:B$=\"....................................................................................................\"", "20 I=I+1:GOSUB 100:IF I<400 THEN 20", "30 PRINT \"end\":END", "100 PRINT I;F(I);B$;F(F(2)*F(I));LEFT$(B$,5)+\"x\"+STR$(F(I)):RETURN"],
    ["10 C$=\"--------------------------------------------------------------------------------\"", "20 FOR I=1 TO 40:FOR J=1 TO 10:READ A,B$:PRINT I;J;A*B;B$;C$;SPC(3);\"k\":RESTORE:B=B+A:NEXT:NEXT", "30 PRINT B;\"end\"", "40 DATA 3,w"],
]


def c25_flood(rng, n):
    """Interrupted while output is held up, and continued; and while LIST is."""
    res = []
    for p in FLOODS:
        for _ in range(n):
            s = session("flood", [["LOAD \"p\""], ["RUN"], ["PRINT \"after\";I"], ["FOR K=1 TO 2:PRINT K;:NEXT"]], files={"p": "\n".join(p) + "\n"}, fuel=60000)
            s["flood"] = 2
            res.append(s)
    for k in (500, 1000):
        p = ["%d PRINT \"line %d of the listing\"" % (10 * i, i) for i in range(1, k)]
        s = session("flood-list", [["LOAD \"p\""], ["LIST"], ["PRINT \"after\""], ["FOR K=1 TO 2:PRINT K;:NEXT"], ["LIST -30"]], files={"p": "\n".join(p) + "\n"}, fuel=9000)
        s["flood"] = 2
        s["listed"] = "\n".join(p) + "\n"
        res.append(s)
    return res


def c25_idle(rng, n):
    """A break leaves nothing behind: the next commands run as ever."""
    res = []
    for a in ("PRINT SIN(0)", "X=SIN(0):X=1:X=2", "10 X=SIN(0)", "A$=STR$(SIN(0)):PRINT A$", "FOR I=1 TO 2:X=SIN(0):NEXT:PRINT I", "PRINT \"a\";SIN(0);\"b\"", "IF SIN(0)=0 THEN PRINT \"t\"", "DEF F(X)=SIN(X):PRINT F(0);\"f\"", "GOSUB 20", "INPUT D(SIN(0))", "LIST", "RENUM", "X=SIN(0)"):
        for k in (1, 2):
            res.append(session("after", [["20 PRINT \"p\";SIN(0):STOP:PRINT \"q\""], [a], ["PRINT 1;2;3"], ["RUN"], ["CONT"], ["PRINT I;X:PRINT \"z\""], ["RUN"], ["CONT"]], brk_sin=[k], fuel=300))
    return res


prop("C22", (c22_soup, 700), (c22_mutants, 700), (c22_bytes, 300), (c22_programs, 150), (c22_extremes, 1), (c22_inputs, 250), (c22_capacity, 1), (c22_edits, 1), (c22_errors, 30), cls=Robust)
prop("C23", (c23_numbers, 130), (c23_padded, 60), (c23_many, 1), (c23_chains, 1), (c23_repeat, 1), (c23_commands, 1), (c23_huge, 1), cls=Size)
prop("C24", (c24_programs, 350), (c24_ops, 400), (c24_pairs, 400), (c24_other, 60), (c24_strings, 1), (c24_many, 1), cls=Memory)
prop("C25", (c25_sin, 8), (c25_acts, 400), (c25_input, 16), (c25_async, 4), (c25_listing, 2), (c25_flood, 3), (c25_idle, 1), cls=Interrupts)
