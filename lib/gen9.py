"""Ordinary programs, in all the ways they may be kept; strings of every length through every function."""
import os, re
import gen, gen2
from lb import session

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ string functions, all lengths
LONG = [0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 79, 80, 99, 100, 101, 119, 120] + list(range(124, 135)) + [150, 191, 192, 199, 200, 223, 240, 247, 248] + list(range(250, 256))
COUNTS = [126, 127, 128, 129, 200, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 2147483647, 2147483648, 2147483649, 4294967294, 4294967295, 4294967296]


def c09_lengths(rng, n):
    res = []
    for k in LONG:
        p = ["10 DIM B$(3):DEF F$(X)=LEFT$(A$,X):DEF G$(X)=A$:DEF H(X)=LEN(RIGHT$(A$,X))", "15 REM", "20 B$=\"%s\":IF %d>7 THEN A$=B$+B$:A$=A$+A$:A$=A$+A$:IF %d>63 THEN C$=A$:FOR I=2 TO %d:A$=A$+C$:NEXT" % ("".join(rng.sample("abcdefghijklmnopqrstuvwxyz", 8)), k, k, max(k // 64, 1)), "30 IF LEN(A$)<%d THEN A$=A$+CHR$(65+LEN(A$)-26*INT(LEN(A$)/26)):GOTO 30" % k]
        ks = sorted(set(x for x in [0, 1, 2, k // 2, k - 128, k - 127, k - 2, k - 1, k, k + 1, 2 * k] + rng.sample(COUNTS, 5) if x >= 0))
        ln = 40

        def line(t):
            nonlocal ln
            p.append("%d %s" % (ln, t))
            ln += 10
        line("PRINT LEN(A$);A$;\"|\"")
        for x in ks:
            v = rng.choice(["%d" % x, "X", "(X)", "X+0", "-(-X)"])
            line("X=%d:PRINT LEN(LEFT$(A$,%s));LEFT$(A$,%s);\"|\"" % (x, v, v))
            line("PRINT LEN(RIGHT$(A$,%s));RIGHT$(A$,%s);\"|\"" % (v, v))
            if 1 <= x <= k:
                line("PRINT LEN(MID$(A$,%s,%d));MID$(A$,%s,%d);MID$(A$,%s,1)" % (v, k, v, rng.choice(ks), v))
            if k:
                line("PRINT LEN(MID$(A$,1,%s));MID$(A$,%d,%s);\"|\"" % (v, rng.randint(1, k), v))
            if x < 2147483647:
                line(rng.choice(["PRINT F$(%s);LEN(F$(%s))", "PRINT H(%s);H(%s)", "PRINT LEN(LEFT$(RIGHT$(A$,%s),%s))", "IF LEFT$(A$,%s)=RIGHT$(A$,%s) THEN PRINT \"same\" ELSE PRINT \"not\""]) % (v, v))
        line("C$=A$:PRINT C$=A$;C$<>A$;C$<A$;C$>A$;C$<=A$;C$>=A$;LEN(C$);ASC(A$+\"?\");LEN(G$(1))")
        line("B$(2)=A$:PRINT LEN(B$(2));B$(2)=A$;LEN(B$(1));B$(2)")
        line("IF %d>0 THEN C$=LEFT$(A$,%d)+\"~\":PRINT C$>A$;C$<A$;C$=A$;LEN(C$);A$<C$" % (k, max(k - 1, 0)))
        line("PRINT LEN(STR$(LEN(A$)));VAL(STR$(LEN(A$)));A$<\"\";A$=\"\";\"\"<A$;MID$(A$+\"z\",LEN(A$)+1,9)" if k < 255 else "PRINT VAL(STR$(LEN(A$)))")
        line("A$=RIGHT$(A$,%d):PRINT LEN(A$);A$:A$=\"q\"+LEFT$(A$,254):PRINT LEN(A$);A$" % max(k - 1, 0))
        line("A$=A$+\"z\":PRINT LEN(A$)")
        q = rng.random()
        if q < .7:
            res.append(session("strings", argv=["-q", "p.bas"], files={"p.bas": "\n".join(p) + "\n"}, fuel=3000))
        else:
            res.append(session("strings", [["LOAD \"p.bas\""], ["RUN"], ["PRINT LEN(A$)"], ["PRINT RIGHT$(A$,3);LEFT$(A$,130)"]], files={"p.bas": "\n".join(p) + "\n"}, fuel=3000))
    rng.shuffle(res)
    return res[:n]


# ------------------------------------------------------------------ edits anywhere in programs of any size
def c13_large(rng, n):
    res = []
    for k in [3, 4, 5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 66, 67, 70, 80, 99, 100, 101, 120, 126, 127, 128, 129, 130, 150, 190, 200, 254, 255, 256, 257, 258, 300, 383, 384, 396, 397, 398, 511, 512, 513, 514]:
        for _ in range(3):
            d = rng.choice([1, 2, 3, 10, 10, 100] if k < 200 else [2, 3, 10])
            b = rng.choice([d, 1, 7, 1000])
            nums = [b + d * i for i in range(k)]
            p = ["%d PRINT %d;" % (x, i) if k < 150 else "%d REM%d" % (x, i) for i, x in enumerate(nums)]
            at = sorted(set(x for x in [0, 1, k // 4, k // 3, k // 2 - 1, k // 2, k // 2 + 1, (k + 1) // 2, 3 * k // 4, k - 3, k - 2, k - 1, 63, 64, 127, 128, 255, 256, rng.randrange(k), rng.randrange(k)] if 0 <= x < k))
            acts = []
            for i in rng.sample(at, min(len(at), rng.randint(3, 9))):
                x = nums[i]
                acts += rng.choice([["%d PRINT \"new%d\"" % (x, i)]] * 3 + [["%d" % x]] * 2 + [["%d REM before" % (x - 1)] if x > 1 else ["%d REM" % x], ["%d REM after" % (x + 1)], ["%d" % x, "%d PRINT \"back\"" % x], ["%d PRINT \"twice\"" % x, "%d PRINT \"again\"" % x], ["%d" % (x + 1), "%d" % x], ["%d " % x], ["%d REM first" % max(1, b - 1), "%d" % x], ["%d REM last" % (nums[-1] + 1), "%d" % nums[-1]]])
                if rng.random() < .3:
                    acts.append("LIST %d-%d" % (max(0, x - 2 * d), x + 2 * d))
            end = [["LIST"]] + ([["RUN"], ["LIST %d-" % nums[k // 2]]] if k < 70 or rng.random() < .2 else [["LIST %d-" % nums[k // 2]]])
            if k < 140 and rng.random() < .5:
                o = list(p)
                if rng.random() < .5:
                    rng.shuffle(o)
                elif rng.random() < .5:
                    o.reverse()
                res.append(session("large-edits", [[x] for x in o + acts] + end, fuel=2500))
            else:
                res.append(session("large-edits", [["LOAD \"p.bas\""]] + [[x] for x in acts] + end, files={"p.bas": "\n".join(p) + "\n"}, fuel=2500))
    rng.shuffle(res)
    return res[:n]


# ------------------------------------------------------------------ what is said about long lines
LINES = [40, 78, 79, 80, 81, 100, 118, 124, 125, 126, 127, 128, 129, 130, 140, 199, 200, 252, 253, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 514, 700, 1023, 1024, 1025, 2000, 4095, 4096, 4097]
FAIL = ["PRINT LOG(0)", "A(11)=1:A(12)=1", "PRINT MID$(A$,9,1)", "RETURN", "NEXT", "GOTO 7", "READ A,B,C", "PRINT VAL(\"x\")", "X=1:PRINT CHR$(X-2)", "PRINT F(0)", "DIM Q(-1)", "PRINT G(1)", "PRINT 1:NEXT Z", "X=-1:PRINT TAB(X)", "PRINT A(1)", "GOSUB 8"]


def longer(rng, st, k):
    """The statements in a line of k characters (number included)."""
    m = rng.randrange(5) if k < 1100 else rng.choice([0, 4])
    if m == 0:
        pre, post = st + ":REM ", ""
    elif m == 1 and k < 140:
        pre, post = "A$=\"", "\":" + st
    elif m == 2:
        pre, post = "", st
    elif m == 3:
        pre, post = "X=0:IF X=0 THEN " + st + " ELSE PRINT 1:REM ", ""
    else:
        pre, post = st + ":DATA ", ""
    d = max(0, k - len(pre) - len(post) - 3)
    if m == 2:
        mid = ("X=1:" * (d // 4 + 1))[:d - d % 4] + ":" * (d % 4)
    elif m == 4:
        mid = ("item%d," % rng.randrange(10) * (d // 6 + 1))[:d].rstrip(",")
    else:
        mid = rng.choice("axZ.") * d
    return pre + mid + post


def c18_long(rng, n):
    res = []
    for k in LINES:
        for f in rng.sample(FAIL, 7):
            l = longer(rng, f, k)
            num = rng.choice([20, 20, 20, 2, 9999, 65535, 65536, 123456789])
            p = ["%d DEF F(X)=LOG(X):DEF G$(X)=A$" % 1, "%d %s" % (num, l)]
            how = rng.randrange(4)
            if how == 0:
                p[0] += ":FOR I=1 TO 3"
                p.append("%d NEXT:PRINT \"end\"" % (num + 1))
            elif how == 1 and num < 65536:
                p[0] += ":GOSUB %d" % num
                p.append("%d RETURN" % (num + 1))
            elif how == 2:
                p[1] = "%d %s" % (num, longer(rng, "DEF F(X)=LOG(X)", k))
                p.append("%d PRINT F(0)" % (num + 1))
            if rng.random() < .6:
                res.append(session("long-lines", argv=["-q", "p.bas"], files={"p.bas": "\n".join(p) + "\n"}, fuel=1500))
            else:
                res.append(session("long-lines", [["LOAD \"p.bas\""], ["RUN"], ["PRINT 1"], ["LIST %d" % num], ["RUN"]], files={"p.bas": "\n".join(p) + "\n"}, fuel=3000))
    rng.shuffle(res)
    return res[:n]


def c16_long(rng, n):
    res = []
    for k in LINES:
        for f in ("STOP", "STOP:PRINT 2", "PRINT 1;:STOP:STOP"):
            l = longer(rng, f, k)
            num = rng.choice([20, 20, 2, 9999, 65535, 65536, 123456789])
            p = "1 PRINT \"start\"\n%d %s\n%d PRINT \"end\"\n" % (num, l, num + 1)
            res.append(session("long-stops", [["LOAD \"p.bas\""], ["RUN"], ["PRINT X;A$"], ["CONT"], ["CONT"], ["CONT"]], files={"p.bas": p}, fuel=1500))
    rng.shuffle(res)
    return res[:n]


def c21_long(rng, n):
    res = []
    for k in LINES:
        for f in ("PRINT 5", "PRINT \"a\";"):
            p = "1 PRINT \"start\"\n%d %s\n99 PRINT \"end\"\n" % (rng.choice([2, 20]), longer(rng, f, k))
            for a in (["--list"], ["--trace-basic", "-q"], ["--parse"]):
                res.append(session("long-lists", argv=a + ["p.bas"], files={"p.bas": p}, fuel=1500))
            res.append(session("long-lists", [["LOAD \"p.bas\""], ["LIST"], ["LIST -50"], ["COMPILE"], ["LIST 1-P"], ["LIST P"]], files={"p.bas": p}, fuel=1500))
    rng.shuffle(res)
    return res[:n]


def c15_long(rng, n):
    """References in lines of every length; the numbers become longer or shorter."""
    res = []
    for k in LINES:
        if k > 1100:
            continue
        for _ in range(2):
            w = rng.choice(["PRINT 1:GOTO %d", "IF X=0 THEN %d", "GOSUB %d:GOTO %d", "ON X+1 GOTO %d,%d,%d", "IF X THEN %d ELSE %d", "RESTORE %d:IF X<1 THEN PRINT 5:GOTO %d", "ON 3 GOSUB %d,%d , %d:END"])
            old = [rng.choice([1, 2, 10, 55, 100, 4321, 60000])]
            while len(old) < 4:
                old.append(old[-1] + rng.choice([1, 5, 10, 100, 1000]))
            w = w.replace("%d", "@")
            while "@" in w:
                w = w.replace("@", str(rng.choice(old[2:])), 1)
            m = rng.randrange(4)
            if m == 0:
                l = "REM"
                l = w + ":REM " + ("GOTO %d " % old[1] * k)[:max(0, k - len(w))]
            elif m == 1:
                l = "A$=\"" + ("GOTO %d " % old[1] * k)[:min(110, k)] + "\":" + w
            elif m == 2:
                l = ("IF X>9 THEN %d:" % 7 if False else "Y=0:" * (max(0, k - len(w)) // 4)) + w
            else:
                l = ":".join("GOSUB %d" % rng.choice(old[2:]) for _ in range(1 + k // 12)) + ":" + w
            p = "%d PRINT \"start\"\n%d %s\n%d PRINT \"two\":RETURN\n%d PRINT \"three\":DATA 1\n" % (old[0], old[1], l, old[2], old[3])
            res.append(session("long-references", [["LOAD \"p.bas\""], ["RENUM " + rng.choice(["", "1,1,1", "100", "1000,1,1000", "60000,1,1", "10,%d" % old[1], "9,%d,1" % old[0], "%d,%d" % (old[1] + 1, old[2])])], ["LIST"], ["SAVE \"q.bas\""], ["RENUM " + rng.choice(["10", "1,1,1", "50000,1,7"])], ["LIST"], ["RUN"]], files={"p.bas": p}, fuel=600))
    rng.shuffle(res)
    return res[:n]


# ------------------------------------------------------------------ ordinary programs
def program(name):
    with open(os.path.join(HERE, "programs", name)) as f:
        return f.read()


PROGRAMS = None


def programs():
    """(name, text, scripts): programs/*.bas, the answers after each in comments: '; answer|answer'."""
    global PROGRAMS
    if PROGRAMS is None:
        PROGRAMS = []
        for n in sorted(os.listdir(os.path.join(HERE, "programs"))):
            t = program(n)
            ls = [l for l in t.split("\n") if l and not l.startswith(";")]
            scripts = [l[1:].strip().split("|") for l in t.split("\n") if l.startswith(";")] or [[]]
            PROGRAMS.append((n, ls, scripts))
    return PROGRAMS


def outside(t, f):
    """f applied to what is not in quotes, nor a remark, nor data."""
    out = []
    for k, x in enumerate(t.split('"')):
        if k % 2:
            out.append(x)
            continue
        m = re.search(r"\b(REM|DATA)\b", x, re.I)
        if m:
            return '"'.join(out + [f(x[:m.start()]) + x[m.start():]] + t.split('"')[k + 1:])
        out.append(f(x))
    return '"'.join(out)


def variant(ls, how):
    if how == "lower":
        return [outside(l, str.lower) for l in ls]
    if how == "upper":
        return [outside(l, str.upper) for l in ls]
    if how == "crunched":
        return [re.sub(r"^(\d+) ", r"\1 ", l[:l.index(" ") + 1] + outside(l[l.index(" ") + 1:], lambda x: x.replace(" ", ""))) for l in ls]
    if how == "wide":
        return [l[:l.index(" ") + 1] + outside(l[l.index(" ") + 1:], lambda x: x.replace(" ", "  ").replace(":", " : ").replace("=", " = ").replace(" =  =", "==")) for l in ls]
    return list(ls)


def whole(rng, n, ways):
    res = []
    for name, ls, scripts in programs():
        for answers in scripts:
            for how, way in ways:
                v = variant(ls, how)
                text = "\n".join(v) + "\n"
                a = [[x] for x in answers]
                fuel = 6000
                if way == "run":
                    res.append(session("programs", argv=["-q", "p.bas"], files={"p.bas": text}, script=a, fuel=fuel))
                elif way == "any":
                    res.append(session("programs", argv=["-q", "-k", "p.bas"], files={"p.bas": text}, script=a, fuel=fuel))
                elif way == "trace":
                    res.append(session("programs", argv=["-q", "--trace-basic", "p.bas"], files={"p.bas": text}, script=a, fuel=fuel))
                elif way == "renum":
                    res.append(session("programs", [["LOAD \"p.bas\""], ["RENUM %s" % rng.choice(["", "100", "1,1,1", "7,1,3", "1000,1,5"])], ["LIST"], ["RUN"]] + a + [["PRINT I;J;A$"]], files={"p.bas": text}, fuel=fuel))
                elif way == "save":
                    res.append(session("programs", [["LOAD \"p.bas\""], ["SAVE \"q.bas\""], ["NEW"], ["LIST"], ["LOAD \"q.bas\""], ["LIST"], ["RUN"]] + a + [["COMPILE"]], files={"p.bas": text}, fuel=fuel))
                elif way == "twice":
                    res.append(session("programs", [["LOAD \"p.bas\""], ["RUN"]] + a + [["PRINT I;J;A$"], ["RUN"]] + a + [["LIST 20-40"]], files={"p.bas": text}, fuel=2 * fuel))
                elif way == "typed":
                    if all(len(l) < 120 for l in v):
                        o = list(v)
                        rng.shuffle(o)
                        res.append(session("programs", [[l] for l in o] + [["LIST"], ["RUN"]] + a, fuel=fuel))
                elif way == "stop":
                    k = rng.randrange(1, len(v))
                    num = int(v[k].split(" ")[0])
                    if num - 1 > int(v[k - 1].split(" ")[0]):
                        w = v[:k] + ["%d STOP" % (num - 1)] + v[k:]
                        res.append(session("programs", [["LOAD \"p.bas\""], ["RUN"]] + a + [["PRINT I;J"], ["CONT"], ["PRINT A$"], ["CONT"]], files={"p.bas": "\n".join(w) + "\n"}, fuel=fuel))
                elif way == "memory":
                    res.append(session("programs", argv=["-q", "--report-memory", "p.bas"], files={"p.bas": text}, script=a, fuel=fuel))
    rng.shuffle(res)
    return res[:n]


def p02(rng, n):
    return whole(rng, n, [("", "run"), ("", "twice")])


def p13(rng, n):
    return whole(rng, n, [("", "typed")])


def p14(rng, n):
    return whole(rng, n, [("", "save"), ("wide", "save")])


def p15(rng, n):
    return whole(rng, n, [("", "renum"), ("lower", "renum"), ("crunched", "renum")])


def p16(rng, n):
    return whole(rng, n, [("", "stop")] * 3)


def p20(rng, n):
    return whole(rng, n, [("lower", "run"), ("upper", "run"), ("wide", "run"), ("crunched", "any"), ("", "any")])


def p21(rng, n):
    return whole(rng, n, [("", "trace")])


def p24(rng, n):
    return whole(rng, n, [("", "memory")])


for pid, f, n in (("C09", c09_lengths, 60), ("C02", p02, 60), ("C13", p13, 40), ("C13", c13_large, 150), ("C14", p14, 60), ("C15", p15, 90), ("C16", p16, 60), ("C20", p20, 120), ("C21", p21, 40), ("C24", p24, 40), ("C18", c18_long, 180), ("C16", c16_long, 100), ("C21", c21_long, 200), ("C15", c15_long, 60)):
    gen.PROPS[pid].families.append((f, n))
