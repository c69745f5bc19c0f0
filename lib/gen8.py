"""Sessions whose statements, lists, functions and columns are large."""
import random
import gen, gen3
from gen import prog_file
from lb import session

AROUND = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 512, 513, 600]


def filed(fam, p, script=(), fuel=3000, argv=("-q", "p.bas"), **kw):
    return session(fam, argv=list(argv), files={"p.bas": "\n".join(p) + "\n"}, script=[[x] for x in script], fuel=fuel, **kw)


# ------------------------------------------------------------------ lists of many items
def on_lists(rng, n, which):
    """ON with very many lines: the one asked for is the one taken."""
    res = []
    for k in AROUND:
        for x in sorted(set([1, k - 1, k, k + 1, k // 2, max(1, k - 2)] + ([255, 256, 257] if k > 200 else [254 + rng.randrange(5)]))):
            w = rng.choice(which)
            # every third line is a different one
            to = [1000 + 10 * ((7 * i + k) % 23) for i in range(k)]
            p = ["10 ON X %s %s" % (w, ",".join(str(t) for t in to)), "20 PRINT \"next\";X:END"]
            p += ["%d PRINT %d:%s" % (1000 + 10 * i, i, "RETURN" if w == "GOSUB" else "END") for i in range(23)]
            xs = [str(x), "%d.4" % x, "%d.6" % (x - 1), "%d/2" % (2 * x), "LEN(\"x\")*%d" % x]
            if rng.random() < .5:
                q = ["5 INPUT X"] + p
                res.append(filed("on", q, [rng.choice(xs[:3])]))
            else:
                q = ["5 X=" + rng.choice(xs)] + p
                if k < 18 and rng.random() < .5:
                    res.append(session("on", [[l] for l in q] + [["RUN"], ["X=1"], ["GOTO 10"]], fuel=1000))
                else:
                    res.append(filed("on", q))
    rng.shuffle(res)
    return res[:n]


def o02(rng, n):
    return on_lists(rng, n, ["GOTO"])


def o04(rng, n):
    return on_lists(rng, n, ["GOSUB"])


def c02_long(rng, n):
    """Lines with very many statements; IF within IF; jumps over much code."""
    res = []
    for k in AROUND:
        res.append(filed("long", ["10 X=0:" + "X=X+1:" * k + "PRINT X", "20 IF X=%d THEN PRINT \"all\" ELSE PRINT \"some\"" % k]))
        res.append(filed("long", ["10 X=1:IF X=2 THEN " + "PRINT \"no\":" * k + "PRINT 1 ELSE " + "X=X+1:" * k + "PRINT X;\"else\"", "20 PRINT \"end\""]))
        res.append(filed("long", ["10 X=2:IF X=2 THEN " + "X=X+1:" * k + "PRINT X;\"then\" ELSE " + "PRINT \"no\":" * k + "PRINT 1", "20 PRINT \"end\""]))
        d = min(k, 100)
        for v in sorted(set([0, 1, d // 2, d - 1, d])) if k < 129 else []:
            res.append(filed("nested", ["10 X=%d" % v, "20 " + "".join("IF X=%d THEN PRINT %d ELSE " % (i, i) for i in range(d)) + "PRINT \"none\"", "30 PRINT \"end\""]))
            res.append(filed("nested", ["10 X=%d" % v, "20 " + "".join("IF X>=%d THEN PRINT %d;:" % (i, i) for i in range(1, d + 1)) + "PRINT \"deep\"" + " ELSE PRINT \"less\"" * rng.randint(0, min(3, d)), "30 PRINT \"end\""]))
        res.append(filed("far", ["10 GOTO 900", "20 " + "PRINT \"no\":" * k + "PRINT", "30 PRINT \"here\":END", "900 " + "Y=Y+1:" * k + "IF Y=%d THEN 30" % k, "910 PRINT \"bad\""]))
        res.append(filed("chain", ["%d GOTO %d" % (10 * i, 10 * i + 10) for i in range(1, k + 1)] + ["%d PRINT \"there\"" % (10 * k + 10)]))
        res.append(filed("backwards", ["5 GOTO %d" % (10 * k)] + ["10 PRINT \"there\":END"] + ["%d GOTO %d" % (10 * i, 10 * i - 10) for i in range(2, k + 1)] if k > 1 else ["5 GOTO 10", "10 PRINT \"there\""]))
        res.append(filed("remarks", ["10 PRINT 1:" + ":" * k + "PRINT 2", "20 PRINT 3" + ":" * k, "30 REM" + "x" * k, "40 PRINT 4:GOTO 60:" + ":" * k, "50 PRINT 5", "60 PRINT 6"]))
    rng.shuffle(res)
    return res[:n]


def bodies(rng, k):
    """Function bodies with k operations, and what they are called with."""
    d = [("F(X)", "X" + "+1" * k, "F(2)"), ("F(X)", "X" + "".join("%s%d" % (rng.choice("+-"), rng.randint(0, 9)) for _ in range(k)), "F(2)+F(1)"),
         ("F(X)", "1" + "+X" * k, "F(1);F(-2);F(F(1))"), ("F(X)", "-" * k + "X", "F(3)"), ("F(X)", "G(" * min(k, 100) + "X" + ")" * min(k, 100), "F(3)"),
         ("F(X)", "(" * min(k, 250) + "X" + ")" * min(k, 250) + "+A", "F(3)"), ("F$(X)", "STR$(X)" + "+\"ab\"" * min(k, 120), "F$(1);LEN(F$(22))"), ("F$(X)", "LEFT$(" * min(k, 60) + "STR$(X)" + ",2)" * min(k, 60), "F$(456)"),
         ("F(X)", "1" + "*1+X-X" * (k // 3 + 1), "F(5)"), ("F(X)", "X" + "+B(1)" * k, "F(5)"), ("F(X)", "X=1" + " OR X=%d" * 1 % (k + 1) + " AND X>0" * k, "F(1);F(0)"), ("F(X)", "NOT " * k + "X", "F(0);F(1)"),
         ("F(" + ",".join("P%d" % i for i in range(k)) + ")", "+".join("P%d" % i for i in range(k)), "F(" + ",".join(str(i) for i in range(k)) + ")"),
         ("F(X)", "\"a\"" + "+\"\"" * min(k, 300) + "=\"a\"", "F(1)")]
    return d


def c07_large(rng, n):
    """Functions of every size, called, replaced by others, and called again."""
    res = []
    for k in AROUND:
        ds = bodies(rng, k)
        for h, b, c in ds:
            if k > 300 and ("," in h or "G(" in b):
                continue
            d = "DEF %s=%s" % (h, b)
            p = ["1 A=4:B(1)=2:DEF G(X)=X+1", "2 " + d, "3 PRINT \"a\";%s" % c, "4 FOR I=1 TO 2:PRINT %s:NEXT" % c, "5 " + "DEF %s=%s" % (h, rng.choice(["A", "1", "B(1)"]) if "$" not in h else "\"new\""), "6 PRINT %s" % c, "7 X=9:" + d + ":PRINT %s" % c, "8 PRINT X"]
            if k > 100:
                c = c.split(";")[0].split("+")[0]
                p = ["1 A=4:B(1)=2:DEF G(X)=X+1", "2 " + d, "3 PRINT \"a\";%s:END" % c]
            res.append(filed("large", p))
            if len(d) < 120:
                res.append(session("large", [["A=4:B(1)=2:DEF G(X)=X+1"], [d], ["PRINT %s" % c], ["2 PRINT \"prog\";%s" % c], [rng.choice(["RUN", "GOTO 2"])], ["PRINT %s" % c], [d + ":PRINT %s" % c], ["NEW"], ["PRINT %s" % c]], fuel=3000))
    # many functions
    for k in (2, 8, 9, 40, 120, 300):
        p = ["%d DEF F%d(X)=%s" % (i + 1, i, "X+%d" % i if i % 3 else "F%d(X)+X" % (i - 1) if i else "X") for i in range(k)]
        p += ["%d PRINT %s" % (1000 + i, ";".join("F%d(%d)" % (j, i) for j in sorted(rng.sample(range(k), min(k, 6))))) for i in range(6)]
        res.append(filed("manyfn", p))
        res.append(filed("manyfn", p[:k] + ["900 DEF F%d(X)=-X" % rng.randrange(k)] + p[k:]))
    rng.shuffle(res)
    return res[:n]


def c08_large(rng, n):
    res = []
    for k in AROUND:
        for t in ("PRINT 1" + "+1" * k, "PRINT 0" + "-1" * k, "PRINT " + "-" * k + "1", "PRINT " + "NOT " * k + "0", "PRINT " + "(" * min(k, 300) + "3" + ")" * min(k, 300), "PRINT 1" + "*2" * min(k, 60), "PRINT 2^1" + "^1" * k, "PRINT 1" + "+2*3" * (k // 2), "PRINT 1" + "=1" * k, "PRINT 1" + " AND 1" * k, "PRINT 0" + " OR 0" * k + " OR 5",
                  "PRINT " + "1+(" * min(k, 100) + "1" + ")" * min(k, 100), "PRINT " + "2-(" * min(k, 100) + "1" + ")" * min(k, 100), "PRINT " + "ABS(" * min(k, 120) + "-3" + ")" * min(k, 120), "A=1" + "+A" * k + ":PRINT A", "PRINT 100" + "/1" * k, "IF 1" + "+1" * k + "=%d THEN PRINT \"y\" ELSE PRINT \"n\"" % (k + 1)):
            res.append(filed("large", ["10 " + t, "20 PRINT A"]))
            if len(t) < 125 and rng.random() < .3:
                res.append(session("large", [[t], ["PRINT A"]]))
    rng.shuffle(res)
    return res[:n]


# ------------------------------------------------------------------ columns
def c10_wide(rng, n):
    """Far to the right: TAB, SPC, commas and numbers beyond the columns a line usually has."""
    res = []
    cols = [0, 1, 13, 14, 15, 28, 70, 71, 79, 80, 81, 119, 126, 127, 128, 129, 130, 140, 200, 238, 239, 240, 252, 253, 254, 255, 256, 257, 258, 259, 266, 300, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000]

    def piece():
        c = rng.choice(cols)
        return rng.choice(["TAB(%d);\"t\"" % c, "TAB(%d);\"t\"" % c, "TAB(%d);%d" % (c, rng.randint(-9, 99)), "SPC(%d);\"s\"" % rng.choice([0, 1, 2, 14, 200, 254, 255, 256, 300]), "\"c\",", "1,", ",", ",", "1,2,3,4,5,", "\"%s\";" % ("w" * rng.choice([1, 10, 13, 14, 15, 80, 200, 254, 255])), "A$;", "%d;" % rng.choice([0, -1, 123456]), ",,,,", ",,,,,,,,,,,,,,,,", "TAB(%d)" % c])
    for _ in range(n):
        p = ["10 A$=\"%s\"" % ("x" * rng.choice([0, 1, 3, 14, 50, 127, 128, 200]))]
        for i in range(rng.randint(1, 5)):
            ps = [piece() for _ in range(rng.randint(1, 7))]
            t = "".join(x if x[-1] in ",;" else x + ";" for x in ps)
            if rng.random() < .4:
                t = t[:-1] if t[-1] == ";" else t
            p.append("%d PRINT %s" % (20 + 10 * i, t))
            if rng.random() < .2:
                p.append("%d FOR I=1 TO %d:PRINT \"%s\";:NEXT:PRINT TAB(%d);\"l\"" % (25 + 10 * i, rng.choice([3, 14, 40, 60]), rng.choice(["ab", "abcdefg", "abcdefghijklmn"]), rng.choice(cols)))
        p.append("90 PRINT:PRINT \"z\",1")
        if rng.random() < .6 or any(len(l) > 120 for l in p):
            res.append(filed("wide", p, fuel=4000))
        else:
            res.append(session("wide", [[l] for l in p] + [["RUN"], ["PRINT \"i\";TAB(5);1,2"]], fuel=4000))
    # each column exactly
    for c in cols:
        for at in cols:
            if abs(c - at) < 20 or rng.random() < .05:
                res.append(filed("columns", ["10 PRINT TAB(%d);\"a\";TAB(%d);\"b\",\"c\"" % (at, c), "20 PRINT SPC(%d);\"a\",TAB(%d);\"b\";1" % (min(at, 255), c), "30 PRINT TAB(%d),1;TAB(%d);2" % (at, c)], fuel=500))
    return res


def c10_many(rng, n):
    """PRINT with very many items."""
    res = []
    for k in AROUND[:-2]:
        its = ["1", "\"a\"", "A", "A$", "-2", "", "\"\"", "1.5"]
        for sep in (";", ",", ";;"):
            res.append(filed("items", ["10 A=3:A$=\"s\"", "20 PRINT " + sep.join(rng.choice(its) for _ in range(k)), "30 PRINT \"z\",1"]))
        res.append(filed("items", ["20 " + "PRINT 1;:" * k + "PRINT TAB(%d);2" % (2 * k + 5)]))
        res.append(filed("items", ["20 " + ":".join("PRINT" for _ in range(k)) + ":PRINT 2"]))
    return res


# ------------------------------------------------------------------ READ, INPUT, DIM, arrays
def c12_many(rng, n):
    res = []
    for k in AROUND:
        its = [str((i * 37) % 1000) for i in range(k)]
        res.append(filed("many", ["10 READ " + ",".join("A(%d)" % (i % 11) for i in range(k)), "20 FOR I=0 TO 10:PRINT A(I);:NEXT", "30 READ X:PRINT \"no\"", "40 DATA " + ",".join(its)]))
        if k < 140 or k == 257:
            res.append(filed("many", ["10 FOR I=1 TO %d:READ X:S=S+X*I:NEXT:PRINT S" % k, "20 RESTORE:READ Y:PRINT Y:RESTORE 40:READ Y:PRINT Y", "30 READ A$,B$:PRINT A$;B$"] + ["%d DATA %s" % (40 + i, its[i]) for i in range(k)] + ["9990 DATA p,q"], fuel=8000))
        for r in sorted(set([0, 1, k // 2, k - 1]) if k < 258 else [k - 1]):
            res.append(filed("many", ["10 RESTORE %d:READ X:PRINT X" % (40 + r), "20 READ X:PRINT X"] + ["%d %s" % (40 + i, rng.choice(["DATA %s" % its[i], "REM", "DATA %s,7" % its[i], "PRINT:DATA %s" % its[i]])) for i in range(k)] + ["9990 DATA p,q"], fuel=2000))
    return res


def c11_many(rng, n):
    res = []
    for k in AROUND[:17]:
        vs = ["A(%d)" % (i % 11) if i % 3 else "B$(%d)" % (i % 11) for i in range(k)]
        for _ in range(3):
            def row():
                m = max(1, k + rng.choice([-1, 0, 0, 0, 1]))
                return ",".join("%s%d" % ("s" if i % 3 == 0 else "", i) for i in range(m))
            res.append(filed("many", ["10 INPUT " + ",".join(vs), "20 FOR I=0 TO 10:PRINT A(I);B$(I):NEXT"], [row() for _ in range(4)]))
    for k in AROUND:
        w = "w" * k
        for l in (w, w + ",5", "\"" + w + "\",5", " " * k + "x,5", "x" + " " * k + ",5", "\"" + w + ",5", w + "," + " " * k + "5" + " " * k, "x,0" + "0" * k + "5", "x,5" + "x" * k, ",5", "x," * k + "5"):
            res.append(filed("lines", ["10 INPUT A$,B:PRINT A$;LEN(A$);B", "20 INPUT C$:PRINT C$;LEN(C$)"], [l, "y,6", l, "z"], fuel=300))
    rng.shuffle(res)
    return res[:n]


def c06_many(rng, n):
    """Large arrays and very many of them."""
    res = []
    for a in (255, 256, 257, 1000, 10000, 32766, 32767, 32768, 40000, 65534, 65535, 65536, 70000):
        for e in sorted(set([0, 1, a - 1, a, a + 1, 255, 256, 65535, 65536])):
            if e <= a + 1:
                res.append(filed("large", ["10 DIM A(%d),B$(%d)" % (a, a % 5000), "20 A(%d)=5:A(0)=A(0)+2:PRINT A(0);A(%d);A(1);A(2)" % (e, e), "30 B$(1)=\"q\":PRINT B$(1);B$(0)"]))
    for a, b in ((1, 1), (15, 16), (16, 15), (127, 1), (254, 254), (255, 255), (255, 256), (256, 255), (180, 181), (1, 30000), (30000, 1), (0, 300), (300, 0), (100, 100), (99, 654)):
        for i, j in ((0, 0), (a, b), (a, 0), (0, b), (a // 2, b // 2), (a + 1, 0), (0, b + 1), (b, a), (1, 0), (0, 1)):
            res.append(filed("table", ["10 DIM A(%d,%d)" % (a, b), "20 A(0,%d)=1:A(%d,0)=A(%d,0)+2:A(%d,%d)=A(%d,%d)+4" % (b, a, a, a, b, a, b), "30 PRINT A(0,0);A(0,%d);A(%d,0);A(%d,%d)" % (b, a, a, b), "40 A(%d,%d)=A(%d,%d)+8:PRINT A(%d,%d)" % ((i, j) * 3), "50 PRINT A(0,0);A(0,%d);A(%d,0);A(%d,%d)" % (b, a, a, b)]))
    for k in AROUND[:-2]:
        res.append(filed("manyarrays", ["10 DIM " + ",".join("V%d(%d)" % (i, i % 17 + 1) if i % 2 else "V%d$(%d)" % (i, i % 17 + 1) for i in range(k)), "20 V%d%s(1)=%s:PRINT V%d%s(1);V%d%s(0)" % ((k - 1, "" if k % 2 == 0 else "$", "3" if k % 2 == 0 else "\"s\"") + (k - 1, "" if k % 2 == 0 else "$") * 2), "30 PRINT V0$(1):V0$(1)=\"first\":PRINT V0$(1);V0$(0)"]))
        res.append(filed("manyarrays", ["10 " + ":".join("W%d(%d)=%d" % (i, i % 11, i) for i in range(k)), "20 PRINT " + ";".join("W%d(%d)" % (i, i % 11) for i in range(0, k, max(1, k // 40)))]))
    rng.shuffle(res)
    return res[:n]


# ------------------------------------------------------------------ STOP everywhere
WHOLE = [
    ["10 DEF F(X)=X*2+K:K=3:DIM D(3)", "20 FOR I=1 TO 2:READ A:D(I)=A+F(I):PRINT D(I);:NEXT", "30 IF D(1)>D(2) THEN PRINT \"more\" ELSE PRINT \"less\"", "40 GOSUB 80:IF K=4 THEN GOSUB 80 ELSE PRINT \"no\"", "50 ON K GOTO 60,60,60,60,70", "60 PRINT \"six\"", "70 PRINT \"end\";K:END", "80 K=K+1:PRINT \"sub\";K", "90 RETURN", "100 DATA 5,7"],
    ["10 K=K+1:IF K<3 THEN IF K<2 THEN PRINT \"one\" ELSE PRINT \"two\"", "20 PRINT K;:IF K=1 THEN 10", "30 FOR I=3 TO 1 STEP -1:FOR J=1 TO I:PRINT J;:NEXT:PRINT:NEXT", "40 A$=\"x\":A$=A$+\"y\":PRINT A$", "50 IF K=1 THEN PRINT \"p\":PRINT \"q\" ELSE PRINT \"r\":PRINT \"s\"", "60 ON 2 GOSUB 90,80:PRINT \"after\"", "70 END", "80 PRINT \"eighty\":RETURN", "90 PRINT \"ninety\":RETURN"],
    ["10 INPUT A,A$:PRINT A;A$", "20 IF A=5 THEN READ B:PRINT B ELSE READ B:PRINT -B", "30 READ B$:PRINT B$:RESTORE:READ C:PRINT C", "40 L=LEN(A$):PRINT L;LEN(B$)", "50 DATA 4,w", "60 DEF F(X)=X+C:PRINT F(1):DEF F(X)=X-C:PRINT F(1)", "70 PRINT \"a\";:PRINT \"b\",:PRINT \"c\""],
]


def parts(line):
    """Where a statement may be put in a line: before each one, in each THEN and ELSE, and at the end."""
    no, t = line.split(" ", 1)
    res = []
    for i in range(len(t) + 1):
        if i == 0 or t[i - 1] == ":" or t[:i].endswith("THEN ") and not t[i].isdigit() or t[:i].endswith("ELSE "):
            res.append(no + " " + t[:i] + "%s:" + t[i:])
        if i == len(t) and "DATA" not in t or t[i:].startswith(" ELSE"):
            res.append(no + " " + t[:i] + ":%s" + t[i:])
    # instead of one
    import re
    for m in re.finditer(r"(?:^|:|THEN |ELSE )((?:PRINT|READ|A\$=|K=)[^:]*?)(?= ELSE|:|$)", t):
        res.append(no + " " + t[:m.start(1)] + "%s" + t[m.end(1):])
    return res


def c16_everywhere(rng, n):
    """STOP at every place of these programs: CONT goes on as if it had not been there."""
    res = []
    for w in WHOLE:
        for i, l in enumerate(w):
            for p in parts(l):
                for st in ("STOP", "STOP:STOP", "PRINT \"!\";:STOP", "STOP:PRINT \"!\";"):
                    if st != "STOP" and rng.random() > n / 100.0:
                        continue
                    q = w[:i] + [p % st] + w[i + 1:]
                    mid = rng.choice([[], [], ["PRINT K;A;A$"], ["READ Z9"], ["LIST 10"], ["DEF H(X)=X"], ["IF 1 THEN PRINT 1 ELSE PRINT 2"], ["FOR Q=1 TO 1:NEXT"], ["K=K"]])
                    inp = ["5,x"] if "INPUT" in w[0] else []
                    res.append(session("everywhere", [[x] for x in q] + [["RUN"]] + [[x] for x in inp] + [[x] for x in mid] + [["CONT"]] * 7, fuel=900))
    return res


def two_stops(rng, n):
    res = []
    for _ in range(n):
        w = rng.choice(WHOLE)
        q = list(w)
        for _ in range(rng.randint(2, 4)):
            i = rng.randrange(len(w))
            if "STOP" not in q[i]:
                q[i] = rng.choice(parts(w[i])) % "STOP"
        acts = ["PRINT K;A;A$;I", "K=K+1", "LIST", "GOSUB 80", "PRINT F(2)", "READ Z9:PRINT Z9", "RESTORE", "NEXT", "RETURN", "FOO", "PRINT 1/0", "DEF F(X)=-X", "DIM Y(3)", "A$=\"m\""]
        sc = [[x] for x in q] + [["RUN"]] + ([["5,x"]] if "INPUT" in w[0] else [])
        for _ in range(7):
            if rng.random() < .4:
                sc.append([rng.choice(acts)])
            sc.append(["CONT"])
        res.append(session("stops", sc, fuel=1200))
    return res


# ------------------------------------------------------------------ errors in functions
def c18_functions(rng, n):
    """The line named by an error in a function, wherever it was defined and is called."""
    res = []
    bodies = ["LOG(X)", "1/X", "LOG(X)*2", "A(X)", "VAL(\"\")+LOG(X)", "G(X)", "X+G(X)", "ASC(B$(X))", "U(X)", "LEN(LEFT$(\"abc\",X))", "LEN(CHR$(X))", "A(X,1)", "X^.5", "EXP(X)"]
    calls = ["PRINT F(%s)", "A(1)=F(%s)", "IF F(%s)=1 THEN PRINT 1 ELSE PRINT 2", "ON F(%s) GOTO 90,90", "FOR I=F(%s) TO 3:NEXT", "PRINT 1;:PRINT F(%s)", "X=1:PRINT 2+F(%s)", "PRINT H(%s)", "PRINT TAB(F(%s));1", "READ A(F(%s))", "DIM Z(F(%s))", "INPUT A(F(%s))"]
    for _ in range(n):
        b, c = rng.choice(bodies), rng.choice(calls)
        d = ["DEF F(X)=" + b, "DEF G(X)=LOG(X-1)", "DEF H(X)=F(X)+1"]
        rng.shuffle(d)
        arg = rng.choice(["0", "-1", "1", "2", "-5", "99", "1E30", "A(2)"])
        shape = rng.randrange(5)
        if shape == 0:
            p = [":".join(d), c % arg, "PRINT \"end\""]
        elif shape == 1:
            p = d + ["PRINT \"go\"", "REM " + "x" * rng.choice([0, 100, 127, 128]), c % arg]
        elif shape == 2:
            p = ["GOTO 90"] + d + [c % arg]
            p = ["GOSUB 80", c % arg, "END"]
        elif shape == 3:
            p = d[:1] + ["PRINT 1"] + d[1:2] + ["REM"] + d[2:] + ["FOR J=1 TO 2", c % arg, "NEXT"]
        else:
            p = [d[0] + ":" + d[1], "PRINT \"x\":" + d[2] + ":" + c % arg]
        q = ["%d %s" % (10 + 5 * i, t) for i, t in enumerate(p)]
        if shape == 2:
            q += ["80 " + ":".join(d) + ":RETURN"]
        q.append("90 DATA 5,6:PRINT \"ninety\"")
        if rng.random() < .3:
            q[0] = q[0].replace("10 ", rng.choice(["0 ", "1 ", "007 "]), 1)
        if rng.random() < .4:
            res.append(filed("functions", q, ["4"]))
        else:
            sc = [[l] for l in q] + [["RUN"], ["4"], ["PRINT F(%s)" % arg], ["PRINT H(%s)" % arg], ["12 REM new"], ["PRINT G(0)"], ["PRINT 1"]]
            if rng.random() < .4:
                sc.insert(len(q), ["DEF F(X)=LOG(-1)"])
                sc.insert(len(q) + 1, ["PRINT F(1)"])
            res.append(session("functions", sc, fuel=500))
    return res


# ------------------------------------------------------------------ breaks with much in progress
def c25_deep(rng, n):
    """Interrupted with 0 to 8 loops and 0 to 8 calls in progress."""
    res = []
    for loops in range(9):
        for calls in range(9):
            if loops and calls and loops not in (7, 8) and calls not in (7, 8) and rng.random() > .3:
                continue
            f = "".join("FOR %s=1 TO %d:" % ("ABCDEFGH"[i], 2 if i >= loops - 2 else 1) for i in range(loops))
            nx = "".join(":NEXT" for i in range(loops))
            p = ["10 PRINT \"start\":" + f + "GOSUB 100:PRINT SIN(0);" + nx + ":PRINT \"end\"", "20 END"]
            for i in range(calls):
                p.append("%d %s" % (100 + 10 * i, ("PRINT SIN(0)+%d;:GOSUB %d:RETURN" % (i, 110 + 10 * i)) if i < calls - 1 else "X=X+1+SIN(0):PRINT \"deep\";X:RETURN"))
            if calls == 0:
                p[0] = p[0].replace("GOSUB 100", "Y=SIN(0)")
            for k in range(1, 2 + max(calls, 1)):
                ks = [k] if rng.random() < .7 else sorted(set([k, k + rng.randint(1, 6)]))
                if len(p[0]) > 120:
                    res.append(session("deep", [["LOAD \"p.bas\""], ["RUN"]] + [["CONT"]] * 5 + [["NEXT"], ["RETURN"], ["PRINT X"]], files={"p.bas": "\n".join(p) + "\n"}, brk_sin=ks, fuel=900, loosely=True))
                else:
                    res.append(session("deep", [[l] for l in p] + [["RUN"]] + [["CONT"]] * 5 + [["NEXT"], ["RETURN"], ["PRINT X"]], brk_sin=ks, fuel=900, loosely=True))
                if rng.random() < .3:
                    res.append(filed("deepfile", p, brk_sin=ks, fuel=900))
    rng.shuffle(res)
    return res[:n]


# ------------------------------------------------------------------ very many names
def c23_names(rng, n):
    """Names first used before tens of thousands of others are still the same ones after them."""
    res = []
    for k, step in ((66000, 50), (20000, 40)) if n > 1 else ((66000, 50),):
        lines = k // step
        head = "1 EARLY=5:E$=\"ee\":E(3)=7:E$(2)=\"arr\":DEF FE(X)=X+EARLY:Z1=1:Z2=2:COUNT=3:I=4:GOTO 60000"
        rest = ["60000 PRINT EARLY;E$;E(3);E$(2);FE(1);Z1;Z2;COUNT;I;N1;N%d;N%d" % (k // 2, k - 1), "60010 EARLY=6:PRINT FE(1);EARLY;E(EARLY/2):E$(2)=E$+\"!\":PRINT E$(2);E$", "60020 FOR I=1 TO 2:Z1=Z1+I:NEXT:PRINT Z1;Z2;I;COUNT", "60030 N1=8:N%d=9:PRINT N1;N%d;N2;Z1;EARLY" % (k - 1, k - 1)]
        s = prog_file("names", [head] + rest, fuel=500)[0]
        s["first"] = head
        pad, at = [], 0
        for i in range(lines):
            kind = rng.randrange(4)
            vs = range(i * step, (i + 1) * step)
            if kind == 0:
                t = ":".join("N%d=0" % v for v in vs)
            elif kind == 1:
                t = "PRINT " + ";".join("N%d" % v for v in vs)
            elif kind == 2:
                t = "READ " + ",".join("N%d" % v for v in vs)
            else:
                t = "X=" + "+".join("N%d" % v for v in vs)
            pad.append("%d %s" % (2 + i, t))
        s["pad"], s["rest"] = pad, rest
        res.append(s)
    return res


for pid, f, n in (("C02", o02, 120), ("C02", c02_long, 80), ("C04", o04, 90), ("C07", c07_large, 200), ("C08", c08_large, 160), ("C10", c10_wide, 260), ("C10", c10_many, 1), ("C12", c12_many, 1),
                  ("C11", c11_many, 160), ("C06", c06_many, 160), ("C16", c16_everywhere, 20), ("C16", two_stops, 120), ("C18", c18_functions, 350), ("C25", c25_deep, 130), ("C23", c23_names, 1),
                  ("C22", o02, 40), ("C22", c02_long, 15), ("C22", c07_large, 30), ("C22", c08_large, 30), ("C22", c10_wide, 30), ("C22", c06_many, 40)):
    gen.PROPS[pid].families.append((f, n))
