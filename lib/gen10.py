"""Numbers of every size and as near to one another as they come, wherever a number is used."""
import re
import struct
import gen
from lb import session

SIZES = [5e-324, 1e-320, 1e-310, 2.3e-308, 1e-300, 1e-200, 1e-162, 1e-160, 1e-100, 1e-60, 1e-50, 1e-46, 1.1e-45, 1e-40, 1.1e-38, 1e-37, 1e-30, 1e-20, 1.1e-16, 2.3e-16, 1e-15, 1e-12, 1e-10, 1e-9,
         1.1e-7, 1.2e-7, 1e-6, 1e-5, 1e-4, 1e-3, .01, .1, .2, .25, .3, 1 / 3., .5, .7, .75, .9, .999999, .9999999999, 1, 1.0000001, 1.1, 1.5, 2, 2.5, 3, 7, 9.99999, 10, 99.9999999, 100, 127.5, 128, 255.5, 256, 999.5, 1000, 32767.5, 32768,
         65535.5, 65536, 99999.5, 123456.5, 999999.5, 1e6, 1234567.5, 16777215.5, 16777217, 99999999.5, 2147483647.5, 2147483648, 4294967295.5, 4294967296, 1e10, 1e12 + .5, 2. ** 52 + .5, 2. ** 53 - 1, 1e16, 1e18, 9.3e18, 1.9e19, 1e20, 1e30, 3.4e38, 3.5e38, 1e39,
         1e60, 1e100, 1e153, 1e155, 1e200, 1e300, 1.7e308]


def lit(x):
    """A literal for x >= 0, exact."""
    t = repr(float(x))
    if t.endswith(".0"):
        t = t[:-2]
    t = t.upper().replace("E+", "E").replace("E-0", "E-")
    return t[1:] if t.startswith("0.") and len(t) > 2 and len(t) % 2 else t


def up(x, k=1):
    return struct.unpack("<d", struct.pack("<q", struct.unpack("<q", struct.pack("<d", x))[0] + k))[0]


def near(rng, x):
    """Something near x, but not x."""
    y = rng.choice([up(x), up(x, 2), up(x, -1) if x > 5e-324 else 0, x * (1 + 1e-12), x * (1 + 1e-9), x * (1 - 1e-8), x * 1.00001, x * 1.1, struct.unpack("<f", struct.pack("<f", x))[0] if x < 3e38 else x / 2])
    return y if y != x and y < 1.7e308 else up(x, -1) if x > 1 else up(x)


def signed(rng, t):
    return rng.choice([t, t, "-" + t])


def run(rng, fam, p, answers=(), fuel=3000, **kw):
    p = gen.number(p) if not p[0][0].isdigit() else p
    sc = [[a] for a in answers]
    if rng.random() < .2 and all(len(l) < 124 for l in p):
        return session(fam, [[l] for l in p] + [["RUN"]] + sc + [["PRINT 1"]], fuel=fuel, **kw)
    return session(fam, sc, what="run", file="p.bas", files={"p.bas": "\n".join(p) + "\n"}, fuel=fuel, **kw)


def c02_truth(rng, n):
    """Conditions of every size: all but zero are true."""
    res = []
    for _ in range(n):
        p, ln = [], 10
        for _ in range(rng.randint(4, 9)):
            v = rng.choice(SIZES) if rng.random() < .9 else 0
            t = signed(rng, lit(v))
            q = rng.random()
            if q < .3:
                p.append("%d X=%s" % (ln, t))
                t = rng.choice(["X", "(X)", "-X", "X*1", "X-0"])
                ln += 1
            elif q < .5:
                w = near(rng, v or 1)
                t = "%s-%s" % (lit(v), lit(w))
                if rng.random() < .3:
                    t = "%s%s%s" % (lit(v), rng.choice(["=", "<", ">", "<=", ">=", "<>"]), lit(w))
            elif q < .6 and v:
                t = rng.choice(["%s/%s-1", "%s*0+0*%s", "SGN(%s-%s)", "ABS(-%s)*0-SGN(%s)"]) % (lit(v), lit(v))
            p.append(rng.choice(["%d IF %s THEN %d", "%d IF %s THEN PRINT \"yes\" ELSE PRINT \"no\":Z=%d", "%d IF %s THEN PRINT \"true\":Z=%d", "%d IF %s THEN %d ELSE " + str(ln + 5)]) % (ln, t, ln + 10))
            p.append("%d PRINT \"not\";%d" % (ln + 2, ln))
            p.append("%d PRINT %d" % (ln + 5, ln + 5))
            ln += 10
        p.append("%d PRINT \"end\"" % ln)
        res.append(run(rng, "truth", p))
    return res


def c03_scaled(rng, n):
    """Loops of every size, with limits just reached and just missed."""
    res = []
    for _ in range(n):
        u = rng.choice(SIZES)
        if not 1e-320 < u < 1e306:
            u = 1e-50
        a, k = rng.choice([0, 0, 1, 2, -1]), rng.choice([0, 1, 2, 3, 4, 7])
        s = rng.choice([1, 1, 1, 2, .5, -1, -1, -.5])
        x, lim = a * u, 0.0
        for _ in range(k):
            x += s * u
        lim = x
        q = rng.random()
        if q < .4 and lim:
            lim = near(rng, abs(lim)) * (1 if lim > 0 else -1)
        elif q < .5:
            lim = lim + u * s / 2
        g = lambda v: ("-" if v < 0 else "") + lit(abs(v))
        f, t, st = g(a * u), g(lim), g(s * u)
        if rng.random() < .4:
            pre = "A=%s:B=%s:C=%s:" % (f, t, st)
            f, t, st = "A", "B", "C"
        else:
            pre = ""
        step = "" if st == "1" and rng.random() < .7 else " STEP " + st
        v = rng.choice(["I", "I", "X1"])
        p = [pre + "N=0:FOR %s=%s TO %s%s" % (v, f, t, step), "N=N+1:PRINT %s;" % v, "IF N<10 THEN NEXT%s" % rng.choice(["", " " + v]), "PRINT N:PRINT %s;%s/%s" % (v, v, lit(u))]
        if rng.random() < .3:
            p += ["FOR J=1 TO 2:M=0:FOR K=%s TO %s STEP %s:M=M+1:IF M>9 THEN %d" % (g(a * u), g(lim), g(s * u), 70), "NEXT K", "PRINT \"m\";M:NEXT J"]
        res.append(run(rng, "scaled", p))
    return res


WAYS = {
    "C05": ["X=%s", "LET X=%s", "Y=%s:X=Y", "X=%s:Y=X:X=Y+0", "FOR X=%s TO 1E308:N=1", "Y=%s:FOR X=Y TO Y STEP Y:NEXT"],
    "C06": ["A(3)=%s:X=A(3)", "DIM B(2,3):B(1,2)=%s:X=B(1,2)", "A(1)=%s:A(2)=A(1):X=A(A(0)+2)"],
    "C07": ["DEF F(Z)=Z:X=F(%s)", "DEF F(Z)=%s:X=F(1)", "DEF F(Z)=Z+0:Y=%s:X=F(Y)", "DEF F(Z)=Z*1:X=0:Z=%s:X=F(Z)"],
    "C09": ["X=VAL(\"%s\")", "A$=\"%s\":X=VAL(A$)", "X=VAL(\" \"+\"%s\"+\" \")"],
    "C11": ["INPUT X", "INPUT A$,X", "INPUT A(2):X=A(2)"],
    "C12": ["READ X:DATA %s", "READ A(4):X=A(4):DATA %s", "READ A$,X:DATA z,%s", "READ A$:X=VAL(A$):DATA \"%s\""],
}


def exact(pid):
    def f(rng, n):
        """A number that goes through a variable, an element, … comes out as it was."""
        res = []
        while len(res) < n:
            p, ans = [], []
            for _ in range(rng.randint(1, 4)):
                x = rng.choice(SIZES)
                if rng.random() < .6:
                    x = near(rng, x)
                way = rng.choice(WAYS[pid])
                neg = rng.random() < .3 and not way.startswith("FOR")
                t = ("-" if neg else "") + lit(x)
                if pid == "C11":
                    ans.append(("q," if "A$," in way else "") + t)
                if way.startswith("DIM") and any("DIM" in l for l in p):
                    way = way[11:]
                p.append(way % t if "%s" in way else way)
                y = near(rng, x)
                m = "-" if neg else ""
                p.append("PRINT X;X-%s%s;X=%s%s;X=%s%s;X<%s%s;X>%s%s" % (m, lit(x), m, lit(x), m, lit(y), m, lit(y), m, lit(y)) if "1" == "1" else "")
                if x > 1e-290:
                    p.append("PRINT X/%s;(X-%s%s)/%s" % (lit(x), m, lit(y), lit(x)))
            p = [l.replace("-%s-" % "", "--") if False else l for l in p]
            s = run(rng, "exact", p, ans, fuel=1000)
            res.append(s)
        return res
    f.__name__ = pid.lower() + "_exact"
    return f


def c08_near(rng, n):
    """Operators and functions on numbers of every size and their neighbours."""
    res = []
    for _ in range(n):
        p = []
        for _ in range(rng.randint(3, 6)):
            x = rng.choice(SIZES)
            y = near(rng, x) if rng.random() < .6 else rng.choice(SIZES + [0])
            a, b = signed(rng, lit(x)), signed(rng, lit(y))
            q = rng.random()
            if q < .35:
                p.append("A=%s:B=%s:PRINT A=B;A<B;A>B;A<=B;A>=B;A<>B;A=A;A-A;A-B" % (a, b))
            elif q < .55:
                o = rng.choice("+-*")
                if o == "*" and x and y and not 1e-300 < x * y < 1e300:
                    o = "+"
                p.append("PRINT %s%s%s;(%s%s%s)-%s" % (a, o, b, a, o, b, a))
            elif q < .65 and y:
                p.append("PRINT %s/%s;%s/%s-1" % (a, b, a, a))
            elif q < .9:
                f = rng.choice(["ABS", "SGN", "INT", "INT", "SQR"])
                z = lit(x) if f == "SQR" else a
                p.append("PRINT %s(%s);%s(%s)-(%s);%s(0*%s);%s(-0)" % (f, z, f, z, z, f, z, f))
            else:
                p.append("PRINT %s;-%s;--%s;0*-%s;-(0*%s)" % (a, b.lstrip("-"), b.lstrip("-"), lit(min(x, 1e300)), lit(min(x, 1e300))))
        res.append(run(rng, "near", p))
    return res


def c10_sizes(rng, n):
    """Numbers of every size at every column, in every zone."""
    res = []
    for _ in range(n):
        p = []
        for _ in range(rng.randint(2, 5)):
            its = [signed(rng, lit(rng.choice(SIZES))) for _ in range(rng.randint(1, 5))]
            sep = [rng.choice([";", ",", ";", ",,", ";\"a\";", ",TAB(%d);" % rng.randint(1, 60), ";SPC(%d);" % rng.randint(0, 9)]) for _ in its]
            p.append("PRINT " + "".join(a + b for a, b in zip(its, sep)) + rng.choice(["", "\"|\""]))
        p.append("PRINT:PRINT " + ";".join("LEN(STR$(%s))" % signed(rng, lit(rng.choice(SIZES))) for _ in range(3)))
        res.append(run(rng, "sizes", p))
    return res


def c09_str(rng, n):
    """STR$ and VAL of numbers of every size."""
    res = []
    for _ in range(n):
        p = []
        for _ in range(rng.randint(2, 4)):
            x = rng.choice(SIZES)
            t = signed(rng, lit(near(rng, x) if rng.random() < .3 else x))
            p.append("X=%s:A$=STR$(X):PRINT A$;LEN(A$);\"|\";LEFT$(A$,2);RIGHT$(A$,2);ASC(A$)" % t)
            p.append("PRINT VAL(A$);VAL(A$)=X;VAL(\"%s\")=X;STR$(VAL(A$))=A$;A$<\"5\";A$+\"x\"" % t)
            if len(t) > 2 and rng.random() < .5:
                p.append("PRINT VAL(\"%s\")" % rng.choice([t.lower(), t + "  ", "  " + t, " " + t + " ", t.replace("E", "e+") if "E-" not in t else t, "+" + t.lstrip("-"), t + ".", t + "E", t + "x", t + " 1", "- " + t.lstrip("-"), "--" + t, "\t" + t + "\t\t"]))
        res.append(run(rng, "str", p))
    return res


def items(rng):
    """A numeric item, plainly or strangely written."""
    t = signed(rng, lit(rng.choice(SIZES[20:-20])))
    q = rng.random()
    if q < .45:
        return t
    return rng.choice(["+%s", "  %s", "%s  ", "%s   ", "\t%s", "%s\t", "%s \t ", " + %s", "+-%s", "%s.", "%sE", "%sE+", "%sE1", "%se2", "%sE+1", "%sE-1", "%sx", "%s 1", "%s.5", "x%s", "\"%s\"", "%s\"", "", " ", "0x10", "inf", "nan", "-inf", "infinity", ".", "-", "+", "-.", "+.5", "-.5", "5.", "1E400", "1E-400", "00012", "1_0", "1D3", "&H10", "1e5e5"]).replace("%s", t)


def c11_items(rng, n):
    """INPUT of numbers in any spelling, repeated until they are accepted; empty strings everywhere."""
    res = []
    for _ in range(n):
        k = rng.randint(1, 4)
        vs = [rng.choice(["A", "B", "A$", "B$", "C(2)", "D$(1)"]) for _ in range(k)]
        lines = []
        for _ in range(rng.randint(1, 5)):
            lines.append(",".join(rng.choice(["", "", "a", " a", "a ", "\"q\"", "x y", "5"]) if v.find("$") > 0 and rng.random() < .8 else items(rng) for v in vs) + rng.choice(["", "", "", ",", " ", ",5"]))
        lines = [re.sub(r"^([ \t]*)(?=\d{9})", r"\1-", l) for l in lines]    # none may be taken for a line number too large for the specification
        lines.append(",".join("1" for v in vs))
        p = ["INPUT %s%s" % (rng.choice(["", "", "\"n\";"]), ",".join(vs)), "PRINT A;B;C(2);\"/\";A$;\"/\";B$;\"/\";D$(1);\"/\";LEN(A$);LEN(B$);LEN(D$(1))", "INPUT Z$:PRINT Z$"]
        res.append(run(rng, "items", p, lines + ["z", "z"], fuel=900))
    return res


def c12_items(rng, n):
    """DATA items of numbers and strings in any spelling."""
    res = []
    for _ in range(n):
        k = rng.randint(2, 5)
        vs = [rng.choice(["A", "B", "A$", "B$", "C(2)", "D$(1)"]) for _ in range(k)]
        its = [rng.choice(["abc", " abc", "abc ", "\tabc\t", "a b", "\"q, r\"", "\" x \"", "", "5 x"]) if v.find("$") > 0 and rng.random() < .7 else rng.choice(["1", "2.5", "-3", "4E2"]) if rng.random() < .6 else items(rng).replace('"', '') for v in vs]
        sep = rng.choice([",", ",", ", ", ",\t", " ,", "\t,\t", " , "])
        d = "DATA%s%s%s" % (rng.choice([" ", " ", "\t", "  ", " \t"]), sep.join(its), rng.choice(["", "", " ", "\t", "\r", " \r", ":REM", ":REM"]))
        eol = rng.choice(["\n", "\n", "\n", "\r\n"])
        p = ["FOR I=1 TO 1", *["READ %s:PRINT %s;%s" % (v, v, "LEN(%s)" % v if "$" in v else "0") for v in vs], "NEXT:PRINT \"done\""]
        p.insert(rng.randint(0, len(p)), d)
        if rng.random() < .3:
            i = rng.randrange(len(p))
            p.insert(i, rng.choice(["RESTORE", "IF 1 THEN RESTORE %d", "IF 0 THEN RESTORE ELSE RESTORE %d", "IF A=0 THEN PRINT \"r\":RESTORE %d:PRINT \"s\"", "IF 1 THEN PRINT 1 ELSE RESTORE %d"]))
            at = 10 * (1 + rng.randrange(len(p)))
            p[i] = p[i].replace("%d", str(at))
        s = session("items", what="run", file="p.bas", files={"p.bas": eol.join(gen.number(p)) + eol}, fuel=900)
        res.append(s)
    return res


def c12_restores(rng, n):
    """RESTORE to any line, from anywhere a statement may be."""
    res = []
    for _ in range(n):
        k = rng.randint(2, 4)
        d = ["DATA " + ",".join(str(100 * i + j) for j in range(rng.randint(1, 2))) for i in range(1, k + 1)]
        w = ["PRINT \"w\"", "X=X+1", "REM"]
        lines = d + rng.sample(w, 1)
        rng.shuffle(lines)
        at = [10 * (i + 1) for i in range(len(lines))]
        m = rng.randint(2, 5)
        for _ in range(m):
            r = rng.choice(["RESTORE", "RESTORE %d" % rng.choice(at), "RESTORE %d" % rng.choice(at)])
            lines.append(rng.choice(["%s", "IF 1 THEN %s", "IF 0 THEN %s", "IF 0 THEN PRINT 0 ELSE %s", "IF 1 THEN PRINT 1 ELSE %s", "IF 1 THEN PRINT 1:%s", "IF 1 THEN IF 1 THEN %s", "FOR I=1 TO 2:%s:NEXT", "FOR I=1 TO 2:READ Q:%s:PRINT Q:NEXT", "ON 1 GOSUB 900:%s", "PRINT \"p\";:%s:PRINT", "%s:READ Z:%s".replace("%s:READ", r + ":READ"), "IF X>0 THEN %s ELSE RESTORE"]) % r)
            lines.append("READ A:PRINT A;")
            if rng.random() < .4:
                lines.append("READ B:PRINT B;")
        p = gen.number(lines) + ["890 END", "900 RETURN"]
        if rng.random() < .5:
            sc = [[l] for l in p] + [["RUN"]] + [[rng.choice(["RESTORE %d" % rng.choice(at), "IF 1 THEN RESTORE %d" % rng.choice(at), "IF 0 THEN RESTORE ELSE RESTORE %d" % rng.choice(at), "READ A:PRINT A", "RESTORE", "READ A:RESTORE %d:READ B:PRINT A;B:DATA 1,2" % rng.choice(at), "GOTO %d" % (at[-1] + 10)])] for _ in range(6)]
            res.append(session("restores", sc, fuel=900))
        else:
            res.append(run(rng, "restores", p, fuel=900))
    return res


for q, f, n in [("C02", c02_truth, 300), ("C03", c03_scaled, 500), ("C05", exact("C05"), 250), ("C06", exact("C06"), 150), ("C07", exact("C07"), 200), ("C09", exact("C09"), 200), ("C11", exact("C11"), 150),
                ("C12", exact("C12"), 250), ("C08", c08_near, 400), ("C10", c10_sizes, 300), ("C09", c09_str, 300), ("C11", c11_items, 400), ("C12", c12_items, 500), ("C12", c12_restores, 400)]:
    gen.PROPS[q].families.append((f, n))
