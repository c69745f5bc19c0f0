"""Sessions around the lengths that words, strings, numbers and lines may have."""
import gen
from gen import prop, standard
from lb import session

LENGTHS = [1, 2, 62, 63, 64, 65, 79, 80, 100, 118, 119, 120] + list(range(122, 134)) + [200, 254, 255, 256, 257, 300, 1000]


def word(n, rng):
    return "".join(rng.choice("QWXYZ") if k == 0 else rng.choice("QWXYZ0123456789") for k in range(n))


def texts(rng, n):
    """Texts with one word of so many characters."""
    w, d = word(n, rng), "".join(rng.choice("123456789") for _ in range(n))
    s = "".join(rng.choice("abc xyz.,:'") for _ in range(n - 1)) + "z" if n > 1 else "z"
    u = "".join(rng.choice("abcxyz.'") for _ in range(n))
    return ["%s=7:PRINT %s;1" % (w, w), "%s$=\"q\":PRINT %s$;2" % (w, w), "%s(3)=5:PRINT %s(3)" % (w, w), "DIM %s$(3):%s$(1)=\"r\":PRINT %s$(1)" % (w, w, w), "DEF %s(X)=X+1:PRINT %s(1)" % (w, w), "DEF F(%s)=%s*2:PRINT F(4)" % (w, w),
            "FOR %s=1 TO 2:PRINT %s;:NEXT %s" % (w, w, w), "INPUT %s$:PRINT %s$" % (w, w), "READ %s:PRINT %s:DATA 4" % (w, w),
            "PRINT \"%s\"" % s, "A$=\"%s\":PRINT LEN(A$);A$" % s, "INPUT \"%s\";A:PRINT A" % s, "PRINT \"%s\";1" % s[:-1], "PRINT \"%s" % s, "PRINT LEN(\"%s\")+1" % s, "IF \"%s\"=\"z\" THEN PRINT 1 ELSE PRINT 2" % s,
            "PRINT %s" % d, "PRINT .%s" % d, "PRINT 0%s" % ("0" * (n - 1) + "5"), "PRINT %s.5" % ("0" * n), "PRINT 1.%s" % ("0" * n), "PRINT 1E%s" % ("0" * n), "PRINT 1E-%s1" % ("0" * n), "GOTO %s" % d, "GOTO %s20" % ("0" * n), "X=%s" % d,
            "READ A$:PRINT A$;LEN(A$):DATA %s" % u, "READ A$:PRINT A$;LEN(A$):DATA \"%s\"" % s, "READ A$,B$:PRINT A$;B$:DATA 1, %s ,2" % u, "READ A:PRINT A:DATA %s" % ("0" * (n - 1) + "5"), "READ A$:PRINT A$:DATA  %s  " % u, "READ A$:PRINT LEN(A$):DATA %s%s" % (" " * n, u[:3]), "READ A$:PRINT A$;LEN(A$):DATA \"%s" % s, "READ A$:PRINT A$:DATA %s" % (u + " " * n), "DATA %s:PRINT 3" % u,
            "REM %s" % u, "PRINT 1:REM%s" % w, "PRINT%sA" % (" " * n), "A=1:%sPRINT A" % (" " * n), "GOTO %s" % w, "%s" % w, "%s 1" % w, "PRINT %s$(1)" % w, "PRINT X%s" % ("9" * n), "PRINT (%s)" % u]


def lengths(rng, n, modes, lens=LENGTHS):
    res = []
    for k in lens:
        for t in texts(rng, k):
            for m in modes:
                f = {"p.bas": "10 PRINT \"before\"\n15 %s\n20 PRINT \"after\":END\n" % t}
                if m == "run":
                    s = session("lengths", argv=["-q", "p.bas"], files=f, script=[["5"], ["x"]], fuel=200)
                elif m == "any":
                    s = session("lengths", argv=["-q", "-k", "p.bas"], files=f, script=[["5"], ["x"]], fuel=200)
                elif m == "parse":
                    s = session("lengths", argv=["--parse", "p.bas"], files=f)
                elif m == "names":
                    s = session("lengths", argv=["--list-names", "p.bas"], files=f)
                elif m == "load":
                    s = session("lengths", [["LOAD \"p.bas\""], ["LIST"], ["RUN"], ["5"], ["RENUM 100"], ["LIST"], ["SAVE \"q.bas\""], ["RUN"], ["6"], ["PRINT 9"]], files=f, fuel=200)
                else:
                    s = session("lengths", [[t], ["5"], ["15 " + t], ["LIST"], ["RUN"], ["5"], ["PRINT 9"]], fuel=200)
                res.append(s)
    rng.shuffle(res)
    return res[:n]


def l01(rng, n):
    return lengths(rng, n, ["run", "parse"])


def l05(rng, n):
    return [s for s in lengths(rng, 10 ** 6, ["run", "typed"])][:n]


def l12(rng, n):
    res = [s for s in lengths(rng, 10 ** 6, ["run", "typed", "load"]) if any("DATA" in f["text"] for f in s["files"]) or "DATA" in str(s["script"])]
    return res[:n]


def l14(rng, n):
    return lengths(rng, n, ["load"])


def l20(rng, n):
    return lengths(rng, n, ["run", "any"])


def l21(rng, n):
    return lengths(rng, n, ["names"])


def l22(rng, n):
    return lengths(rng, n, ["run", "any", "load", "typed", "names"])


for pid, f, n in (("C01", l01, 1500), ("C05", l05, 600), ("C12", l12, 700), ("C14", l14, 500), ("C20", l20, 900), ("C21", l21, 300), ("C22", l22, 1200)):
    gen.PROPS[pid].families.append((f, n))
