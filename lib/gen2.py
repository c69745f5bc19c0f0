"""Sessions for the properties about the interpreter as a whole: files, renumbering,
sessions, errors, random numbers, spelling, observation, robustness, size, memory
and interrupts."""
import itertools, json, random, re, resource
import lb, gen, mix
from lb import session, lines
from common import *
from gen import Prop, prop, prog_file, number, standard, TEXTS, edit_line, list_cmd, string_letters

# ------------------------------------------------------------------ programs made for other properties
PROGRAMS = [gen.c02_ifs, gen.c02_jumps, gen.c03_ranges, gen.c03_scramble, gen.c03_nest, gen.c04_scramble, gen.c04_tree, gen.c05_lifetimes,
            gen.c06_random, gen.c07_random, gen.c10_lists, gen.c11_inputs, gen.c12_random, mix.family, mix.family, mix.family]


def programs(rng, n, families=None):
    """(lines, script, fuel) of programs run as files."""
    fs = families or PROGRAMS
    res = []
    k = max(1, 2 * n // len(fs))
    while len(res) < n:
        for f in fs:
            for s in f(rng, k):
                if s["what"] == "run" and "\r" not in s["files"][0]["text"]:
                    res.append((s["files"][0]["text"].splitlines(), s["script"], s["fuel"]))
    rng.shuffle(res)
    return res[:n]


def one_way(rng, script):
    """The script with one alternative chosen in every slot."""
    return [[rng.choice(x)] for x in script]


def plain(p):
    """What a behaviour shows, without prompts and line numbers."""
    return p["out"].replace("> ", ""), re.findall(r"(?m)^Runtime error: .*$", p["err"])


# ------------------------------------------------------------------ C14: files
def some_program(rng, k=None):
    nums = sorted(rng.sample(list(range(1, 40)) + [100, 255, 256, 999, 1000, 32767, 32768, 65535], k or rng.randint(1, 9)))
    return [(n, rng.choice(TEXTS + ["PRINT %d;" % n] * 10)) for n in nums]


def text_of(p):
    return "".join("%d %s\n" % x for x in p)


def c14_round(rng, n):
    res = []
    for _ in range(n):
        files = {}
        if rng.random() < .5:
            files["a.bas"] = text_of(some_program(rng))
        if rng.random() < .3:
            files["b"] = text_of(some_program(rng, 12))
        nums = rng.sample(range(1, 60), 5)
        sc = [["%d %s" % x] for x in some_program(rng)] if rng.random() < .8 else []
        for _ in range(rng.randint(3, 12)):
            f = rng.choice(['"a.bas"', '"a.bas"', '"b"', '"c d"', ' "a.bas" ', '"nosuch"'])
            sc.append([rng.choice(["SAVE " + f, "SAVE " + f, "SAVE " + f, "LOAD " + f, "LOAD " + f, "load" + f, "Save" + f, "LIST", "LIST", "NEW", "RUN", edit_line(rng, nums), edit_line(rng, nums), "PRINT X", "RENUM"])])
        sc += [["SAVE \"a.bas\""], ["NEW", "10 PRINT", "RUN", "LIST"], ["LOAD \"a.bas\"", "LOAD \"b\"", "LOAD \"x\""], ["LIST"]]
        res.append(session("round", sc, files=files, fuel=300))
    return res


BADLINES = ["", " ", "PRINT 5", "-5 PRINT 5", "0 PRINT 5", "00 PRINT", "x", "\"10 x\"", " 20 PRINT 5", "\t20 PRINT 5", "4294967296 PRINT", "4294967306 PRINT", "99999999999 PRINT", "REM", "\r", "20", "20 ", "20  x", "020 PRINT 7",
            "20PRINT 8", "20\tPRINT 9", "20:PRINT 1", "65535 END", "65536 END", "20.5 PRINT", "20 PRINT 5\r", "20 caf\xe9", "20 \x01\x7f"]


def c14_files(rng, n):
    """Files with an unusual line at any place, given to the interpreter in every way."""
    res = []
    for bad in BADLINES:
        for at in range(4):
            ls = ["10 PRINT \"a\"", "30 PRINT \"b\"", "40 PRINT \"c\""]
            ls.insert(at, bad)
            for end in ("\n", ""):
                t = "\n".join(ls) + end
                if rng.random() < n / 250.0:
                    for m in ("run", "list", "names", "parse"):
                        res += prog_file("files", t, modes=(m,))
                    res.append(session("files", [["5 PRINT \"old\""], ["RUN"], ["LOAD \"p.bas\""], ["LIST"], ["RUN"], ["CONT"], ["SAVE \"q\""]], files={"p.bas": t}))
    for order in itertools.permutations(["10 PRINT 1", "20 PRINT 2", "20 PRINT 3", "30 PRINT 4"], 3):
        t = "\n".join(order) + "\n"
        res += prog_file("order", t)
        res.append(session("order", [["LOAD \"p.bas\""], ["LIST"], ["RUN"], ["15 PRINT 5"], ["SAVE \"p.bas\""], ["LIST"]], files={"p.bas": t}))
    for t in ("", "\n", "\n\n", "10\n", "10", "10 PRINT 1\n\n", "10 PRINT 1\n\n20 PRINT 2\n", "10 PRINT 1\n20 PRINT 2\n\n\n", "10 PRINT 1\r\n20 PRINT 2\r\n", "10 \"\n20 PRINT 3"):
        for m in ("run", "list", "names", "parse"):
            res += prog_file("whole", t, modes=(m,))
        res.append(session("whole", [["1 PRINT 0"], ["LOAD \"p.bas\""], ["LIST"], ["RUN"], ["SAVE \"q\""]], files={"p.bas": t}))
    for m in ("run", "list", "names", "parse", "code"):
        res.append(session("missing", what=m, file="nosuch.bas"))
    return res


def c14_lengths(rng, n):
    res = []
    for k in (1, 2, 100, 125, 126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 508, 509, 510, 511, 512, 600, 1024):
        for at in (0, 1, 2):
            l = "%d REM " % (10 * at + 10) + "".join(rng.choice("abcxyz \"':,") for _ in range(max(0, k - 8))) + "z"
            ls = ["10 PRINT \"a\"", "20 PRINT \"b\"", "30 PRINT \"c\""]
            ls[at] = l
            for end in ("\n", ""):
                t = "\n".join(ls) + end
                res += prog_file("lengths", t, modes=("list",))
                res.append(session("lengths", [["5 PRINT \"old\""], ["LOAD \"p.bas\""], ["SAVE \"q\""], ["NEW"], ["LOAD \"q\""], ["RUN"], ["LIST"]], files={"p.bas": t}))
    # long lines that are executed
    for k in (60, 124, 126, 250, 300, 700):
        t = "10 A=1%s:PRINT A\n20 PRINT \"b\"\n" % ("+1" * k)
        res += prog_file("lengths", t, modes=("run", "list", "names"))
        res.append(session("lengths", [["LOAD \"p.bas\""], ["RUN"], ["SAVE \"q\""], ["NEW"], ["LOAD \"q\""], ["LIST"], ["RUN"]], files={"p.bas": t}))
    # null characters
    for t in ("10 PRINT 1\0\n20 PRINT 2\n", "10 PRINT 1\n\0\n20 PRINT 2\n", "10 PRINT 1\n20 PRINT\0 2", "10 PRINT 1\n20 PRINT 2\0", "10\0 PRINT 1\n", "\0", "10 PRINT 1\n\0" + "20 PRINT 2\n", "1\0" + "0 PRINT 1\n20 PRINT 2\n", "10 PRINT \"\0\n20 PRINT 2\n30 PRINT 3\n"):
        res += prog_file("nulls", t, modes=("run", "list"))
        res.append(session("nulls", [["5 PRINT \"old\""], ["LOAD \"p.bas\""], ["LIST"], ["RUN"]], files={"p.bas": t}))
    return res


def c14_names(rng, n):
    res = []
    args = ["", " ", "\"", "\"\"", "\" \"", "a.bas", "\"a.bas", "a.bas\"", "\"a.bas\" x", "\"a.bas\"\"b\"", "\"a.bas\"  ", "'a.bas'", "\"a.bas\";", "\"A.BAS\"", "\"nodir/x\"", "\".\"", "\"/dev/full\"", "\"./nodir/\"", "\"a.bas \"", "(\"a.bas\")", "\"" + "n" * 60 + "\"", "5", "\"5\""]
    for a in args:
        for c in ("LOAD", "SAVE") if "full" not in a else ("SAVE",):
            for prog in (["10 PRINT 1"], []):
                res.append(session("names", [[p] for p in prog] + [[c + " " + a, c + a], ["LIST"], ["RUN"], ["SAVE \"z\""]], files={"a.bas": "20 PRINT 2\n"}))
    for k in (1, 2, 3, 40, 500):     # small programs only fail when the file is closed
        p = ["%d PRINT \"%s\"" % (10 * i + 10, "x" * 60) for i in range(k)]
        res.append(session("full", [["LOAD \"p\""], ["SAVE \"/dev/full\""], ["LIST"], ["SAVE \"q\""], ["SAVE \"/dev/full\""], ["PRINT 1"]], files={"p": "\n".join(p) + "\n"}))
    return res


def c14_many(rng, n):
    """More LOADs and SAVEs than files can be open."""
    f = {"p": "10 PRINT 1\n20 PRINT 2\n", "bad": "10 PRINT 3\nx\n", "e": "10 PRINT 1\n\n"}
    res = []
    for c in ("LOAD \"p\"", "LOAD \"bad\"", "LOAD \"e\"", "SAVE \"q\"", "SAVE \"/dev/full\"", "SAVE \"no/dir\"", "LOAD \"nosuch\""):
        res.append(session("many", [["5 PRINT 0"], [[c] * 140], ["LOAD \"p\""], ["LIST"], ["SAVE \"r\""], ["RUN"]], files=f))
    return res


def c14_big(rng, n):
    res = []
    for k in (127, 128, 129, 255, 256, 257, 400):
        p = ["%d PRINT %d;" % (3 * i + 1, i) for i in range(k)]
        t = "\n".join(p) + "\n"
        res += prog_file("big", t, modes=("run", "list"))
        res.append(session("big", [["LOAD \"p\""], ["LIST %d-" % (3 * k - 9)], ["SAVE \"q\""], ["NEW"], ["LOAD \"q\""], ["2 PRINT \"in\";"], ["%d PRINT \"end\"" % (3 * k + 5)], ["SAVE \"p\""], ["RUN"]], files={"p": t}))
    return res


# ------------------------------------------------------------------ C15: RENUM
def c15_program(rng, absent=False, inputs=False):
    m = rng.randint(3, 9)
    nums = sorted(rng.sample([1, 2, 3, 5, 7, 10, 11, 15, 20, 25, 30, 40, 50, 60, 70, 80, 90, 100, 110, 150, 200, 1000, 10000, 65000], m))

    def t():
        return str(rng.choice(nums) if not absent or rng.random() < .9 else rng.choice([4, 33, 99, 12345]))
    sp = lambda: rng.choice([" ", " ", " ", "  ", "\t", ""])
    p = []
    for x in nums:
        st = ["K=K+1:IF K>%d THEN END" % rng.randint(9, 14)] if rng.random() < .9 else ["K=K+1"]
        if st[0] == "K=K+1":
            st = ["K=K+1:IF K<12 THEN PRINT \"g\"; ELSE END"]
            p.append("%d %s" % (x, st[0]))
            continue
        p.append("%d K=K+1:IF K<14 THEN PRINT %d; ELSE END" % (x, len(p)))
    body = []
    for i, x in enumerate(nums):
        st = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            st.append(rng.choice([
                "GOTO " + t(), "GOSUB " + t(), "goto " + t(), "IF K=%d THEN %s" % (rng.randint(1, 9), t()), "IF K=%d THEN GOTO %s" % (rng.randint(1, 9), t()), "IF K>%d THEN %s ELSE %s" % (rng.randint(1, 9), t(), t()),
                "IF K>%d THEN GOTO %s ELSE GOSUB %s" % (rng.randint(1, 9), t(), t()), "IF K=%d THEN PRINT %s; ELSE GOTO %s" % (rng.randint(1, 5), t(), t()), "ON K GOTO %s" % ",".join(t() for _ in range(rng.randint(1, 4))),
                "ON K-3 GOSUB %s" % (" , ".join(t() for _ in range(rng.randint(1, 4)))), "RESTORE " + t(), "RESTORE", "READ A$:PRINT A$;", "PRINT %s;" % t(), "PRINT \"GOTO %s\";" % t(), "A=%s" % t(), "RETURN",
                "IF K=%s THEN RESTORE %s" % (t(), t()), "FOR I=%s TO %s" % (t(), t()), "ON K GOTO %s:PRINT %s;" % (t(), t()), "IF K=2 THEN RETURN ELSE IF K=3 THEN %s ELSE %s" % (t(), t())]))
        if rng.random() < .25:
            st.append(rng.choice(["REM GOTO %s THEN %s" % (t(), t()), "DATA GOTO %s,\"THEN %s\",%s, ELSE %s" % (t(), t(), t(), t()), "DATA %s" % t()]))
        body.append("%d K=K+1:IF K<15 THEN %s:%s" % (x, 'PRINT "%s";' % string_letters[i], ":".join(st)) if rng.random() < .2 and not any("ELSE" in q for q in st) else "%d %s" % (x, ":".join(st)))
    return nums, [b for b in body if len(b) < 110]


def loop_guard(nums, body):
    """Every line counts, so that the program ends."""
    return ["%s Z=Z+1:IF Z>25 THEN END" % nums[0] if False else b for b in body]


RARGS = ["", "", " ", "100", "100", "10", "1", "1000", "100,20", "50,20,5", "100,30,100", "5,5,5", "10,1,10", "100,,", "100,,5", ",20", ",,3", ",", "200,100,1", "20000,10,1", "100,50", "100,20,0", "60000,1,5000", "65535", "65526", "65000,1,100", "0", "0,10",
         "10,20,1", "15,30", "7,100", "100,99999", "100x", "x", "100 20", "-5", "100,-1", "100,20,5,6", "10 ,1", "1e2", "\"5\"", "65536", "70000", "199999999"]


def c15_random(rng, n):
    res = []
    for _ in range(n):
        nums, body = c15_program(rng, absent=rng.random() < .4)
        body = ["%d K=K+1:%s" % tuple([int(b.split(" ", 1)[0]), b.split(" ", 1)[1]]) for b in body]
        a = rng.choice(RARGS) if rng.random() < .8 else "%d,%d,%d" % (rng.choice(nums + [1, 500]), rng.choice(nums), rng.choice([1, 2, 5, 10, 100]))
        w = rng.choice(["RENUM", "RENUM", "RENUM", "RENUMBER", "renum"])
        sc = [[p] for p in body]
        if rng.random() < .4:
            sc.append(["RUN"])
        sc += [["%s %s" % (w, a)], ["LIST"]]
        j = rng.choice(nums)
        sc.append([["RUN"], ["GOTO %s" % rng.choice(["10", "20", "100", "110", str(j)])], ["CONT"]])
        if rng.random() < .5:
            sc += [["PRINT K"], ["RENUM", "RENUM %s" % rng.choice(RARGS), "GOSUB 100:PRINT K"], ["LIST"], ["RESTORE 100:READ A$:PRINT A$", "RUN"]]
        res.append(session("random", sc, fuel=220, any=rng.random() < .15))
    return res


def c15_same(rng, n):
    """A program before and after RENUM does the same."""
    res = []
    for g in range(n):
        nums, body = c15_program(rng)
        body = ["%s K=K+1:IF K>20 THEN END ELSE %s" % tuple(b.split(" ", 1)) if "ELSE" not in b and "THEN" not in b else "%s K=K+1:%s" % tuple(b.split(" ", 1)) for b in body]
        if len(body) < len(nums):
            continue
        a = rng.choice(["", "100", "1,1,1", "1000,1,7", "50,%d,1" % nums[0], "20000,%d,3" % nums[len(nums) // 2], "65400,%d,2" % nums[-1]])
        grp = dict(group="same%d" % g, view=plain, own=len(nums))
        res.append(session("same", [[p] for p in body] + [["RUN"], ["PRINT K;I;A$"]], fuel=300, **grp))
        res.append(session("same", [[p] for p in body] + [["RENUM " + a], ["RUN"], ["PRINT K;I;A$"]], fuel=300, **dict(grp, own=len(nums) + 1)))
        res.append(session("same", [[p] for p in body] + [["RENUM " + a], ["RENUM"], ["RENUM 7,0,13"], ["RUN"], ["PRINT K;I;A$"]], fuel=300, **dict(grp, own=len(nums) + 3)))
    return res


def c15_forms(rng, n):
    """Each kind of reference, in all its spellings."""
    res = []
    stm = ["GOTO {0}", "GOSUB {0}", "goto {0}", "GoSub\t{0}", "GOTO   {0}:PRINT {0}", "IF K THEN {0}", "IF K THEN {0} ELSE {1}", "IF K=1 THEN GOTO {0} ELSE GOSUB {1}", "IF K={0} THEN PRINT {0} ELSE GOTO {1}", "ON K GOTO {0}", "ON K GOTO {0},{1},{2}", "ON K GOSUB {0} , {1} ,{2}:GOTO {1}",
           "RESTORE {0}", "RESTORE {0}:READ A", "RESTORE", "PRINT {0},{1}", "A={0}:GOTO {1}:B={2}", "REM GOTO {0}", "GOTO {0}:REM {1}", "PRINT \"GOTO {0}\":GOTO {1}", "DATA {0},GOTO {1},\"{2}\"", "DATA {0}:GOTO {1}", "IF K THEN IF A THEN {0} ELSE {1}", "IF K THEN PRINT 1 ELSE IF A THEN {0}",
           "IF K THEN RESTORE {0}", "GOTO {0} REM", "GOTO 0{0}", "GOTO 000{0}", "GOTO {0}.0", "GOTO {0}.5", "GOTO {0}E0", "GOTO K", "GOTO", "GOTO 99", "GOTO 99:GOTO {0}", "ON K GOTO 99,{0},98,{1}", "IF K THEN 99 ELSE {0}", "ON K GOTO {0},", "ON K GOTO ,{0}", "GOTO {0},{1}", "FOR I={0} TO {1} STEP {2}",
           "INPUT \"GOTO {0}\";A:GOTO {0}", "DEF F(X)={0}:GOTO {0}", "A$=\"\":GOTO {0}", "PRINT \"open GOTO {0}", "GOTO {0}:foo {1} @ GOTO {2}", "?{0}:GOTO {0}", "IF K THEN:GOTO {0}", "ELSE {0}", "THEN {0}", "GOTO-{0}", "GOTO {0}+{1}", "RESTORE {0},{1}", "X=1:IF X=1 THEN {0} ELSE 99", "IFK THEN {0}"]
    for s in stm:
        for trio in ((10, 20, 30), (30, 10, 20), (5, 5, 5)):
            for a in ("", "100,20", "7,,3", "65000", "1,1,1"):
                if rng.random() < n / 160.0:
                    sp = s.format(*trio)
                    res.append(session("forms", [["5 K=2"], ["10 PRINT \"t\":END"], ["20 PRINT \"u\":RETURN"], ["30 PRINT \"w\":DATA 5"], ["40 " + sp], ["RENUM " + a], ["LIST"], ["GOTO 50", "GOTO 40", "RUN"], ["20"], ["RENUM"], ["LIST"]], fuel=120, any=rng.random() < .2))
                    if rng.random() < .3:
                        cr = re.sub(r" ", "", sp)
                        res.append(session("forms-crunched", [["5K=2"], ["10PRINT\"t\":END"], ["20PRINT\"u\":RETURN"], ["30PRINT\"w\":DATA5"], ["40" + cr] if not cr[:1].isdigit() else ["40 " + cr], ["RENUM " + a], ["LIST"], ["GOTO50", "RUN"]], fuel=120, any=True))
    return res


def c15_run(rng, n):
    """RENUM while a program is stopped; jumps typed afterwards."""
    res = []
    acts = ["RENUM", "RENUM 100", "RENUM 100,20", "RENUM 5,30,5", "RENUM 10,20", "RENUM 1,1,1", "CONT", "GOTO 20", "GOTO 30", "GOTO 100", "GOTO 120", "GOSUB 40", "GOSUB 130", "RESTORE 50:READ A:PRINT A", "RESTORE 140:READ A:PRINT A", "READ A:PRINT A", "RETURN", "NEXT", "RUN", "LIST", "35 PRINT \"new\"", "30", "PRINT FNA(2)", "IF 1 THEN 120", "ON 1 GOTO 100"]
    for _ in range(n):
        p = ["10 DEF FNA(X)=X*2:READ A:FOR I=1 TO 2", "20 GOSUB 40:PRINT \"i\";I;:NEXT", "30 PRINT \"end\":GOTO 60", "40 PRINT \"sub\";:STOP", "45 RETURN", "50 DATA 7,8", "60 IF A=7 THEN PRINT \"bye\":END ELSE 30"]
        p[-1] = "60 IF A=7 THEN PRINT \"bye\":END ELSE STOP"
        res.append(session("stopped", [[x] for x in p] + [["RUN"]] + [[rng.choice(acts)] for _ in range(rng.randint(2, 6))] + [rng.sample(acts, 3)], fuel=200))
    return res


def c15_limits(rng, n):
    res = []
    for k in (1, 2, 5, 6):
        for a in ["65530,1,1", "65535,1,1", "65534,1,1", "65530,1,2", "65531,%d,1" % (10 * k), "65535,%d" % (10 * k), "65536,%d" % (10 * k), "%d,%d,1" % (10 * k - 10, 10 * k), "%d,%d,1" % (10 * k - 9, 10 * k), "1,1,65535", "1,1,40000", "1,1,0", "0,1,1", "1,0,1", "5,999,1", "10,10,10", "9,10,1", "10,11,10"]:
            res.append(session("limits", [["%d PRINT %d:IF K=0 THEN K=1:GOTO 10" % (10 * i, i)] for i in range(1, k + 1)] + [["RENUM " + a], ["LIST"], ["RUN"], ["RENUM 10"], ["LIST"]], fuel=300))
    for a in RARGS:
        res.append(session("args", [["10 PRINT 1"], ["20 GOTO 30"], ["30 PRINT 3"], ["RENUM " + a, "RENUM" + a], ["LIST"], ["RUN"]], fuel=100))
        res.append(session("args-empty", [["RENUM " + a], ["LIST"], ["10 PRINT 5"], ["NEW"], ["RENUM " + a], ["RUN"]], fuel=100))
    # a line that becomes longer by its references
    for k in (80, 100, 110, 118):
        w = "x" * (k - 20)
        res.append(session("longer", [["1 PRINT \"%s\":GOTO 2" % w], ["2 ON 2 GOTO 1,3,1,2"], ["3 IF 1 THEN 4 ELSE 1"], ["4 END"], ["RENUM 60000"], ["LIST"], ["RUN"], ["RENUM 1,1,1"], ["LIST"]], fuel=100))
    res += [session("longer", [["LOAD \"p\""], ["RENUM 10000"], ["LIST"], ["SAVE \"p\""], ["LOAD \"p\""], ["RUN"]], files={"p": "1 ON 3 GOTO %s\n2 PRINT 2\n3 PRINT 3\n" % ",".join("123"[i % 3] for i in range(k))}) for k in (20, 60, 100, 118, 250)]
    return res


# ------------------------------------------------------------------ C16: one environment
CONT_PROGS = [
    ["10 X=1:PRINT \"a\";:STOP:PRINT \"b\";X", "20 FOR I=1 TO 3:STOP:PRINT I;X;:NEXT", "30 GOSUB 60:PRINT \"c\";", "40 READ A,B:STOP:READ C:PRINT A;B;C", "50 END", "60 STOP:PRINT \"d\";:RETURN", "70 DATA 1,2,3,4"],
    ["10 IF X THEN STOP:PRINT \"t\" ELSE PRINT \"f\":STOP:PRINT \"f2\"", "20 X=1-X:K=K+1:IF K<4 THEN 10", "30 DEF F(A)=A+X:STOP", "40 PRINT F(2):DIM D(3):D(1)=5:STOP:PRINT D(1);D(2)"],
    ["10 ON X GOSUB 100,200:PRINT \"r\";:STOP:X=X+1:IF X<4 THEN 10", "20 END", "100 STOP:PRINT 100;:GOSUB 200:RETURN", "200 FOR J=1 TO 2:PRINT J;:NEXT:RETURN"],
    ["10 INPUT A:STOP", "20 PRINT \"x\",:STOP:PRINT \"y\":A$=A$+\"k\":STOP", "30 PRINT A$;A:STOP"],
    ["10 FOR I=1 TO 2:FOR J=1 TO 2", "20 STOP", "30 PRINT I;J;:NEXT J,I", "40 PRINT \"done\":STOP"],
    ["10 STOP:STOP", "20 REM", "30 STOP", "40 X=X+1:GOTO 10"],
    ["10 GOSUB 20", "20 K=K+1:STOP:GOSUB 30", "30 IF K>5 THEN RETURN ELSE GOTO 20"],
    ["10 READ A:PRINT A;:STOP:GOTO 10", "20 DATA 1,2", "30 DATA 3"],
]
CONT_ACTS = ["CONT", "CONT", "CONT", "CONT", "RUN", "X=X+1", "X=0:K=0", "PRINT X;K;I;J;A;A$", "PRINT F(3);D(1)", "NEXT", "NEXT I", "RETURN", "GOTO 20", "GOTO 30", "GOSUB 20:PRINT \"back\"", "FOR I=5 TO 6:PRINT I;:NEXT", "FOR Q=1 TO 2", "NEXT Q", "READ A:PRINT A", "RESTORE",
             "READ A:PRINT A:DATA 9", "DEF F(Z)=Z*10", "DIM D(5)", "D(2)=8", "CLEAR", "STOP", "END", "PRINT 1/0;LOG(0)", "foo", "PRINT (", "25 PRINT \"new\";", "40", "NEW", "RENUM", "COMPILE", "LIST 10", "SAVE \"s\"", "LOAD \"s\"", "A$=\"z\"", "INPUT A", "PRINT \"p\";", "GOTO 99", "IF X THEN CONT", "?X:STOP:?X",
             "HELP", "", "0 x", "LOAD \"nosuch\"", "LIST", "RUN x", "CONT x", "GOSUB 20", "LET X=5:GOTO 10", "ON 1 GOTO 20", "999", "998 REM"]


def c16_cont(rng, n):
    res = []
    for _ in range(n):
        p = rng.choice(CONT_PROGS)
        acts = [rng.choice(CONT_ACTS) for _ in range(rng.randint(3, 12))]
        if rng.random() < .6:   # mostly what does not end it
            acts = [a for a in acts if a not in ("NEW", "CLEAR", "RENUM", "LOAD \"s\"", "RUN")]
        sc = [[x] for x in p] + [["RUN"]] + [[a] for a in acts] + [["CONT"], rng.sample(CONT_ACTS, 2), ["CONT"], ["PRINT X;K;I;J;A;A$"], ["CONT"]]
        res.append(session("cont", sc, fuel=150, trace=rng.random() < .2))
    return res


def c16_orders(rng, n):
    """Every pair of things done between STOP and CONT."""
    acts = sorted(set(CONT_ACTS))
    pairs = [(a, b) for a in acts for b in acts]
    res = []
    for a, b in rng.sample(pairs, min(n, len(pairs))):
        p = rng.choice(CONT_PROGS[:5])
        res.append(session("pairs", [[x] for x in p] + [["RUN"], [a], [b], ["CONT"], ["PRINT X;K;I;J;A;A$"], ["CONT"]], fuel=120))
    return res


def c16_fresh(rng, n):
    """What is left of loops, returns and DATA after each change of the program."""
    res = []
    ch = ["15 REM", "15", "10 X=5:STOP", "20 STOP", "NEW", "RENUM", "RENUM 10,10,10", "LOAD \"s\"", "LOAD \"nosuch\"", "COMPILE", "RUN", "SAVE \"t\"", "LIST", "CLEAR", "999", "foo", "PRINT 1/0;ASC(CHR$(-1))", "0 REM", "70000 REM", "STOP", "END", "GOTO 99"]
    for c in ch:
        for probe in ("NEXT", "NEXT I", "RETURN", "READ A:PRINT A", "CONT", "PRINT X;I;D(1);F(1)", "GOTO 30", "GOSUB 50", "RUN"):
            if rng.random() < n / 200.0:
                p = ["10 X=7:DIM D(4):D(1)=3:DEF F(Y)=Y+X:READ A", "20 FOR I=1 TO 3:GOSUB 50", "30 PRINT \"n\";I:NEXT", "40 END", "50 STOP:PRINT \"s\";:RETURN", "60 DATA 1,2,3,4,5"]
                res.append(session("fresh", [[x] for x in p] + [["SAVE \"s\""], ["RUN"], [c], [probe], ["CONT", "PRINT X;I;A", "NEXT", "RETURN"], [probe]], fuel=200))
    return res


def c16_whole(rng, n):
    return mix.sessions(rng, n, "whole", stop=.4)


G16 = [
    (["10 X=X+1:IF X>2 THEN X=0", "20 STOP", "30 GOTO 10"], ["CONT", "RUN", "X=2", "PRINT X", "GOTO 20", "STOP", "15 X=1", "15", "30", "30 GOTO 10", "NEW", "CLEAR", "END"]),
    (["10 FOR I=1 TO 2", "20 STOP", "30 NEXT", "40 GOSUB 60", "50 END", "60 STOP", "70 RETURN"], ["CONT", "RUN", "NEXT", "RETURN", "I=1", "GOTO 40", "GOTO 20", "PRINT I", "CLEAR", "FOR J=1 TO 1:NEXT J"]),
    (["10 READ A:STOP", "20 GOTO 10", "30 DATA 1,2", "40 DATA 3"], ["CONT", "RUN", "RESTORE", "RESTORE 40", "READ B:PRINT B", "READ B:PRINT B:DATA 5,6", "RESTORE 35", "GOTO 20", "20 END", "20 GOTO 10", "40", "40 DATA 3"]),
    (["10 DEF F(X)=X+Y", "20 STOP", "30 PRINT F(1):STOP"], ["CONT", "RUN", "PRINT F(2)", "Y=1", "Y=0", "DEF F(Q)=Q*2", "PRINT F(1/0)", "PRINT F(LOG(0))", "CLEAR", "X=3", "PRINT X", "10 DEF F(X)=X+Y", "10 REM", "DEF F(Z)=LOG(Z)", "PRINT 1+F(0)"]),
    (["10 GOSUB 20", "20 K=1:STOP", "30 RETURN"], ["CONT", "RUN", "RETURN", "GOSUB 20", "GOTO 10", "GOTO 30", "K=0", "GOSUB 99", "GOSUB 30"]),
    (["10 DIM A(2)", "20 STOP", "30 A(1)=A(1)+1:IF A(1)<3 THEN 20"], ["CONT", "RUN", "A(1)=0", "A(2)=1", "A(3)=1", "PRINT A(1);A(2)", "DIM A(1)", "DIM A(2)", "CLEAR", "A(1,1)=2"]),
]


def c16_graph(rng, n):
    return [session("graph", [[x] for x in p], alphabet=a, depth=200, fuel=400) for p, a in G16], "Graph.cfg"


# ------------------------------------------------------------------ C17, C18: errors
# statements that fail when executed: (statement, what must come first, lines for INPUT)
FAILS = [
    "PRINT LOG(0)", "PRINT 1;2;LOG(-1);3", "A=1+(2+(3+LOG(0)))", "PRINT \"a\";\"b\"+CHR$(-1)", "PRINT CHR$(256)", "PRINT CHR$(1.5)", "A$=\"x\"+(\"y\"+MID$(\"abc\",5,1))", "A$=LEFT$(\"abc\",-1)", "A$=RIGHT$(\"abc\",1.5)", "A=VAL(\"x\")", "A=VAL(\"\")", "A=VAL(\"1x\")",
    "PRINT NOT 1.5", "PRINT 1 AND 2.5", "PRINT 3000000000 OR 1", "GOTO 9", "GOSUB 9", "IF 1 THEN 9", "IF 0 THEN 10 ELSE 9", "ON 1 GOTO 9", "ON 1 GOSUB 9", "ON 1.5 GOTO 10", "ON -1 GOTO 10", "ON 1.5 GOSUB 10", "RESTORE 9", "NEXT", "NEXT Q", "NEXT I,Q", "RETURN", "READ Z", "READ Z,Z$",
    "D(11)=1", "D(-1)=1", "D(1.5)=1", "D(1,2)=1", "PRINT D(99)", "PRINT D(2+LOG(0))", "DIM E(-1)", "DIM E(70000)", "DIM E(300,300)", "DIM E(1.5)", "E$(11)=\"x\"", "PRINT E$(0,99)", "PRINT FNU(1)", "PRINT FNN(1)", "PRINT 5+FNE(0)", "PRINT FNE(1)+FNE(0)", "PRINT FNS$(-1)", "PRINT \"s\"+FNS$(-1)", "PRINT FNA(FNE(0))", "PRINT FNI(2)",
    "DEF G(X)=X:PRINT G(LOG(0))", "PRINT TAB(-1)", "PRINT SPC(-1)", "PRINT TAB(1.5)", "PRINT \"ab\";SPC(0.5);\"c\"", "RANDOMIZE -1", "RANDOMIZE 1.5", "A$=B9$+B9$", "PRINT B9$+\"x\"+(\"y\"+B9$)", "PRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(10+(11+(12+(13+(14+(15+(16+17)))))))))))))))",
    "PRINT \"1\"+(\"2\"+(\"3\"+(\"4\"+(\"5\"+(\"6\"+(\"7\"+(\"8\"+\"9\")))))))", "FOR I=1 TO LOG(0)", "FOR I=LOG(0) TO 2", "FOR I=1 TO 2 STEP LOG(0)", "A=SQR(4)+LOG(0)", "A=ABS(INT(LOG(0)))", "A=LEN(CHR$(999))", "A=ASC(MID$(\"\",1,1))", "IF LOG(0) THEN PRINT 1 ELSE PRINT 2", "IF A$=CHR$(-1) THEN PRINT 1", "DIM F9(LOG(0))", "READ D(99)",
    "D(3)=LOG(0)", "E$(2)=CHR$(-1)", "LET A=D(1)+D(2)+D(33)", "PRINT STR$(LOG(0))", "PRINT \"x\"=CHR$(300)", "PRINT 5,LOG(0),6", "A=D(D(D(99)))",
]
SETUP_ERR = ["1 B9$=\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\":B9$=B9$+B9$", "2 DEF FNE(X)=1+2*LOG(X)", "3 DEF FNS$(X)=\"q\"+CHR$(X)", "4 DEF FNN(X)=1+FNA(X)", "5 DEF FNA(X)=X*X", "6 DEF FNI(X)=D(10*X)"]
PROBES = ["PRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(10+(11+(12+(13+(14+(15+16))))))))))))))", "PRINT \"1\"+(\"2\"+(\"3\"+(\"4\"+(\"5\"+(\"6\"+(\"7\"+\"8\"))))))", "FOR A1=1 TO 1:FOR A2=1 TO 1:FOR A3=1 TO 1:FOR A4=1 TO 1:FOR A5=1 TO 1:FOR A6=1 TO 1:FOR A7=1 TO 1:FOR A8=1 TO 1:PRINT \"loops\"",
          "NEXT A8:NEXT A7:NEXT A6:NEXT A5:NEXT A4:NEXT A3:NEXT A2:NEXT A1:PRINT \"unwound\"", "GOSUB 800", "PRINT FNA(3);FNS$(65);FNE(1)", "PRINT X;A;A$;I;Z;Z$;D(1)", "RETURN", "NEXT", "PRINT ,\"c\"", "RUN", "LIST 800-", "X=X+1:PRINT X", "CONT", "READ Z:PRINT Z", "GOTO 800", "A$=\"n\":D(3)=4:PRINT A$;D(3)"]
TAIL_ERR = ["790 END", "800 W=W+1:IF W<8 THEN GOSUB 800", "810 PRINT \"w\";W;:W=W-1:RETURN"]
BADCMDS = ["LIST x", "LIST 10-x", "LOAD", "LOAD x", "SAVE", "SAVE \"a\" x", "NEW x", "BYE x", "RENUM x", "RENUM 0", "RENUM 65530,1,1000", "0 PRINT", "99999999999 PRINT", "foo", "PRINT (", "\"", "PRINT \"", "GOTO", "10 20 30", "LOAD \"nosuch\"", "SAVE \"no/dir\"", "z" * 130, "CONT", "COMPILE x", "#", "RUN 5", "A$=1", "1=2", ")", "ELSE", "FOR", "IF 1", "x" * 300,
           "DIM LEN(1)", "DEF STR$(X)=1", "LEN=1", "F(1)=1:DEF F(X)=1", "PRINT @", "REM", "DATA \"x", "INPUT", "NEXT 5", "\x7f", "'", "?\xe9"]


def c17_errors(rng, n):
    """Each error many times, then what must still work."""
    res = []
    for f in FAILS:
        for how in ("imm", "prog", "mixed"):
            if rng.random() > n / 150.0:
                continue
            k = rng.choice([1, 2, 5, 9, 17, 20])
            sc = [[x] for x in SETUP_ERR + TAIL_ERR]
            if how == "imm":
                sc += [["RUN"]] + [[[f] * k]]
            elif how == "prog":
                sc += [["20 X=X+1:PRINT \"ab\";:" + f]] + [[["RUN"] * k]]
            else:
                sc += [["20 X=X+1"], ["25 FOR J=1 TO 3:GOSUB 30:NEXT:END"], ["30 IF J<2 THEN RETURN ELSE " + f if "IF" not in f else "30 " + f]] + [[[x for _ in range(k) for x in ("RUN", rng.choice(["PRINT X", f, "NEXT", "RETURN", "GOTO 30"]))]]]
            res.append(session("errors", sc + [[p] for p in rng.sample(PROBES, 6)] + [rng.sample(PROBES, 2)], fuel=1500))
    return res


def c17_mixed(rng, n):
    """Failing and succeeding commands in any order."""
    res = []
    for _ in range(n):
        sc = [[x] for x in SETUP_ERR + TAIL_ERR] + [["20 " + rng.choice(FAILS)], ["RUN"]]
        for _ in range(rng.randint(8, 25)):
            r = rng.random()
            if r < .3:
                sc.append([rng.choice(FAILS)])
            elif r < .45:
                sc.append([rng.choice(BADCMDS)])
            elif r < .55:
                sc.append(["%d %s" % (rng.choice([20, 30, 40]), rng.choice(FAILS))])
            elif r < .65:
                sc.append([rng.choice(["RUN", "GOTO 20", "GOTO 30", "GOSUB 20", "CONT", "INPUT Z,Z$:PRINT Z", "FOR I=1 TO 3:" + rng.choice(FAILS)])])
            else:
                sc.append([rng.choice(PROBES)])
        res.append(session("mixed", sc, fuel=800))
    return res


def c17_whole(rng, n):
    return mix.sessions(rng, n, "whole", stop=.1, more=PROBES + FAILS_WHOLE + BADCMDS[:20])


def c17_commands(rng, n):
    res = []
    for c in BADCMDS:
        k = rng.choice([1, 3, 20, 40])
        for after in (["RUN"], ["LIST"], ["PRINT X;A$"], ["CONT"]):
            if rng.random() < n / 120.0:
                res.append(session("commands", [["10 X=X+1:A$=A$+\"s\":PRINT X;:STOP:PRINT \"on\""], ["20 PRINT A$"], ["RUN"], [[c] * k], after, ["PRINT 5"], ["CONT"], ["LIST"], ["BYE"], ["PRINT 6"]], fuel=300))
    return res


def c17_long(rng, n):
    """Lines longer than the interpreter reads at once: none of it is executed."""
    res = []
    for k in (125, 126, 127, 128, 129, 130, 200, 252, 253, 254, 255, 256, 257, 380, 381, 400, 1000):
        for head in ("PRINT \"", "10 PRINT \"", "10 REM ", "LIST ", "RUN ", "X=5:REM ", "NEW"):
            t = head + "P" * (k - len(head) - 20) + ":PRINT 1:NEW:20 END "
            t = t[:k]
            if rng.random() < .5:
                t = t[:-1] + "\""
            res.append(session("long", [["10 PRINT \"ten\""], [t], ["PRINT X"], ["LIST"], ["RUN"], [[t, t]], ["PRINT 2"]], fuel=120))
    return res


def c17_ends(rng, n):
    """How a session ends."""
    res = []
    for e in ("BYE", "bye", "Bye ", " BYE", "BYE x", "BYE\0", "PRINT 1\0", "10 PRINT 1\0", "RUN\0", "x\0", "INPUT A\0", "INPUT A", "LINE INPUT A$\0", "CONT\0", "", "STOP", "END", "LISTP", "PRINT LOG(0)\0", "GOTO 10\0"):
        for before in ([], ["RUN"], ["PRINT LOG(0)"], ["FOR I=1 TO 2"], ["INPUT B", "5"]):
            res.append(session("ends", [["10 PRINT \"x\":INPUT C:STOP:PRINT C"]] + [[b] for b in before] + [[e], ["PRINT 7"]][:1 if e.endswith("\0") else 2], fuel=100))
    return res


G17 = [
    (["10 DEF FNE(X)=LOG(X)", "20 FOR I=1 TO 2", "30 GOSUB 50", "40 NEXT:END", "50 PRINT FNE(Y);", "60 RETURN"],
     ["RUN", "Y=1", "Y=0", "PRINT FNE(0)", "PRINT 1+(2+FNE(0))", "NEXT", "RETURN", "GOTO 40", "CONT", "PRINT (", "GOTO 9", "GOSUB 50", "PRINT I;Y", "READ Q"]),
    (["10 INPUT A:PRINT A", "20 D(A)=1", "30 PRINT \"ok\""], [["RUN", "5"], ["RUN", "x", "99"], ["INPUT D(20)", "4"], ["INPUT A,D(A)", "1", "2,3"], "PRINT D(5);D(2);A", "CLEAR", "GOTO 20", "CONT", ["INPUT A", "-1"], "A=3"]),
]


def c17_graph(rng, n):
    return [session("graph", [[x] for x in p], alphabet=a, depth=200, fuel=400) for p, a in G17], "Graph.cfg"


WHERE = [
    # how the failing statement is reached; {0}
    ["10 PRINT \"a\";:{0}:PRINT \"n\""], ["10 PRINT \"a\"", "20 {0}", "30 PRINT \"n\""], ["10 GOTO 30", "20 PRINT \"n\"", "30 PRINT \"b\";:{0}:PRINT \"n\"", "40 PRINT \"n\""], ["10 IF 1 THEN PRINT \"t\";:{0}:PRINT \"n\"", "20 PRINT \"n\""],
    ["10 IF 0 THEN PRINT \"n\" ELSE PRINT \"e\";:{0}:PRINT \"n\"", "20 PRINT \"n\""], ["10 GOSUB 100:PRINT \"n\"", "20 END", "100 PRINT \"s\";", "110 {0}:RETURN"], ["10 GOSUB 100:{0}:PRINT \"n\"", "20 END", "100 PRINT \"s\";", "110 RETURN"], ["10 FOR J=1 TO 3", "20 PRINT J;:IF J=2 THEN 40", "30 NEXT", "40 {0}", "50 NEXT"],
    ["10 FOR J=1 TO 2", "20 NEXT:{0}", "30 PRINT \"n\""], ["10 FOR J=1 TO 2:PRINT J;", "20 NEXT J", "30 {0}"], ["10 ON 2 GOTO 20,30,40", "20 END", "30 PRINT \"o\";:{0}", "40 PRINT \"n\""], ["10 ON 1 GOSUB 50:{0}", "20 END", "50 RETURN"], ["10 ON 5 GOTO 20:{0}", "20 PRINT \"n\""], ["10 STOP:{0}", "20 PRINT \"n\""], ["10 STOP", "20 {0}"],
    ["10 READ Q", "20 DATA 5:{0}", "30 PRINT \"n\""], ["10 INPUT Q:{0}", "20 PRINT \"n\""], ["10 INPUT Q", "20 {0}"], ["10 X=FNA(2)", "20 X=FNA(3):{0}"], ["10 PRINT FNA(2);:{0}"], ["10 REM", "20 DIM V(3):V(1)=2:{0}"], ["10 GOSUB 30", "20 END", "30 GOSUB 50:{0}", "40 RETURN", "50 RETURN"], ["10 IF 0 THEN 20", "15 {0}", "20 PRINT \"n\""],
    ["10 :", "20 ::{0}:"], ["10 IF 1 THEN IF 0 THEN PRINT \"n\" ELSE {0}"], ["10 DEF G9(Y)=Y:{0}"], ["10 RESTORE:{0}"], ["10 CLS:{0}"], ["10 RANDOMIZE 5:{0}"], ["10 CLEAR:{0}"],
    # on a later pass, or on a line come back to
    ["10 FOR J=1 TO 3:IF J=3 THEN {0}", "20 PRINT J;", "30 NEXT"], ["10 FOR J=1 TO 2:K=K+1", "15 PRINT J;:IF K=2 THEN {0}", "20 NEXT J"], ["10 K=K+1:IF K=2 THEN {0}", "20 GOTO 10"], ["10 K=K+1:IF K=2 THEN {0}", "20 PRINT \"p\";:IF 1 THEN 10"], ["10 K=K+1:IF K=3 THEN {0}", "20 ON 2 GOTO 30,10"], ["10 FOR J=1 TO 2", "20 FOR I=1 TO 2:IF I+J=4 THEN {0}", "30 NEXT", "40 NEXT:PRINT \"n\""],
    ["10 FOR J=3 TO 1 STEP -1:PRINT J;:IF J=1 THEN {0}", "20 REM", "30 NEXT J:PRINT \"n\""], ["10 FOR J=1 TO 2:PRINT \"f\";:IF J=2 THEN GOSUB 50", "20 NEXT", "30 END", "50 {0}"], ["10 GOSUB 50:K=K+1:GOSUB 50", "20 END", "50 IF K=1 THEN {0}", "60 RETURN"], ["10 FOR J=1 TO 2:IF J=2 THEN X=FNA(1):{0}", "20 X=FNA(2)", "30 NEXT"],
    ["10 FOR J=1 TO 5", "20 NEXT:K=K+1:IF K=1 THEN 10 ELSE {0}"], ["10 READ Q:IF Q=2 THEN {0}", "20 DATA 1", "30 DATA 2", "40 GOTO 10"], ["10 FOR J=1 TO 2:FOR I=1 TO 2", "20 NEXT I,J:{0}"], ["10 FOR J=1 TO 2:IF J=2 THEN {0}", "20 FOR I=5 TO 1:NEXT", "30 NEXT J"], ["10 ON 1 GOSUB 50:IF K=2 THEN {0} ELSE 10", "20 END", "50 K=K+1", "60 RETURN"], ["65535 PRINT \"a\";:{0}"],
]


def c18_places(rng, n):
    res = []
    cases = [(w, f) for w in WHERE for f in FAILS]
    for w, f in rng.sample(cases, min(n, len(cases))):
        if "ELSE" in f and any("ELSE" in x for x in w):
            continue
        p = SETUP_ERR + [x.format(f) for x in w]
        ins = lines("3", "4") if any("INPUT" in x for x in w) else []
        if rng.random() < .5:
            res += prog_file("places", p, script=ins, fuel=400, trace=rng.random() < .3)
        else:
            res.append(session("places-typed", [[x] for x in p] + [["RUN"]] + ins + [["CONT"], ["PRINT A;A$;D(1);X;J;Z"], ["GOTO " + w[-1].split()[0], "RUN"]] + ins, fuel=500, trace=rng.random() < .2))
    return res


def c18_whole(rng, n):
    return mix.family(rng, n) + mix.sessions(rng, n, "whole-typed", stop=.1, more=FAILS_WHOLE, fuel=900)


FAILS_WHOLE = ["X=FNB(1)", "PRINT 1;FNA(1)+D(77);2", "35 PRINT \"e\";LOG(0)", "15 D(1)=D(12)", "10 FOR I=1 TO 3:IF I=2 THEN D(99)=1", "FOR I=1 TO 2:PRINT I;LOG(I-1):NEXT", "FOR I=2 TO 1 STEP -1:PRINT I;LOG(I-1):NEXT"]


def c18_kinds(rng, n):
    """Each error in a program, at the prompt, in a function and in an immediate jump, with what came before it on its line."""
    res = []
    for f in FAILS:
        p = SETUP_ERR + ["10 A=1:A$=\"q\":D(1)=2:X=3", "20 PRINT \"before\";:X=4:" + f + ":X=5:PRINT \"after\"", "30 X=6:PRINT \"next\""]
        res += prog_file("kinds", p, fuel=300)
        res.append(session("kinds", [[x] for x in p] + [["RUN", "10"], ["PRINT X;A;A$;D(1)"], [f, "X=9:" + f + ":X=10", "GOTO 20", "PRINT \"p\";:" + f], ["PRINT X"], ["CONT"]], fuel=300))
        e = re.match(r"PRINT (.*)$", f)
        if e and ";" not in e.group(1) and "TAB" not in f and "SPC" not in f and "," not in e.group(1):
            d = "$" if '"' in e.group(1) and "=" not in e.group(1) or "$(" in e.group(1)[:6] else ""
            res.append(session("in-function", [[x] for x in SETUP_ERR] + [["15 DEF H%s(X)=%s" % (d, e.group(1))], ["20 X=8"], ["30 PRINT \"c\";H%s(1)" % d], ["RUN"], ["PRINT X"], ["PRINT H%s(2)" % d], ["PRINT X"], ["15"], ["PRINT H%s(2)" % d]], fuel=300))
            res.append(session("in-function", [[x] for x in SETUP_ERR] + [["RUN"], ["DEF H%s(X)=%s" % (d, e.group(1))], ["X=8"], ["PRINT \"c\";H%s(1)" % d], ["PRINT X"]], fuel=300))
    return res


def c18_valid(rng, n):
    """Operations at the edge of what is valid give no error."""
    ok = ["PRINT LOG(1E-300)", "PRINT CHR$(255);CHR$(0);ASC(CHR$(255))", "PRINT LEFT$(\"abc\",0);LEFT$(\"abc\",99);RIGHT$(\"abc\",0)", "PRINT MID$(\"abc\",3,1);MID$(\"abc\",1,99)", "PRINT VAL(\" 5\");VAL(\"-1e2\")", "PRINT NOT -1;NOT 0;1 AND 2147483647;-2147483648 OR 0", "D(0)=1:D(10)=2:PRINT D(0);D(10)", "DIM E(65535):E(65535)=1:PRINT E(65535)",
          "DIM E(255,255):E(255,255)=1:PRINT E(255,255)", "ON 0 GOTO 9:PRINT \"on\"", "ON 5 GOTO 9:PRINT \"on\"", "ON 0 GOSUB 9:PRINT \"on\"", "PRINT TAB(0);\"t\";TAB(1);\"u\"", "PRINT SPC(0);\"s\"", "RANDOMIZE 0", "PRINT 1/0;-1/0", "PRINT SQR(0)", "FOR Q=1 TO 0:PRINT Q:NEXT", "PRINT 10^300*10^300", "PRINT 0^0;0^1;(-2)^2;(-2)^3", "PRINT INT(-0.5);SGN(-0.5)", "PRINT LEN(\"\")", "PRINT ASC(\"\")",
          "E$(10)=\"x\":PRINT E$(10);E$(0)", "PRINT STR$(1E10);VAL(STR$(1E10))", "A$=B9$+LEFT$(B9$,126)+\"z\":PRINT LEN(A$)"]
    res = []
    for i, a in enumerate(ok):
        for b in rng.sample(ok, 4):
            p = SETUP_ERR + ["10 PRINT \"s\";:" + a, "20 " + b + ":PRINT \"e\""]
            res += prog_file("valid", p, fuel=300)
            res.append(session("valid", [[x] for x in p] + [["RUN"], [a, b], ["CONT"]], fuel=300))
    return res



# ------------------------------------------------------------------ C19: random numbers
SEEDS = [None, 0, 1, 2, 5, 42, 100, 255, 12345, 65535, 65536, 421057782, 844464397, 96416749]
# seeds that differ from another in one part only
LIKE = [261, 65541, 16777221, 2147483647, 2147483648, 2147483653, 4294967291, 4294967295]
RNDS = ["RND", "RND", "RND", "RND(1)", "RND(0)", "RND()", "RND(-5)", "RND(\"x\")", "RND(A)", "RND(A$)", "RND(RND)", "RND(1/0)", "RND(LEN(A$))", "rnd", "Rnd(2)"]


class Random(Prop):
    """The streams of numbers are taken from the interpreter itself, in plain loops; the
    specification then says how every other program uses them."""
    note = ("The stream belonging to each seed is learnt from a plain loop in the interpreter (its range is checked); the specification "
            "then decides how all other programs use these streams.")
    count = 150

    def streams(self, check):
        check.exact = False
        res = {}
        learnt = lb.learn_streams(check.real, SEEDS + LIKE, self.count)
        again = lb.learn_streams(check.real, SEEDS[:3], self.count)
        seen = {}
        for sd in SEEDS + LIKE:
            v = learnt[sd]
            s = session("stream", what="run", file="p.bas", files={"p.bas": lb.stream_program(sd, self.count)})
            if len(v) != self.count:
                check.violation(s, [], [], None, None, "the numbers for seed %s are not produced" % sd)
            elif sd in again and again[sd] != v:
                check.violation(s, [], [], None, None, "the numbers for seed %s differ from run to run" % sd)
            # the C library starts as if with seed 1, and takes 0 for 1
            other = seen.setdefault(tuple(v), sd)
            if v and other != sd and not {other, sd} <= {None, 0, 1}:
                check.violation(s, [], [], None, None, "the numbers for seed %s are those for seed %s" % (sd, other))
            for x in v:
                if not 0 <= x < 1:
                    check.violation(s, [], [], None, None, "RND is %r for seed %s" % (x, sd))
                    break
            check.evals += len(v)
            res["" if sd is None else lb.java_double(float(sd))] = [lb.java_double(x) for x in v if 0 <= x < 1]
        return res


def show(x):
    return "PRINT %s;" % x if random.random() < 0 else "X=%s:PRINT X;INT(X*65536);" % x


def c19_mix(rng, n):
    res = []
    sd = [x for x in SEEDS + LIKE if x is not None]
    for _ in range(n):
        p = ["5 A=1:A$=\"q\":DEF FNR(N)=INT(RND*N)+1:DEF FNZ(X)=X:DIM D(20)"]
        for i in range(rng.randint(3, 9)):
            st = []
            for _ in range(rng.randint(1, 3)):
                r = rng.choice(RNDS)
                st.append(rng.choice(["X=%s:PRINT X;INT(X*65536);" % r] * 4 + ["RANDOMIZE %s" % rng.choice(sd), "RANDOMIZE %s" % rng.choice(sd), "RANDOMIZE A-1", "PRINT FNR(6);", "PRINT INT(%s*100);INT(%s*100);" % (r, rng.choice(RNDS)), "D(%s*9.5)=1" % "INT(RND" [:4] if False else "D(INT(RND*9))=A:PRINT D(3);",
                              "IF %s<.5 THEN PRINT \"h\"; ELSE PRINT \"t\";" % r if not st else "PRINT RND;", "Y=SIN(A)+COS(2)+SQR(3)+EXP(1)+ATN(A)+LOG(2)", "A$=CHR$(65+INT(RND*26)):PRINT A$;", "A$=STR$(A)+LEFT$(A$,2)", "READ Z", "PRINT FNZ(RND);FNZ(RND(FNZ(2)));",
                              "GOSUB 900", "FOR I=1 TO %d:PRINT INT(RND*10);:NEXT" % rng.randint(1, 6), "PRINT RND=RND;", "CLEAR:A=2:DEF FNR(N)=RND:DEF FNZ(X)=RND(X)", "ON INT(RND*2)+1 GOSUB 900,910", "RANDOMIZE INT(RND*0)"]))
                if st[-1].startswith("IF"):
                    break
            p.append("%d %s" % (10 * i + 10, ":".join(st)))
        p += ["890 END", "900 PRINT \"g\";RND;:RETURN", "910 RETURN", "920 DATA 1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"]
        if rng.random() < .6:
            res += prog_file("mix", p, fuel=700)
        else:
            res.append(session("mix-typed", [[x] for x in p if len(x) < 124] + [["RUN", "PRINT RND"], ["RUN", "X=RND:PRINT X", "RANDOMIZE 5", "NEW", "PRINT LOG(0)", "10 PRINT RND", "PRINT RND(LOG(0))", "CLEAR"], ["RUN", "PRINT RND;RND"], ["PRINT INT(RND*1000)", "RANDOMIZE 1:PRINT RND"]], fuel=1500))
    return res


def c19_seeds(rng, n):
    """Each seed: the same numbers whatever was done before."""
    res = []
    for a, b in [(a, b) for a in SEEDS[1:] for b in SEEDS[1:]] + [(a, rng.choice(SEEDS[1:])) for a in LIKE] + [(rng.choice(SEEDS[1:]), a) for a in LIKE] + [(a, 5) for a in LIKE]:
        k = rng.choice([0, 1, 2, 30, 31, 32, 33, 70])
        p = ["10 DIM A(%d),B(%d)" % (k + 9, k + 9), "20 RANDOMIZE %d:FOR I=0 TO %d:A(I)=RND:NEXT" % (a, k + 9), "30 RANDOMIZE %d:FOR I=1 TO %d:X=RND(I):NEXT" % (b, k), "40 RANDOMIZE %d:FOR I=0 TO %d:B(I)=RND(\"\"):NEXT" % (a, k + 9), "50 FOR I=0 TO %d:IF A(I)<>B(I) THEN PRINT \"differs\";I" % (k + 9), "60 NEXT:PRINT A(0);A(%d);INT(A(%d)*1000)" % (k + 9, k + 9)]
        res += prog_file("seeds", p, fuel=4000)
        res.append(session("seeds-typed", [["RANDOMIZE %d" % a], ["PRINT RND;RND", "PRINT 1", "RANDOMIZE %d:PRINT RND" % b], ["RANDOMIZE %d" % a], ["PRINT RND;RND;INT(RND*1E6)"]]))
    return res


def c19_errors(rng, n):
    res = []
    for bad in ("-1", "1.5", "-0.5", ".999", "4294967296", "1E10", "-1E10", "1/0", "-1/0", "1E-9", "\"x\"", "", "LOG(0)", "-0", "5.0", "0.0", "1E2", "50+50", "A", "X"):
        res.append(session("bad-seed", [["A=5:X=0.5"], ["RANDOMIZE 5:PRINT RND"], ["RANDOMIZE " + bad if bad else "PRINT 7"], ["PRINT RND;RND"], ["PRINT INT(RND*1E6)"]]))
        if bad:
            res += prog_file("bad-seed", ["10 A=5:X=0.5:PRINT RND", "20 RANDOMIZE " + bad, "30 PRINT RND"])
    return res


def c19_extremes(rng, n):
    """Whatever numbers the C library gives, RND is in its range; extreme ones are put among them."""
    res = []
    for _ in range(n):
        k = rng.randint(1, 60)
        ks = sorted(rng.sample(range(1, 90), rng.randint(1, 12)))
        cut = rng.randint(0, len(ks))
        some = ks if rng.random() < .3 else ks[cut:]
        rand = dict(LB_MAX=some, LB_MIN=[x for x in ks if x not in some])
        r = rng.choice(["RND", "RND(1)", "RND(0)", "RND(\"a\")", "RND(-1)"])
        p = ["10 DIM D(5):" + rng.choice(["", "RANDOMIZE 7:", "X=RND:"]) + "X=0", "20 FOR I=1 TO %d:X=%s:IF X>=0 AND X<1 THEN N=N+1 ELSE PRINT \"outside\";X" % (k, r), "30 D(INT(6*%s))=1:NEXT" % r, "40 PRINT N;\"drawn\":ON INT(%s*3)+1 GOSUB 900,900,900" % r, "50 PRINT \"end\":END", "900 PRINT \"k\";:RETURN"]
        res += prog_file("extremes", p, rand=rand, fuel=3000)
        res.append(session("extremes-typed", [["DIM D(5)"], ["FOR I=1 TO %d:X=%s:D(INT(6*X))=1:NEXT" % (k, r)], ["FOR I=1 TO 30:X=RND:PRINT X>=0 AND X<1;:NEXT"]], rand=rand, fuel=3000))
    return res


# ------------------------------------------------------------------ C20: words
CASES = [str.lower, str.upper, str.title, str.swapcase]


def respell(rng, line, case=True, blanks=True, crunch=False):
    """The same line in other letters and blanks."""
    num, text = line.split(" ", 1)
    out, word, lit = num, None, False
    ts = tokens(text)
    res = []
    i = 0
    while i < len(ts):
        t = ts[i]
        u = t.upper()
        if u in ("DATA", "REM"):
            at = find_nth(text, ts, i)
            rest = text[at + len(t):]
            res.append((rng.choice(CASES)(t) if case else t) + rest)
            break
        if t[0].isalpha() and case:
            t = rng.choice(CASES)(t)
        res.append(t)
        i += 1
    o = ""
    KW = {"PRINT", "IF", "THEN", "ELSE", "GOTO", "GOSUB", "FOR", "TO", "STEP", "NEXT", "LET", "DIM", "DEF", "READ", "RESTORE", "INPUT", "LINE", "ON", "RETURN", "END", "STOP", "CLEAR", "CLS", "AND", "OR", "NOT", "RANDOMIZE", "TAB", "SPC"}
    for k, t in enumerate(res):
        if k:
            a, b = res[k - 1], t
            wa, wb = bool(re.match(r"[A-Za-z0-9.]", a[-1])) , bool(re.match(r"[A-Za-z0-9.]", b[0]))
            need = wa and wb
            if need and crunch and (a.upper() in KW or b.upper() in KW):
                need = False
            o += (" " if need else "") + (rng.choice(["", "", "", " ", "  ", "\t"]) if blanks else "")
        o += t
    return num + rng.choice([" ", " ", "", "  "] if not o[:1].isdigit() else [" "]) + o if blanks or crunch else num + " " + o


def find_nth(text, ts, i):
    """Where the i-th token of text is."""
    at = 0
    for k, m in enumerate(TOKEN.finditer(text)):
        if k == i:
            return m.start()
    return len(text)


def folded(p):
    """The same, with the names in the messages in one spelling, and without the lines shown by STOP."""
    out, errs = plain(p)
    out = re.sub(r"[^\n]*\nStopped\n", "Stopped\n", out)
    return out, [e.lower() for e in errs]


def renamed(rng, p):
    """The program with longer names, with digits in them, instead of its simple ones."""
    new = {}

    def name(m):
        t = m.group()
        u = t.rstrip("$").upper()
        if not re.match(r"[A-Z]\d?$", u):
            return t
        while u not in new:
            w = rng.choice("XQZWKVJBM") + "".join(rng.choice("XQZWKVJBMU0123456789") for _ in range(rng.choice([0, 1, 1, 2, 3, 6])))
            if w not in new.values():
                new[u] = w
        return new[u] + t[len(u):]
    res = []
    for l in p:
        num, text = l.split(" ", 1)
        m = re.search(r'^((?:"[^"]*"|[^"])*?)(\b(?:DATA|REM)\b.*)$', text, re.S)
        code, rest = m.groups() if m else (text, "")
        res.append(num + " " + TOKEN.sub(name, code) + rest)
    return res if all(len(l) < 200 for l in res) else p


def c20_respelt(rng, n):
    """Programs of all kinds in other letters and blanks do the same."""
    res = []
    for g, (p, script, fuel) in enumerate(programs(rng, n)):
        p = renamed(rng, p) if rng.random() < .5 else p
        script = one_way(rng, script)
        grp = dict(group="respelt%d" % g, view=folded, fuel=fuel)
        res += prog_file("respelt", p, script=script, **grp)
        for kw in (dict(blanks=False), dict(case=False), dict()):
            q = [respell(rng, l, **kw) for l in p]
            if all(len(l) < 254 for l in q):
                res += prog_file("respelt", q, script=script, **grp)
    return res


def c20_crunched(rng, n):
    res = []
    for g, (p, script, fuel) in enumerate(programs(rng, n)):
        p = renamed(rng, p) if rng.random() < .7 else p
        script = one_way(rng, script)
        grp = dict(group="crunched%d" % g, view=folded, fuel=fuel, any=True)
        res += prog_file("crunched", p, script=script, **grp)
        for kw in (dict(blanks=False, case=False), dict()):
            q = [respell(rng, l, crunch=True, **kw) for l in p]
            if all(len(l) < 254 for l in q):
                res += prog_file("crunched", q, script=script, **grp)
    return res


def c20_statements(rng, n):
    """Every kind of statement, spaced, crunched and respelt, in both modes."""
    res = []
    for s in STATEMENTS:
        for k in range(3):
            for anyw in (False, True):
                l = "20 " + s
                kw = [dict(blanks=False, case=False), dict(crunch=True, blanks=False, case=False), dict(crunch=anyw), dict()][(k + (1 if anyw else 0)) % 4]
                q = respell(rng, l, **kw)
                pr = ["10 A=2:B=3:A$=\"ab\":B$=\"cd\"", q, "30 PRINT A;B;C;A$;B$;I", "40 K=K+1:IF K>3 THEN END ELSE RETURN", "50 DATA 9,8,7"]
                if rng.random() < .6:
                    res += prog_file("statements", pr, any=anyw, script=lines("1", "2", "3"), fuel=200, modes=(rng.choice(["run", "run", "parse"]),))
                else:
                    res.append(session("statements-typed", [[x] for x in pr] + [[q[3:] if not q[2:].strip()[:1].isdigit() else "PRINT 1"], ["1"], ["RUN"], ["2"], ["3"]], any=anyw, fuel=300))
    return res


NAMES20 = ["TOTAL", "FORT", "IFFY", "PRINTER", "ANDY", "ORB", "NOTE", "TON", "ENDED", "DATAB", "REMARK", "LETTER", "STEPS", "ONE", "GOTOX", "NEXTA", "LENGTH", "CHRX", "TABS", "SPCX", "RNDX", "XTO", "AFOR", "BAND", "SCORE", "WORD", "KNOT", "SEND", "TODATA", "ADATA", "PREMIUM", "STOPPER", "READY", "DIMMER",
           "DEFEAT", "INPUTS", "OUTPUT", "ELSEX", "THENX", "STHEN", "INTO", "ABSENT", "COSY", "SINK", "VALUE", "ASCII", "TANGO", "LOGIC", "EXPERT", "SQRL", "CLEARLY", "CLSX", "BASE", "RETURNED", "GO", "SUB", "TOGO", "FORTO", "IFTHEN", "ORAND", "MIDX", "LEFTY", "RIGHTO", "STRX", "RUN", "LIST", "NEW", "BYE", "LOAD", "E", "E1", "D2", "X2E3", "SUMX1", "AB12CD3", "Q1", "Z9Z9", "MAXX22", "H2O"]


def c20_names(rng, n):
    res = []
    for w in NAMES20:
        for anyw in (False, True):
            d = rng.choice(["", "$"])
            v = '"s"' if d else "4"
            u = rng.choice(CASES)(w)
            p = ["10 LET %s%s=%s" % (w, d, v), "20 PRINT %s%s" % (u, d), "30 %s%s=%s%s+%s%s:PRINT %s%s" % (u, d, w, d, u, d, w, d), "40 IF %s%s=%s%s THEN PRINT \"eq\"" % (w, d, u, d), "50 DIM %s%s(3):%s%s(2)=%s:PRINT %s%s(2);%s%s" % (w, d, u, d, v, w, d, w, d)]
            res += prog_file("names", p, any=anyw, fuel=200)
            res += prog_file("names", p, modes=("names",), any=anyw)
            res.append(session("names-typed", [["A%s%s=%s:PRINT A%s%s" % (w, d, v, u, d)], ["PRINT %s1%s;%s" % (w, d, w)], ["FOR %s=1 TO 2:PRINT %s;:NEXT %s" % (w, u, w)]], any=anyw))
    return res


LITS = ["PRINT \"goto 10:REM if\"", "PRINT \"  two  blanks  \";\"\tTab\"", "REM  Print \"x\": goto 10  ", "rem", "REMark this", "A$=\"PrInT\":PRINT A$", "DATA Print, goto 10 ,\" If \",remark,  a  b :READ A$:PRINT A$", "READ A$,B$:PRINT A$;\"|\";B$:DATA then,else if", "PRINT \"a\"\"b\"", "PRINT \"\"", "PRINT \"it's a : test\":PRINT 2",
        "DATA \"q:r\",to:PRINT 3", "PRINT\"x\"PRINT\"y\"", "IF 1 THEN PRINT \"then\"", "PRINT 1TO", "PRINT 1E5", "PRINT 1E", "PRINT 1ELSE", "PRINT 1E5E", "X=1:IF X=1THEN PRINT \"k\"", "IF 1THEN PRINT 2ELSE PRINT 3", "FOR I=1TO3:PRINT I;:NEXT", "FOR I=1TO 3STEP2:PRINT I;:NEXTI", "FORI=1TO3:PRINTI;:NEXTI", "PRINT10", "PRINTA", "PRINT A B", "PRINT AB",
        "A=1:B=2:PRINT A ANDB;AORB;NOTA", "A=1:B=2:PRINT AANDB", "GO TO 10", "GO SUB 10", "GOTO10", "ON1GOTO30", "ON 1GOTO 30", "X=5:PRINTX", "LETX=5:PRINT X", "LET X = 5 : PRINT X", "PRINT LEN (\"abc\")", "PRINT LEN(\"abc\")", "PRINT LEN( \"abc\" )", "PRINT CHR $(65)", "PRINT CHR$ (65)", "A $=\"x\"", "PRINT TAB (5);1", "PRINT TAB(5)1SPC(2)2", "PRINT 1 . 5", "PRINT 1. 5", "PRINT < =", "PRINT 1< =2", "PRINT 1<=2;1<>2", "PRINT 1> =2",
        "PRINT 1;;2", "?1", "?\"a\"", "? 1 ? 2", "PRINT1;2", "DIMA(3):A(1)=2:PRINTA(1)", "DEFFNA(X)=X*2:PRINTFNA(3)", "DEF FN A(X)=1", "RESTORE30:READA:PRINTA", "INPUTA:PRINTA", "LINEINPUTA$:PRINTA$", "LINE INPUT A$:PRINT A$", "INPUT\"p\";A:PRINT A", "RANDOMIZE5", "IFA=0THENPRINT\"z\"ELSEPRINT\"n\"", "IFA=0THEN30", "IFA=1THEN30ELSE30", "PRINTSIN(0)COS(0)", "PRINT-1", "PRINT NOT0", "PRINTNOT0",
        "ENDING=1:PRINT ENDING", "STOPX=2", "A=1REM x", "PRINT 1:REM:PRINT 2", "PRINT 1 REM", "PRINT A REM x", "CLEAR:PRINT 1", "NEXT\tI", "PRINT\t1\t;\t2\t", "\tPRINT 1", "PRINT 1\t", "PRINT 0010;1.50;.5;5.;1E+2;1E-2;1e2", "PRINT 1E400", "X1=1:X12=2:PRINT X1;X12", "PRINT 12X", "PRINT 1X", "PRINT 3.4.5", "PRINT ..5"]


def c20_literals(rng, n):
    res = []
    for s in LITS:
        for anyw in (False, True):
            for t in {s, s.lower(), s.upper(), s.replace(" ", "")}:
                p = ["10 A=0:B=0", "20 " + t, "30 PRINT \"end\"", "40 DATA 66,77"]
                res += prog_file("literals", p, any=anyw, script=lines("7", "8"), fuel=100)
                if rng.random() < .5:
                    res.append(session("literals-typed", [[t if not t[:1].isdigit() else "PRINT 1"], ["20 " + t], ["LIST"], ["RUN"], ["7"]], any=anyw, fuel=150))
                if rng.random() < .3:
                    res += prog_file("literals", p, any=anyw, modes=("names",))
    return res


def c20_commands(rng, n):
    """Commands in any letters and blanks."""
    res = []
    for c in ("LIST", "RUN", "NEW", "BYE", "CONT", "COMPILE", "RENUM", "RENUMBER", "SAVE\"q\"", "LOAD\"q\"", "HELP", "LIST10-20", "LIST20", "RENUM5"):
        for f in (str, str.lower, str.title, str.swapcase):
            for a, b in (("", ""), (" ", " "), ("\t", ""), ("  ", "\t ")):
                res.append(session("commands", [["10 PRINT \"r\":STOP"], ["20 PRINT \"s\""], ["RUN"], [a + f(c).replace("Q", "q") + b], ["LIST"], ["PRINT 1"]], any=rng.random() < .3))
    for c in ("LISTX", "RUNX", "XRUN", "NEWX=1", "NEW=1", "RUN=5", "LIST=2:PRINT LIST", "PRINT RUN", "BYEBYE", "LIST1", "L IST", "R UN", "CONTX", "SAVEX=1", "LET RUN=3:PRINT RUN", "HELPME", "RENUMX", "LOADED=2:PRINT LOADED"):
        for anyw in (False, True):
            res.append(session("commands", [["10 PRINT \"r\""], [c, c.lower()], ["LIST"], ["PRINT 1"]], any=anyw))
    return res


# ------------------------------------------------------------------ C21: observation
def strip_marks(p):
    return re.sub(r"\[\d+\]", "", p["out"]).replace("\r", ""), p["err"], p["exit"]


# what --trace-for prints
FORS = re.compile(r"\[(?:FOR|NEXT-VARIABLE|NEXT-IMPLICIT)\]\n-- line: .*\n-- initial stack: .*\n|-- (?:final stack|overflow): .*\n")
MEM = re.compile(r"\nmalloc: +(\d+)\nfree: +(\d+)\n\Z")


def observed(check, rep, real, s, typed):
    """Compare a run with --trace-log and --report-memory."""
    r = dict(real)
    if "--report-memory" in s["opts"] or "-m" in s["opts"]:
        m = MEM.search(r["out"])
        if m:
            r["out"] = r["out"][:m.start()]
        elif rep["exit"] == 0:
            return "no memory report"
    if "--trace-log" in s["opts"] or "-g" in s["opts"]:
        want = [x for x in lb.loose(rep["err"]) if x[0] == "runtime"]
        got = [x for x in lb.loose(r["err"]) if x[0] == "runtime"]
        if want != got:
            return "errors differ"
        r["err"] = rep["err"]
    if "--trace-for" in s["opts"] or "-f" in s["opts"]:
        r["out"] = FORS.sub("", r["out"])
    if s["what"] == "code" and ("157442" in r["out"] or "?" in r["out"].replace("??", "")[-3:]):
        return "the program was run"
    if s["what"] == "code" and rep["exit"] == 0 and s["files"]:     # the code is listed line by line
        at = 0
        for l in s["files"][0]["text"].rstrip("\n").split("\n"):
            m = re.match(r"(\d+) ?(.*)", l, re.S)
            at = r["out"].find("%d %s\n" % (int(m.group(1)), m.group(2)), at)
            if at < 0:
                return "no code listed for line %s" % m.group(1)
            at += 1
    return lb.compare(rep, r, False)


class Observe(Prop):
    note = "Runs with --trace-log, --trace-for (what it prints set aside), --report-memory and without --quiet are compared with the behaviour the specification gives without them."

    def jobs(self, check, rep):
        return [(rep["session"], rep["typed"], rep["marks"], rep, observed if rep["session"]["opts"] or rep["session"]["what"] == "code" else standard)]


def c21_traced(rng, n):
    """Every program with and without --trace-basic, and with the other options."""
    res = []
    for g, (p, script, fuel) in enumerate(programs(rng, n)):
        if any("[" in l for l in p):
            p = [l.replace("[", "{").replace("]", "}") for l in p]
        script = one_way(rng, script)
        grp = dict(group="traced%d" % g, view=strip_marks, fuel=fuel)
        res += prog_file("traced", p, script=script, **grp)
        res += prog_file("traced", p, script=script, trace=True, **grp)
        res += prog_file("options", p, script=script, trace=rng.random() < .3, quiet=rng.random() < .5, opts=rng.choice([["--report-memory"], ["--trace-log"], ["-m", "-g"], ["-g"], ["--run"], ["-r", "-m"], ["-m"], ["-f"], ["--trace-for"], ["-f", "-g"]]), fuel=fuel)
        if rng.random() < .4 and all(len(l) < 125 for l in p):
            sc = [[l] for l in p] + [["RUN"]] + script + [["GOTO %s" % p[-1].split()[0], "PRINT 1:GOSUB %s" % p[-1].split()[0], "NEXT", "CONT"], ["RUN"]] + script
            for tr in (False, True):
                res.append(session("traced-typed", sc, trace=tr, fuel=2 * fuel, group="typed%d" % g, view=strip_marks))
            res.append(session("options-typed", sc, trace=True, quiet=False, opts=rng.choice([["-g"], ["-m"], ["-g", "-m"], ["-f"], ["-f", "-m"]]), fuel=2 * fuel))
    return res


def c21_entries(rng, n):
    """Which entries of a line are marked."""
    ps = [["10 FOR I=1 TO 2:PRINT I;:NEXT", "20 FOR I=1 TO 2", "30 NEXT:PRINT \"x\";", "40 GOSUB 60:PRINT \"b\";:GOSUB 60", "50 END", "60 PRINT \"s\";:RETURN"], ["10 IF X THEN 30 ELSE 20", "20 X=X+1:IF X<3 THEN 10", "30 ON X GOTO 40,40,50", "40 PRINT \"n\"", "50 GOTO 70", "60 REM", "70 DEF F(X)=X*2", "80 PRINT F(X);F(F(1))", "90 IF X>5 THEN STOP ELSE X=X+1:GOTO 90"],
          ["10 INPUT A", "20 READ B:DATA 1", "30 DATA 2", "40 RESTORE 20:STOP:PRINT \"c\"", "50 ON A GOSUB 70:PRINT \"r\"", "60 END", "70 RETURN"], ["10 GOTO 10+0"], ["10 K=K+1:IF K<3 THEN 10", "65535 PRINT \"z\""], ["1 REM", "2 :", "3 ::PRINT 1"], ["10 PRINT LOG(0)", "20 PRINT 2"], ["10 GOTO 99"], ["10 PRINT 1", "20 PRINT (", "30 PRINT 3"]]
    res = []
    for p in ps:
        res += prog_file("entries", p, trace=True, script=lines("1", "2"))
        res.append(session("entries", [[x] for x in p] + [["RUN", "GOTO %s" % p[-1].split()[0], "GOSUB 60", "PRINT 1"], ["1"], ["CONT", "RUN", "PRINT F(2)", "NEXT"], ["2"], ["CONT"]], trace=True, fuel=300))
    return res


def c21_lists(rng, n):
    res = []
    for p, script, fuel in programs(rng, n):
        q = ["1 PRINT 157440+2:A=1:A$=\"x\""] + p if not p[0].startswith(("1 ", "2 ", "3 ", "4 ", "5 ")) else p
        for m in ("list", "names", "code"):
            res += prog_file("lists", q, modes=(m,), any=rng.random() < .2, quiet=rng.random() < .7, script=[["5"]], **(dict(ignore=("out",)) if m == "code" else {}))
    for k in range(n // 2):
        ws = [rng.choice(["a", "B", "abc", "Abc", "ABC", "zed", "x1", "X1", "x10", "a$", "A$", "len", "Chr$", "tab", "SPC", "mid$", "fnA", "FNa$", "m", "M", "n9", "q", "Q$", "zz", "hex", "Rnd", "sin", "LEFT$", "time$", "to1", "e", "E5"]) for _ in range(rng.randint(1, 12))]
        p = ["%d PRINT %s" % (10 * i + 10, rng.choice([";", "+", " ", "("]).join(ws[j] for j in range(i, min(len(ws), i + rng.randint(1, 4))))) for i in range(len(ws))]
        p.insert(rng.randint(0, len(p)), "5 REM rem names here")
        p = sorted(p, key=lambda l: int(l.split()[0]))
        p.append("9000 DATA some, data names: PRINT after")
        res += prog_file("names", p, modes=("names",), any=rng.random() < .3, quiet=rng.random() < .7)
    # names that meet in any order
    for perm in rng.sample(list(itertools.permutations(["b", "A", "c", "B$", "a1", "D"])), min(60, n)):
        res += prog_file("names", ["10 PRINT %s" % ";".join(perm)], modes=("names",))
    return res


prop("C14", (c14_round, 500), (c14_files, 90), (c14_lengths, 1), (c14_names, 1), (c14_many, 1), (c14_big, 1))
prop("C15", (c15_random, 500), (c15_same, 100), (c15_forms, 60), (c15_run, 250), (c15_limits, 1))
prop("C16", (c16_cont, 450), (c16_orders, 400), (c16_fresh, 120), (c16_whole, 350), (c16_graph, 1))
prop("C17", (c17_errors, 120), (c17_mixed, 200), (c17_whole, 300), (c17_commands, 80), (c17_long, 1), (c17_ends, 1), (c17_graph, 1))
prop("C18", (c18_places, 1100), (c18_whole, 300), (c18_kinds, 1), (c18_valid, 1))
prop("C19", (c19_mix, 400), (c19_seeds, 1), (c19_errors, 1), (c19_extremes, 40), cls=Random)
prop("C20", (c20_respelt, 220), (c20_crunched, 160), (c20_statements, 1), (c20_names, 1), (c20_literals, 1), (c20_commands, 1))
prop("C21", (c21_traced, 350), (c21_entries, 1), (c21_lists, 200), cls=Observe)
