"""Binding of the specification (spec/*.tla) to the interpreter in /repo.

A check makes sessions (what a user does, with alternatives), lets TLC explore
them on the specification -- checking the specification's own invariants and
action properties on the way -- and replays every behaviour TLC found on the
interpreter built from /repo's working tree, comparing what is observable.
"""
import ctypes, json, os, re, resource, selectors, shutil, signal, subprocess, sys, tempfile, time, hashlib
import fcntl, termios, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LB_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4
MUCH = 32 << 20          # more output than this has no end


class CheckError(Exception):
    """The check itself cannot be carried out."""


# ---------------------------------------------------------------- building
def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, **kw)


def build_interpreter(where, flags=""):
    """Build the interpreter from /repo's working tree into directory `where`."""
    env = dict(os.environ, CC="gcc", CXX="g++")
    for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CUTEST_RESULTS"):
        env.pop(v, None)
    cmd = ["cmake", "-S", REPO, "-B", where, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
           "-DCMAKE_C_STANDARD_LIBRARIES=-lm"]
    if flags:
        cmd += ["-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_EXE_LINKER_FLAGS=" + flags]
    r = run(cmd, env=env)
    if r.returncode == 0:
        r = run(["ninja", "-C", where], env=env)
    exe = os.path.join(where, "Debug", "LegacyBasic")
    if r.returncode != 0 or not os.path.exists(exe):
        raise CheckError("cannot build the interpreter:\n" + r.stdout.decode("latin-1")[-3000:])
    return exe


def build_host(where):
    os.makedirs(where, exist_ok=True)
    r = run(["javac", "-cp", TLAJAR, "-d", where, os.path.join(VERIF, "host", "LBHost.java")])
    if r.returncode != 0:
        raise CheckError("cannot compile the TLC module override:\n" + r.stdout.decode())


def build_shim(where):
    so = os.path.join(where, "shim.so")
    r = run(["gcc", "-shared", "-fPIC", "-fno-builtin", "-o", so, os.path.join(VERIF, "host", "shim.c"), "-ldl"])
    if r.returncode != 0:
        raise CheckError("cannot compile the interrupt shim:\n" + r.stdout.decode())
    return so


# ---------------------------------------------------------------- sessions
def session(fam, script=(), what="monitor", any=False, trace=False, quiet=True, file="", files=None,
            brk_input=(), brk_sin=(), alphabet=(), depth=0, fuel=3000, argv=(), **extra):
    """What a user does.  script: slots; a slot is a list of alternatives; an
    alternative is a line or a list of lines (without NL, which is added)."""
    def alt(a):
        ls = [a] if isinstance(a, str) else list(a)
        return [l if l.endswith("\n") or l.endswith("\0") else l + "\n" for l in ls]
    def slot(x):
        return [alt(a) for a in (x if isinstance(x, (list, tuple)) and not isinstance(x, str) else [x])]
    def fin(ls):  # "\0" marks a last line without NL
        return [l[:-1] if l.endswith("\0") else l for l in ls]
    d = dict(fam=fam, what=what, any=any, trace=trace, quiet=quiet, file=file,
             files=[dict(name=k, text=v) for k, v in (files or {}).items()],
             breaks=dict(input=list(brk_input), sin=list(brk_sin)),
             script=[[fin(a) for a in slot(x)] for x in script],
             alphabet=[fin(alt(a)) for a in alphabet], depth=depth, fuel=fuel, argv=list(argv),
             clock=dict(on=False, at=0, tick=0))
    d.update(extra)
    return d


def lines(*ls):
    """Slots in which exactly these lines are typed, one slot each."""
    return [[l] for l in ls]


def as_list(x):
    return x if isinstance(x, list) else []


SPEC_FIELDS = ("what", "any", "trace", "quiet", "file", "files", "breaks", "script", "alphabet", "depth", "fuel", "argv",
               "clock")


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, work):
        self.work = work
        self.host = os.path.join(work, "host")
        build_host(self.host)
        self.n = 0
        self.states = self.transitions = 0
        self.tally = {}
        self.seconds = 0.0

    def explore(self, sessions, cfg="Tree.cfg", module="MC.tla", rnd=None, timeout=800, workers=None, heap="10g"):
        """All behaviours of the specification for these sessions: a list of reports."""
        self.n += 1
        d = os.path.join(self.work, "tlc%d" % self.n)
        shutil.copytree(os.path.join(VERIF, "spec"), d)
        data = dict(rnd=rnd or {"": ["0.5"]},
                    sessions=[{k: s[k] for k in SPEC_FIELDS} for s in sessions])
        with open(os.path.join(d, "sessions.json"), "w", encoding="latin-1") as f:
            json.dump(data, f, ensure_ascii=True)
        out, tally = os.path.join(d, "out.json"), os.path.join(d, "tally.txt")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap,
               "-Dlb.sessions=" + os.path.join(d, "sessions.json"), "-Dlb.out=" + out, "-Dlb.tally=" + tally,
               "-cp", os.pathsep.join([TLAJAR, DEPS, self.host]), "tlc2.TLC",
               "-noGenerateSpecTE", "-deadlock", "-workers", str(workers or CPUS),
               "-config", cfg, module]
        t0 = time.time()
        try:
            r = run(cmd, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish in %d s" % timeout)
        self.seconds += time.time() - t0
        log = r.stdout.decode("latin-1")
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", log, re.M)
        if r.returncode != 0 or not m:
            i = log.find("Error:")
            said = re.findall(r"^/\\ (?:sid|path|typed|clk) = .*$", log, re.M)[-4:]
            if os.environ.get("LB_TLCLOG"):
                open(os.environ["LB_TLCLOG"], "w").write(log)
            raise CheckError("TLC reports a problem in the specification (not in /repo):\n" +
                             log[max(i, 0):][:500] + "\n...\n" + "\n".join(said)[:1500] + "\n...\n" + log[-200:])
        self.transitions += int(m[-1][0])
        self.states += int(m[-1][1])
        if os.path.exists(tally):
            for l in open(tally):
                k, v = l.rsplit(" ", 1)
                self.tally[k] = self.tally.get(k, 0) + int(v)
        reports = []
        if os.path.exists(out):
            with open(out) as f:
                for l in f:
                    p = json.loads(l)
                    p["files"] = p["files"] if isinstance(p["files"], dict) else {}
                    p["session"] = sessions[p["sid"] - 1]
                    reports.append(p)
        shutil.rmtree(d, ignore_errors=True)
        reports.sort(key=lambda p: (p["sid"], p["path"], p["typed"]))
        return reports


# ---------------------------------------------------------------- the interpreter
ENV = {"PATH": "/nonexistent", "HOME": "/nonexistent", "LANG": "C", "LC_ALL": "C"}


class Real:
    """The interpreter built from /repo."""

    def __init__(self, exe, work, shim=None, env=None, limit=20.0, sanitized=False):
        self.exe, self.work, self.shim, self.limit, self.sanitized = exe, work, shim, limit, sanitized
        self.env = dict(ENV, **(env or {}))
        self.k = 0

    def args(self, s):
        if s["argv"]:
            return s["argv"]
        a = ["--quiet"] if s["quiet"] else []
        if s["any"]:
            a.append("--keywords-anywhere")
        if s["trace"]:
            a.append("--trace-basic")
        a += s.get("opts", [])
        if s["what"] != "monitor":
            a += {"run": [], "list": ["--list"], "names": ["--list-names"], "parse": ["--parse"],
                  "code": ["--code"]}[s["what"]]
            a.append(s["file"])
        return a

    def replay(self, s, typed, marks=(), outtypes=None):
        """Run one session: dict with out, err, exit, files."""
        d = tempfile.mkdtemp(dir=self.work)
        try:
            for f in s["files"]:
                with open(os.path.join(d, f["name"]), "wb") as fp:
                    fp.write(f["text"].encode("latin-1"))
            env = dict(self.env)
            if s["breaks"]["sin"]:
                env["LD_PRELOAD"] = self.shim
                env["LB_SIN"] = ",".join(map(str, s["breaks"]["sin"]))
            if s.get("rand"):
                env["LD_PRELOAD"] = self.shim
                env.update({k: ",".join(map(str, v)) for k, v in s["rand"].items()})
            if s["clock"]["on"]:
                env["LD_PRELOAD"] = self.shim
                env["LB_CLOCK"] = "%d,%d" % (s["epoch"], s["clock"]["tick"])
                env["TZ"] = s["zone"]
            cmd = [self.exe] + self.args(s)
            if marks:
                r = self.interactive(cmd, typed, marks, env, d)
            else:
                r = self.piped(cmd, "".join(typed).encode("latin-1"), env, d)
            r["files"] = {}
            for n in sorted(os.listdir(d)):
                p = os.path.join(d, n)
                if os.path.isfile(p):
                    with open(p, "rb") as fp:
                        r["files"][n] = fp.read().decode("latin-1")
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def limited(self, p):
        """Changed code may write or take memory without end."""
        try:
            if not self.sanitized:       # a sanitizer reserves much more
                resource.prlimit(p.pid, resource.RLIMIT_DATA, (3 << 30, 3 << 30))
            resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        except (OSError, ValueError):
            pass
        return p

    def piped(self, cmd, data, env, d):
        p = self.limited(subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                          cwd=d, env=env, bufsize=0))
        got, size, late, sent = {p.stdout: [], p.stderr: []}, 0, False, 0
        end = time.time() + self.limit
        os.set_blocking(p.stdin.fileno(), False)
        with selectors.PollSelector() as sel:
            sel.register(p.stdout, selectors.EVENT_READ)
            sel.register(p.stderr, selectors.EVENT_READ)
            if data:
                sel.register(p.stdin, selectors.EVENT_WRITE)
            else:
                p.stdin.close()
            while len(sel.get_map()) > (0 if p.stdin.closed else 1):
                left = end - time.time()
                if left <= 0 or size > MUCH:
                    late = True
                    p.kill()
                    break
                for key, _ in sel.select(left):
                    f = key.fileobj
                    if f is p.stdin:
                        try:
                            sent += os.write(f.fileno(), data[sent:sent + 65536])
                        except BlockingIOError:
                            continue
                        except BrokenPipeError:
                            sent = len(data)
                        if sent >= len(data):
                            sel.unregister(f)
                            f.close()
                    else:
                        x = os.read(f.fileno(), 65536)
                        if x:
                            got[f].append(x)
                            size += len(x)
                        else:
                            sel.unregister(f)
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            late = True
            p.kill()
            p.wait()
        for f in (p.stdin, p.stdout, p.stderr):
            f.close()
        return self.result(b"".join(got[p.stdout]), b"".join(got[p.stderr]), p.returncode, late)

    def result(self, out, err, code, late):
        if len(out) > 4000000:
            out = out[:4000000]
        return dict(out=out.decode("latin-1").replace("-nan", "nan"),
                    err=re.sub(r"(?m)^sh: .*not found\n", "", err.decode("latin-1")).replace("-nan", "nan"),
                    exit=code, late=late)

    def interactive(self, cmd, typed, marks, env, d):
        """Interrupt the process whenever it waits for the line after marks[i] lines."""
        of, ef = open(os.path.join(self.work, "o%d.%d" % (os.getpid(), id(d))), "w+b"), None
        ef = open(of.name + "e", "w+b")
        p = self.limited(subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=of, stderr=ef, cwd=d, env=env, bufsize=0))
        late = False
        try:
            done = 0
            for m in list(marks) + [len(typed)]:
                data = "".join(typed[done:m]).encode("latin-1")
                done = m
                try:
                    if data:
                        p.stdin.write(data)
                except BrokenPipeError:
                    break
                if m < len(typed) or m in marks:
                    self.settle(p)
                    for _ in range(1 + (m + len(typed)) % 3):    # once, twice or three times
                        if p.poll() is None:
                            p.send_signal(signal.SIGINT)
                        time.sleep(0.01)
            try:
                p.stdin.close()
            except BrokenPipeError:
                pass
            try:
                p.wait(self.limit)
            except subprocess.TimeoutExpired:
                late = True
                p.kill()
                p.wait()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        of.seek(0); ef.seek(0)
        r = self.result(of.read(), ef.read(), p.returncode, late)
        for f in (of, ef):
            f.close(); os.unlink(f.name)
        return r

    def delayed(self, s, typed, cuts, delay):
        """Interrupt the process some time after it has begun to execute what was typed up to each cut."""
        d = tempfile.mkdtemp(dir=self.work)
        try:
            for f in s["files"]:
                with open(os.path.join(d, f["name"]), "wb") as fp:
                    fp.write(f["text"].encode("latin-1"))
            of, ef = open(os.path.join(d, ".out"), "w+b"), open(os.path.join(d, ".err"), "w+b")
            p = self.limited(subprocess.Popen([self.exe] + self.args(s), stdin=subprocess.PIPE, stdout=of, stderr=ef, cwd=d, env=self.env, bufsize=0))
            late = False
            try:
                done = 0
                for m in cuts:
                    data = "".join(typed[done:m]).encode("latin-1")
                    done = m
                    if data:
                        p.stdin.write(data)
                    self.busy(p)
                    time.sleep(delay)
                    if p.poll() is None:
                        p.send_signal(signal.SIGINT)
                    self.settle(p)
                if done < len(typed):
                    p.stdin.write("".join(typed[done:]).encode("latin-1"))
                p.stdin.close()
                p.wait(self.limit)
            except BrokenPipeError:
                pass
            except subprocess.TimeoutExpired:
                late = True
            finally:
                if p.poll() is None:
                    try:
                        p.wait(1)
                    except subprocess.TimeoutExpired:
                        late = True
                        p.kill()
                        p.wait()
            of.seek(0); ef.seek(0)
            r = self.result(of.read(), ef.read(), p.returncode, late)
            of.close(); ef.close()
            r["files"] = {f["name"]: open(os.path.join(d, f["name"]), "rb").read().decode("latin-1") for f in s["files"]}
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def flooded(self, s, start, again, rest, times):
        """Type `start`; whenever the process is held up by output nobody reads, interrupt it, read,
        and type `again`, up to so many times; then type `rest`.  Adds how often it was interrupted."""
        d = tempfile.mkdtemp(dir=self.work)
        out, sent, late = [], 0, False
        try:
            for f in s["files"]:
                with open(os.path.join(d, f["name"]), "wb") as fp:
                    fp.write(f["text"].encode("latin-1"))
            ef = open(os.path.join(d, ".err"), "w+b")
            p = subprocess.Popen([self.exe] + self.args(s), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=ef, cwd=d, env=self.env, bufsize=0)
            fd = p.stdout.fileno()
            fcntl.fcntl(fd, 1031, 8192)     # a small pipe
            waiting = lambda f: struct.unpack("i", fcntl.ioctl(f, termios.FIONREAD, b"\0\0\0\0"))[0]
            try:
                p.stdin.write("".join(start).encode("latin-1"))
                for k in range(times):
                    self.settle(p)
                    if p.poll() is not None or waiting(fd) < 4096:
                        break
                    p.send_signal(signal.SIGINT)
                    sent += 1
                    end, calm = time.time() + self.limit, 0
                    while time.time() < end and calm < 3:     # until it waits for a line
                        if waiting(fd):
                            out.append(os.read(fd, 65536)); calm = 0
                            continue
                        if p.poll() is not None:
                            break
                        try:
                            st = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[0]
                        except OSError:
                            break
                        calm = calm + 1 if st == "S" else 0
                        time.sleep(0.002)
                    p.stdin.write("".join(again).encode("latin-1"))
                p.stdin.write("".join(rest).encode("latin-1"))
                p.stdin.close()
            except BrokenPipeError:
                pass
            end = time.time() + self.limit
            while True:
                if not waiting(fd) and p.poll() is None and time.time() < end:
                    time.sleep(0.001)
                    continue
                x = os.read(fd, 65536) if waiting(fd) or p.poll() is not None else b""
                if not x:
                    break
                out.append(x)
            if p.poll() is None:
                late = True
                p.kill()
            p.wait()
            p.stdout.close()
            ef.seek(0)
            r = self.result(b"".join(out), ef.read(), p.returncode, late)
            ef.close()
            r["sent"] = sent
            r["files"] = {f["name"]: open(os.path.join(d, f["name"]), "rb").read().decode("latin-1") for f in s["files"]}
            return r
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def busy(self, p):
        """Wait until the process has read everything and is computing."""
        end = time.time() + self.limit
        start = None
        while time.time() < end and p.poll() is None:
            left = struct.unpack("i", fcntl.ioctl(p.stdin.fileno(), termios.FIONREAD, b"\0\0\0\0"))[0]
            try:
                st = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
            except OSError:
                return
            used = int(st[11]) + int(st[12])
            if left:
                start = None
            elif start is None:
                start = used
            elif used >= start + 3:
                return
            time.sleep(0.002)

    def settle(self, p):
        """Wait until the process has read everything and sleeps, waiting for more input."""
        end = time.time() + self.limit
        calm = 0
        while time.time() < end and p.poll() is None:
            left = struct.unpack("i", fcntl.ioctl(p.stdin.fileno(), termios.FIONREAD, b"\0\0\0\0"))[0]
            try:
                st = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()[0]
            except OSError:
                return
            calm = calm + 1 if left == 0 and st == "S" else 0
            if calm >= 4:
                return
            time.sleep(0.002)


# ---------------------------------------------------------------- comparison
def loose(err):
    """The error output without the wording of messages."""
    ls = err.split("\n")
    res, i = [], 0
    while i < len(ls):
        l = ls[i]
        if l.startswith("Runtime error: "):
            nxt = ls[i + 1] if i + 1 < len(ls) else ""
            if re.match(r"\d+ ", nxt):
                res.append(("runtime", nxt)); i += 1
            else:
                res.append(("runtime", ""))
        elif re.match(r"^ *\^$", l):
            res.append(("syntax", ls[i - 1] if i else ""))
        i += 1
    if not res and err:
        res.append(("message",))
    return res


def compare(rep, real, exact):
    """What differs between a report of the specification and the real run, or None."""
    fix = lambda t: t.replace("-nan", "nan")
    if real["late"]:
        return "does not end"
    if real["exit"] != rep["exit"]:
        return "exit status %s, expected %s" % (real["exit"], rep["exit"])
    if "out" not in rep["session"].get("ignore", ()) and fix(rep["out"]) != real["out"]:
        return "output differs"
    if exact:
        if fix(rep["err"]) != real["err"]:
            return "error output differs"
    elif loose(fix(rep["err"])) != loose(real["err"]):
        return "error output differs"
    if rep["files"] != real["files"]:
        return "files differ"
    return None


def key_of(s, typed):
    h = hashlib.sha256(json.dumps([s[k] for k in ("what", "any", "trace", "quiet", "file", "files", "breaks")] +
                                  [s.get("opts", []), s["argv"], s.get("rand"), s.get("epoch"), s.get("zone"), s["clock"]["tick"]] + list(typed)).encode())
    return h.hexdigest()[:16]


# ---------------------------------------------------------------- random streams
def stream_program(seed, count):
    p = ["10 FOR I=1 TO %d" % count, "20 X=RND", "30 FOR J=1 TO 6:X=X*65536:PRINT INT(X);:X=X-INT(X):NEXT", "40 PRINT:NEXT I"]
    if seed is not None:
        p.insert(0, "5 RANDOMIZE %d" % seed)
    return "\n".join(p) + "\n"


def learn_streams(real, seeds, count):
    """The sequence of RND for each seed as the interpreter itself produces it in
    a plain loop (exactly: each value is printed in 16-bit parts)."""
    res = {}
    for sd in seeds:
        s = session("streams", what="run", file="p.bas", files={"p.bas": stream_program(sd, count)})
        r = real.replay(s, [])
        vals = []
        for l in r["out"].splitlines():
            try:
                p = [float(x) for x in l.split()]
            except ValueError:
                continue
            if len(p) == 6:
                vals.append(sum(q / 65536.0 ** (i + 1) for i, q in reversed(list(enumerate(p)))))
        res[sd] = vals
    return res


def java_double(x):
    """A number as Java writes it."""
    if x == int(x) and abs(x) < 1e7:
        return "%d.0" % int(x)
    if abs(x) >= 1e7 or abs(x) < 1e-3:
        m, e = ("%r" % float("%r" % x)).partition("e")[::2] if "e" in repr(x) else (repr(x), "0")
        d = "%.17g" % x
        for k in range(1, 18):
            d = "%.*e" % (k, x)
            if float(d) == x:
                break
        m, e = d.split("e")
        m = m.rstrip("0")
        return m + ("0" if m.endswith(".") else "") + "E%d" % int(e)
    return repr(x)
