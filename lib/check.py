#!/usr/bin/env python3
"""python3 lib/check.py PROPERTY [quick|thorough]

Decides one property: explores the specification for the sessions made for the
property (lib/gen.py), replays every behaviour on the interpreter built from
/repo, and reports each that differs.  Exit 0: none; 1: some, with VIOLATION
lines; 2: the check could not be carried out."""
import json, os, random, resource, shutil, signal, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lb, gen, gen2, gen3, gen4, gen5, gen6, gen7, gen8, gen9, gen10

KNOWN = os.path.join(lb.VERIF, "known-findings.txt")
EVIDENCE = os.environ.get("LB_EVIDENCE", os.path.join(lb.VERIF, "evidence"))
MAXSHOWN = 5
ENOUGH = 780             # seconds, of a quick check


def known_findings(pid):
    """Open findings of this property: key -> description."""
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            p = l.split()
            if len(p) > 2 and p[0] == "known:" and p[1] == "property=" + pid and p[2].startswith("key="):
                res[p[2][4:]] = " ".join(p[3:])
    return res


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="lbcheck.")
        self.known = known_findings(pid)
        self.violations = []
        self.seen_known = set()
        self.traces = self.evals = self.skipped = self.erring = self.pairs = 0
        self.keys = set()
        self.fams = {}
        self.samples = []
        self.exact = pid in ("C01", "C14", "C18")
        self.pool = ThreadPoolExecutor(lb.CPUS)

    def elapsed(self):
        return time.time() - self.t0

    def prepare(self):
        for i in range(1, MAXSHOWN + 1):
            p = os.path.join(EVIDENCE, "%s-violation-%d.json" % (self.pid, i))
            if os.path.exists(p):
                os.unlink(p)
        prop = gen.PROPS[self.pid]
        b = self.pool.submit(lb.build_interpreter, os.path.join(self.work, "build"), prop.flags)
        shim = lb.build_shim(self.work)
        self.tlc = lb.Tlc(self.work)
        self.real = lb.Real(b.result(), self.work, shim, env=prop.env, sanitized="sanitize" in prop.flags)
        self.rnd = prop.streams(self)

    # ---- one comparison
    def one(self, job):
        """job: (session, typed, marks, expected report, exact, judge)"""
        s, typed, marks, rep, judge = job
        if len(self.violations) > MAXSHOWN * 3 or self.tier == "quick" and self.elapsed() > ENOUGH:
            return job, None, None
        r = self.real.replay(s, typed, marks)
        d = judge(self, rep, r, s, typed)
        if d:       # only what repeats is reported
            r2 = self.real.replay(s, typed, marks)
            d = judge(self, rep, r2, s, typed)
            r = r2
        return job, r, d

    def batch(self, sessions, cfg="Tree.cfg"):
        prop = gen.PROPS[self.pid]
        for i, s in enumerate(sessions):
            s.setdefault("opts", [])
        left = max(60, min(840, 860 - self.elapsed())) if self.tier == "quick" else 3000
        reports = self.tlc.explore(sessions, cfg=cfg, rnd=self.rnd, timeout=left, module=prop.module)
        self.groups(reports)
        jobs = []
        for p in reports:
            if p["mode"] == "done":
                js = prop.jobs(self, p)
            else:
                self.skipped += 1
                js = prop.lost(self, p) if p["mode"] == "lost" else []
            for j in js:
                k = lb.key_of(j[0], j[1])
                if k in self.keys:
                    continue
                self.keys.add(k)
                jobs.append(j)
        self.replay(jobs)

    def replay(self, jobs):
        for job, r, d in self.pool.map(self.one, jobs):
            s, typed, marks, rep, judge = job
            if r is None:        # there was no time for it
                self.skipped += 1
                continue
            self.evals += 1
            if rep is not None:
                self.traces += 1
                f = self.fams.setdefault(s["fam"], [0, 0])
                f[0] += 1
                if rep["err"]:
                    f[1] += 1
                    self.erring += 1
            if d:
                self.violation(s, typed, marks, rep, r, d)
            elif len(self.samples) < 3 and self.rng.random() < 0.02:
                self.samples.append(self.case(s, typed, marks, rep, r))
        if not self.samples and jobs:
            s, typed, marks, rep, judge = jobs[0]
            self.samples.append(self.case(s, typed, marks, rep, None))

    def groups(self, reports):
        """Behaviours of the specification that have to agree with each other."""
        first = {}
        for p in reports:
            s = p["session"]
            if "group" not in s or p["mode"] != "done":
                continue
            k = (s["group"], tuple(p["path"][s.get("own", 0):]))
            v = s["view"](p)
            if k not in first:
                first[k] = (v, p)
            else:
                self.pairs += 1
                if first[k][0] != v:
                    self.violation(s, p["typed"], p["marks"], p, None, "the specification does not give the same as for %r" % (first[k][1]["typed"],))

    def case(self, s, typed, marks, rep, r):
        c = dict(family=s["fam"], args=self.real.args(s), files=s["files"], typed=list(typed),
                 interrupted_before_reading_line=list(marks), interrupted_in_sin=s["breaks"]["sin"])
        if rep is not None:
            c["expected"] = {k: rep[k] for k in ("out", "err", "exit", "files")}
        if r is not None:
            c["observed"] = {k: r[k] for k in ("out", "err", "exit", "files")}
        return c

    def violation(self, s, typed, marks, rep, r, d):
        k = lb.key_of(s, typed)
        if k in self.known:
            if k not in self.seen_known:
                self.seen_known.add(k)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
            return
        self.violations.append(k)
        if len(self.violations) > MAXSHOWN:
            return
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, "%s-violation-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, key=k, what=d, case=self.case(s, typed, marks, rep, r)), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  %s: %s" % (s["fam"], d))
        sys.stdout.flush()

    def evidence(self):
        prop = gen.PROPS[self.pid]
        os.makedirs(EVIDENCE, exist_ok=True)
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level=prop.level,
                 coverage=dict(states=self.tlc.states, transitions=self.tlc.transitions,
                               traces_validated_against_impl=self.traces,
                               evaluations=self.evals, distinct_nontrivial=len(self.keys),
                               rule=prop.rule,
                               behaviours_compared_with_another=self.pairs,
                               behaviours_not_replayed=self.skipped,
                               behaviours_with_an_error_reported=self.erring,
                               families={k: dict(replayed=v[0], with_error=v[1]) for k, v in sorted(self.fams.items())},
                               instructions_executed_in_the_specification=dict(sorted(self.tlc.tally.items())),
                               tlc_seconds=round(self.tlc.seconds, 1),
                               samples=self.samples[:3]),
                 assumptions=gen.ASSUMPTIONS + prop.assumptions,
                 wall_s=round(self.elapsed(), 1), violations=len(self.violations))
        d["coverage"].update(prop.extra)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def run(self):
        prop = gen.PROPS[self.pid]
        try:
            self.prepare()
            for item in prop.batches(self):
                if isinstance(item, tuple):
                    self.batch(item[0], cfg=item[1])
                else:
                    self.batch(item)
                if self.violations:
                    break
            if not self.violations:
                self.replay([(s, typed, [], None, judge) for s, typed, judge in prop.raw(self)])
            if self.traces == 0 and not self.violations:
                raise lb.CheckError("nothing was checked")
            self.evidence()
        except lb.CheckError as e:
            print("CHECK ERROR property=%s: %s" % (self.pid, e))
            return 1 if self.violations else 2
        finally:
            self.pool.shutdown()
            shutil.rmtree(self.work, ignore_errors=True)
        for k in sorted(set(self.known) - self.seen_known):
            print("note: known finding %s was not met in this run" % k)
        print("%s %s: %d behaviours replayed, %d states, %.1f s, %d violations" %
              (self.pid, self.tier, self.traces, self.tlc.states, self.elapsed(), len(self.violations)))
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    # few files may be open, so that files left open show
    resource.setrlimit(resource.RLIMIT_NOFILE, (128, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    c = Check(pid, tier, seed)
    try:
        sys.exit(c.run())
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    main()
