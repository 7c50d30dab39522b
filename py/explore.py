"""Exhaustive exploration of choice sequences, the Python side of the checker.

A suite is a function of a Chooser.  Every sequence of answers its calls of
choose() can get is executed once, from a fresh start.  The work is split into
prefixes which are explored by forked workers.
"""
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback


class Failure(Exception):
    """The property does not hold on this execution."""


class HarnessError(Exception):
    """The checker itself is wrong."""


class Hang(BaseException):
    pass


class Chooser:
    planning = False   # while the work is split; nothing may be left out then

    def __init__(self, script, verbose=False):
        self.script = script
        self.pos = 0
        self.taken = []   # (choice, number of alternatives)
        self.trace = []
        self.ops = 0
        self.last_state = None
        self.verbose = verbose

    def choose(self, n):
        if n < 1:
            raise HarnessError("choose(%d)" % n)
        c = self.script[self.pos] if self.pos < len(self.script) else 0
        if c >= n:
            raise HarnessError("choice %d of %d at %d: not reproducible" % (c, n, self.pos))
        self.pos += 1
        self.taken.append((c, n))
        return c

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def flag(self):
        return bool(self.choose(2))

    def note(self, text):
        self.trace.append(text)

    def op(self, text):
        self.ops += 1
        self.trace.append(text)

    def state(self, *obj):
        self.last_state = repr(obj)

    def fail(self, msg):
        raise Failure(msg)

    def equal(self, got, want, what):
        if got != want or type(got) is not type(want):
            raise Failure("%s: got %r, should be %r" % (what, got, want))

    def require(self, ok, what):
        if not ok:
            raise Failure(what)


class Suite:
    def __init__(self, name, bounds, run, split=64):
        # split: into how many parts the work is cut, at least (what one part
        # knows of states reached before, the others do not)
        self.name, self.bounds, self.run, self.split = name, bounds, run, split


class Property:
    def __init__(self, suites, assumptions=(), rule=None):
        self.suites, self.assumptions, self.rule = suites, list(assumptions), rule


def _alarm(*_):
    raise Hang()


HANG = 60


def execute(suite, script):
    """One execution.  Returns (chooser, None or (key, message))."""
    c = Chooser(script)
    signal.setitimer(signal.ITIMER_REAL, HANG)
    problem = None
    try:
        suite.run(c)
    except Failure as e:
        problem = (str(e), str(e))
    except HarnessError:
        raise
    except Hang:
        problem = ("hang", "no progress for %d s: the code under test does not terminate on this case" % HANG)
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:  # the code under test failed
        problem = ("%s: %s" % (type(e).__name__, e), traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if problem is None and c.pos < len(script):
        raise HarnessError("only %d of %d choices used: not reproducible" % (c.pos, len(script)))
    return c, problem


def advance(taken, keep):
    """The next script in depth-first order that keeps the first `keep` choices."""
    i = len(taken) - 1
    while i >= keep:
        if taken[i][0] + 1 < taken[i][1]:
            return [t[0] for t in taken[:i]] + [taken[i][0] + 1]
        i -= 1
    return None


def expand(suite, want):
    """Splits the executions of a suite into prefixes (complete and disjoint)."""
    units, frontier = [], [[]]
    while frontier and len(units) + len(frontier) < want:
        nxt = []
        for p in frontier:
            c, problem = execute(suite, p)
            if len(c.taken) <= len(p):
                units.append(p)
                continue
            for k in range(c.taken[len(p)][1]):
                nxt.append(p + [k])
        frontier = nxt
    return units + frontier


def worker(prop_fn, tier, units, deadline, known, conn, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    sys.unraisablehook = lambda *_: None
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    res = dict(executions=0, transitions=0, max_depth=0, truncated=False, per={}, samples=[], violations=[], known=[], error=None)
    states = set()
    try:
        suites = prop_fn(tier).suites
        sampled = set()
        for si, prefix in units:
            suite = suites[si]
            script = list(prefix)
            while script is not None:
                if time.time() > deadline:
                    res["truncated"] = True
                    break
                c, problem = execute(suite, script)
                res["executions"] += 1
                res["transitions"] += max(c.ops, 1)
                res["max_depth"] = max(res["max_depth"], len(c.taken))
                res["per"][suite.name] = res["per"].get(suite.name, 0) + 1
                if c.last_state is not None:
                    states.add(hashlib.blake2b((suite.name + c.last_state).encode("utf-8", "surrogatepass"), digest_size=8).digest())
                if problem:
                    v = dict(suite=suite.name, choices=[t[0] for t in c.taken], key=suite.name + " | " + problem[0], msg=problem[1], trace=c.trace)
                    if v["key"] in known:
                        res["known"].append(v["key"])
                    else:
                        res["violations"].append(v)
                        if len(res["violations"]) >= 3:
                            raise StopIteration
                elif suite.name not in sampled and len(c.trace) > 1:
                    sampled.add(suite.name)
                    res["samples"].append(suite.name + ": " + "; ".join(c.trace))
                script = advance(c.taken, len(prefix))
            if res["truncated"]:
                break
    except StopIteration:
        pass
    except BaseException:
        res["error"] = traceback.format_exc()
    conn.send((res, states))
    conn.close()


def main(args, prop_fn):
    start = time.time()
    limit = int(os.environ.get("VERIF_DEADLINE", 0)) or (780 if args.tier == "thorough" else 300)
    known = {}
    if args.known and os.path.exists(args.known):
        for line in open(args.known):
            if line.strip():
                k = json.loads(line)
                if k.get("property") == args.prop and k.get("status") != "fixed":
                    known[k["key"]] = k["what"]
    signal.signal(signal.SIGALRM, _alarm)
    prop = prop_fn(args.tier)
    sys.unraisablehook = lambda *_: None
    if args.replay:
        return replay(args, prop)
    workers = min(8, os.cpu_count() or 1)
    out = sys.stdout
    units = []
    cwd = os.getcwd()
    tmp = os.path.join(args.scratch, "plan")
    os.makedirs(tmp, exist_ok=True)
    os.chdir(tmp)
    sys.stdout = open(os.devnull, "w")
    Chooser.planning = True
    for si, s in enumerate(prop.suites):
        units += [(si, p) for p in expand(s, s.split)]
    Chooser.planning = False
    sys.stdout = out
    os.chdir(cwd)
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(prop_fn, args.tier, units[w::workers], start + limit, known, b, os.path.join(args.scratch, "w%d" % w)))
        p.start()
        b.close()
        procs.append((p, a))
    tot = dict(executions=0, transitions=0, max_depth=0, truncated=False, per={}, samples=[], violations=[], known=[])
    states, broken = set(), False
    for p, a in procs:
        try:
            res, st = a.recv()
        except EOFError:
            p.join()
            print("worker failed: %s" % p.exitcode, file=sys.stderr)
            broken = True
            continue
        p.join()
        if res["error"]:
            print(res["error"], file=sys.stderr)
            broken = True
        states |= st
        for k in ("executions", "transitions"):
            tot[k] += res[k]
        tot["max_depth"] = max(tot["max_depth"], res["max_depth"])
        tot["truncated"] |= res["truncated"]
        for k, n in res["per"].items():
            tot["per"][k] = tot["per"].get(k, 0) + n
        for k in ("samples", "violations", "known"):
            tot[k] += res[k]
    for k in sorted(set(tot["known"])):
        print("KNOWN-FINDING: property=%s %s" % (args.prop, known[k]))
    viols = sorted(tot["violations"], key=lambda v: len(v["choices"]))
    rule = prop.rule or "stateless model checking of the real implementation: every choice sequence of every suite within its bounds is executed from a fresh instance and compared with a reference model; 'states' counts distinct final observations"
    seen, samples = set(), []
    for s in tot["samples"]:
        name = s.split(":")[0]
        if name not in seen:
            seen.add(name)
            samples.append(s[:1500])
    ev = {
        "property": args.prop, "tier": args.tier, "seed": args.seed, "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["executions"],
            "max_choice_depth": tot["max_depth"],
            "exhaustive": not tot["truncated"] and not viols and not broken,
            "suites": [{"name": s.name, "bounds": s.bounds, "executions": tot["per"].get(s.name, 0)} for s in prop.suites],
            "samples": samples[:6], "rule": rule, "workers": workers,
        },
        "assumptions": ["the Python interpreter and its standard library work as documented", "nothing is claimed beyond the bounds listed per suite"] + prop.assumptions,
        "wall_s": time.time() - start, "violations": len(viols),
    }
    if args.evidence:
        os.makedirs(os.path.dirname(args.evidence), exist_ok=True)
        with open(args.evidence, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if viols:
        v = viols[0]
        os.makedirs(args.replaydir, exist_ok=True)
        path = os.path.join(args.replaydir, args.prop + ".json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
            f.write("\n")
        print("VIOLATION property=%s replay=%s" % (args.prop, path))
        print("suite " + v["suite"])
        for line in v["trace"]:
            print("   " + line)
        print(v["msg"])
        return 1
    if broken:
        return 3
    print("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%s wall=%.1fs" % (
        args.prop, args.tier, tot["executions"], len(states), tot["transitions"], str(not tot["truncated"]).lower(), time.time() - start))
    return 0


def replay(args, prop):
    v = json.load(open(args.replay))
    for s in prop.suites:
        if s.name == v["suite"]:
            tmp = os.path.join(args.scratch, "replay")
            os.makedirs(tmp, exist_ok=True)
            os.chdir(tmp)
            out = sys.stdout
            sys.stdout = open(os.devnull, "w")
            c, problem = execute(s, v["choices"])
            sys.stdout = out
            for line in c.trace:
                print("   " + line)
            if problem:
                print("VIOLATION property=%s replay=%s" % (args.prop, args.replay))
                print(problem[1])
                return 1
            print("no violation on this execution")
            return 0
    print("no suite %s in this tier" % v["suite"], file=sys.stderr)
    return 2
