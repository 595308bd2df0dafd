"""Runner: drives generated cases (Hypothesis) against an oracle, in parallel, reproducibly.

A check module defines PROPERTY, LEVEL, RULE, ASSUMPTIONS, prepare(ctx) and targets(ctx).
Every target has a Hypothesis strategy of JSON-serialisable cases, and run(env, case), which
raises Violation when the property is broken, and returns a Result otherwise.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Violation(Exception):
    """The code under test broke the property on this case."""


class Inconclusive(Exception):
    """This case could not be decided (a resource of the machine, not the code under test)."""


class Result:
    """What a passing case covered."""
    __slots__ = ("nontrivial", "labels", "evals")

    def __init__(self, nontrivial=True, labels=(), evals=1):
        self.nontrivial = nontrivial
        self.labels = list(labels)
        self.evals = evals


class Target:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=NPROC, examples=(),
                 weight=1):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.shards = shards
        self.examples = list(examples)
        self.weight = weight


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=scratch_root())
        self.notes = []
        self.t0 = time.time()

    def note(self, s):
        self.notes.append(s)
        print("NOTE: " + s, flush=True)

    def path(self, *a):
        return os.path.join(self.scratch, *a)


def scratch_root():
    d = os.environ.get("VERIF_SCRATCH", "/tmp")
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------------------------------------
# processes under test

class Crash(Exception):
    pass


class Server:
    """A harness process: one case per line on stdin, an answer of lines ended by '=END'."""

    def __init__(self, argv, env=None, cwd=None, timeout=90, stderr_dir=None, mem_gb=None):
        self.argv = argv
        self.env = env
        self.cwd = cwd
        self.timeout = timeout
        self.stderr_dir = stderr_dir or scratch_root()
        self.mem_gb = mem_gb
        self.p = None

    def start(self):
        self.err = tempfile.NamedTemporaryFile(prefix="err-", dir=self.stderr_dir, delete=False)

        def pre():
            os.setsid()
            if self.mem_gb:
                import resource
                b = int(self.mem_gb * 2**30)
                resource.setrlimit(resource.RLIMIT_AS, (b, b))
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=self.env, cwd=self.cwd, preexec_fn=pre)
        self.buf = b""
        self.cases = 0

    def stop(self):
        if self.p is None:
            return
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.stdout.close()
        self.p.wait()
        self.p = None
        self.err.close()
        try:
            os.unlink(self.err.name)
        except OSError:
            pass

    def stderr_tail(self, n=3000):
        try:
            with open(self.err.name, errors="replace") as f:
                return f.read()[-n:]
        except OSError:
            return ""

    def stderr_head(self, n=3000):
        try:
            with open(self.err.name, errors="replace") as f:
                return f.read(n)
        except OSError:
            return ""

    def finish(self):
        """Close stdin, wait for a normal exit, return (exit status, stderr)."""
        if self.p is None:
            return 0, ""
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            rc = None
        s = self.stderr_tail(20000)
        self.stop()
        return rc, s

    def ask(self, line, timeout=None):
        if self.p is None:
            self.start()
        self.cases += 1
        data = line.rstrip("\n").encode() + b"\n"
        t_end = time.time() + (timeout or self.timeout)
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._dead("died")
        fd = self.p.stdout.fileno()
        while True:
            k = self.buf.find(b"=END\n")
            if k == 0 or (k > 0 and self.buf[k - 1:k] == b"\n"):
                out = self.buf[:k]
                self.buf = self.buf[k + 5:]
                return out.decode(errors="replace").split("\n")[:-1]
            left = t_end - time.time()
            if left <= 0:
                tail = self.stderr_tail()
                self.stop()
                raise Crash("no answer within %d s (hang); stderr: %s" % (timeout or self.timeout,
                                                                          tail))
            r, _, _ = select.select([fd], [], [], min(left, 1.0))
            if r:
                b = os.read(fd, 1 << 16)
                if not b:
                    self._dead("died")
                self.buf += b

    def _dead(self, what):
        out = self.buf.decode(errors="replace")[-500:]
        try:
            rc = self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            rc = None
        head = self.stderr_head(2500)
        tail = self.stderr_tail(1500)
        self.stop()
        raise Crash("process %s (status %s)\nstderr: %s\n...\n%s\nstdout: %s"
                    % (what, rc, head, tail, out))


class Env:
    """Per-worker state: servers and a private directory."""

    def __init__(self, ctx, tag):
        self.ctx = ctx
        self.dir = os.path.join(ctx.scratch, "w-" + tag)
        os.makedirs(self.dir, exist_ok=True)
        self.servers = {}
        self.ever_served = False

    def server(self, key, argv, **kw):
        s = self.servers.get(key)
        self.ever_served = True
        if s is None:
            s = Server(argv, stderr_dir=self.dir, **kw)
            self.servers[key] = s
        return s

    def fresh_dir(self):
        d = os.path.join(self.dir, "case")
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def close(self):
        for s in self.servers.values():
            s.stop()
        self.servers = {}


def run_cmd(argv, cwd=None, env=None, timeout=120, input=None):
    """Run a program to its end. Returns (status, stdout, stderr); status None on a timeout."""
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.PIPE if input else
                         subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    try:
        o, e = p.communicate(input=input, timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o.decode(errors="replace"), e.decode(errors="replace")


# ---------------------------------------------------------------------------------------------
# exploration

def case_key(case):
    return json.dumps(case, sort_keys=True)


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


class Stats:
    def __init__(self):
        self.cases = 0
        self.evals = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.inconclusive = 0
        self.skipped = 0
        self.errors = []
        self.failure = None     # (case, message)
        self.first = None       # the first failing case
        self.history = []       # the cases the same processes ran before it


SHRINK_S = {"quick": 60, "thorough": 300}


def explore_shard(ctx, target, shard, n, examples, deadline):
    from hypothesis import HealthCheck, Phase, given, seed, settings
    st = Stats()
    env = Env(ctx, "%s-%d" % (target.name.replace("/", "_"), shard))
    failed = {}
    first_fail = [None]

    def one(case):
        key = case_key(case)
        if key in failed:
            raise Violation(failed[key])
        now = time.time()
        if now > deadline or (first_fail[0] and now > first_fail[0] + SHRINK_S[ctx.tier]):
            st.skipped += 1
            return
        st.cases += 1
        if first_fail[0] is None:
            st.history.append(case)     # the last of them is the one that fails, if any
        try:
            r = target.run(env, case)
        except Violation as e:
            failed[key] = str(e)
            st.last = (case, str(e))
            if first_fail[0] is None:
                first_fail[0] = time.time()
                st.first = case
            raise Violation(str(e)) from None
        except Inconclusive as e:
            st.inconclusive += 1
            if len(st.errors) < 3:
                st.errors.append("inconclusive: " + str(e)[:500])
            return
        except Exception:
            st.inconclusive += 1
            if len(st.errors) < 3:
                st.errors.append("harness error on %s: %s" % (key[:500],
                                                              traceback.format_exc()[-1500:]))
            env.close()
            return
        st.evals += r.evals
        if r.nontrivial:
            h = hashlib.md5(key.encode()).digest()[:8]
            if h not in st.nontrivial:
                st.nontrivial.add(h)
                if len(st.samples) < 2 and (st.cases > 3 or n < 6):
                    st.samples.append(case)
        for lab in r.labels:
            st.labels[lab] += 1

    try:
        try:
            for case in examples:
                one(case)
            if n > 0 and target.strategy is not None:
                @seed(subseed(ctx.seed, ctx.prop, target.name, shard))
                @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                          suppress_health_check=list(HealthCheck),
                          phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)
                @given(target.strategy)
                def t(case):
                    one(case)
                t()
        except Violation:
            st.failure = st.last
        except BaseException as e:     # Flaky and the like: what failed is in st.last
            if hasattr(st, "last"):
                st.failure = st.last
            else:
                st.errors.append("shard error: %s" % traceback.format_exc()[-1500:])
                if isinstance(e, KeyboardInterrupt):
                    raise
    finally:
        env.close()
    st.history = st.history[:-1] if st.failure and env.ever_served else []
    if st.failure:
        # the smallest failing case seen, should the library have stopped early
        best = min(failed, key=lambda k: (len(k), k))
        if len(best) < len(case_key(st.failure[0])):
            st.failure = (json.loads(best), failed[best])
    return st


def _worker(ctx, items, counter, q, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(items):
            break
        tname, target, shard, n, ex = items[i]
        try:
            st = explore_shard(ctx, target, shard, n, ex, deadline)
        except BaseException:
            st = Stats()
            st.errors.append("worker error: " + traceback.format_exc()[-1500:])
        q.put((i, st))
    q.put((None, None))


def explore(ctx, targets, budget_s, scale=1.0):
    """Run all shards of all targets. Returns {target name: [Stats]}."""
    mp = multiprocessing.get_context("fork")
    items = []
    for t in sorted(targets, key=lambda t: -t.weight):
        n = t.quick if ctx.tier == "quick" else t.thorough
        n = int(n * scale)
        for s in range(t.shards):
            k = n // t.shards + (1 if s < n % t.shards else 0)
            ex = t.examples[s::t.shards]
            if k or ex:
                items.append((t.name, t, s, k, ex))
    counter = mp.Value("i", 0)
    q = mp.Queue()
    deadline = time.time() + budget_s
    procs = [mp.Process(target=_worker, args=(ctx, items, counter, q, deadline))
             for _ in range(min(NPROC, len(items)))]
    for p in procs:
        p.start()
    res = collections.defaultdict(list)
    done = 0
    got = 0
    hard = deadline + SHRINK_S[ctx.tier] + 150
    while done < len(procs):
        try:
            i, st = q.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in procs) or time.time() > hard:
                break
            continue
        if i is None:
            done += 1
            continue
        got += 1
        res[items[i][0]].append(st)
    for p in procs:
        if p.is_alive():
            p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
    if got < len(items):
        ctx.note("%d of %d work items gave no result" % (len(items) - got, len(items)))
    return res


def replay_in_child(ctx, target, cases, k):
    """Run cases one after the other in a fresh process with fresh servers.
    Returns the message of the last one or None."""
    mp = multiprocessing.get_context("fork")
    q = mp.Queue()

    def f():
        env = Env(ctx, "replay-%d" % k)
        m = None
        try:
            for c in cases[:-1]:
                try:
                    target.run(env, c)
                except (Violation, Inconclusive):
                    pass
            target.run(env, cases[-1])
        except Violation as e:
            m = str(e)
        except BaseException:
            pass
        finally:
            env.close()
        q.put(m)
    p = mp.Process(target=f)
    p.start()
    try:
        m = q.get(timeout=240)
    except Exception:
        m = None
    p.join(10)
    if p.is_alive():
        p.kill()
    return m


def with_history(ctx, target, history, case):
    """A case that failed in processes that had run other cases, and does not fail in fresh ones:
    the fewest earlier cases (by delta debugging) after which it does. Returns (cases, message)."""
    msg = [None]

    def fails(cases):
        m = replay_in_child(ctx, target, cases + [case], 0)
        if m:
            msg[0] = m
        return m is not None
    t_end = time.time() + SHRINK_S[ctx.tier]
    if not (fails(history) and fails(history)):
        return None, None
    cur, n = list(history), 2
    while len(cur) > 1 and time.time() < t_end:
        size = -(-len(cur) // n)
        parts = [cur[i:i + size] for i in range(0, len(cur), size)]
        for i, part in enumerate(parts):
            if time.time() > t_end:
                break
            if fails(part):
                cur, n = part, 2
                break
            rest = [c for j, q in enumerate(parts) if j != i for c in q]
            if len(parts) > 2 and fails(rest):
                cur, n = rest, max(n - 1, 2)
                break
        else:
            if n >= len(cur):
                break
            n = min(2 * n, len(cur))
    if len(cur) == 1 and fails([]):
        cur = []
    if not (fails(cur) and fails(cur)):
        return None, None
    return cur + [case], msg[0]


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def known_findings():
    """[(property, target, key, text)] of the lines 'known: property=<id> target=<t> case=<json> | text'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                head, _, text = line[6:].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                out.append((d["property"], d.get("target"), d.get("key"), text.strip()))
    return out


def trim(case, n=1500):
    s = json.dumps(case)
    return case if len(s) <= n else {"truncated": s[:n]}


def run_check(mod, tier, seed, budget_s):
    prop = mod.PROPERTY
    ctx = Ctx(prop, tier, seed)
    rc = 0
    failures = []
    extra = {}
    try:
        try:
            mod.prepare(ctx)
            targets = mod.targets(ctx)
        except Exception as e:
            if type(e).__name__ != "BuildError":
                raise
            print("ERROR: the working tree does not build, nothing was decided:\n%s" % str(e)[-5000:],
                  file=sys.stderr)
            return 2
        t_prep = time.time() - ctx.t0
        res = explore(ctx, targets, budget_s)
        if hasattr(mod, "known"):
            for line in mod.known(ctx):
                print("KNOWN-FINDING: property=%s %s" % (prop, line), flush=True)
        by_name = {t.name: t for t in targets}
        unreproduced = []
        for name, sts in sorted(res.items()):
            fails = [s.failure for s in sts if s.failure]
            if not fails:
                continue
            found = len(failures)
            fails.sort(key=lambda f: (len(case_key(f[0])), case_key(f[0])))
            for case, msg in fails[:3]:
                msgs = [replay_in_child(ctx, by_name[name], [case], k) for k in range(3)]
                hits = [m for m in msgs if m]
                if len(hits) >= 2:
                    failures.append((name, [case], hits[-1]))
                    break
                unreproduced.append({"target": name, "case": trim(case), "message": msg[:800],
                                     "reproduced": "%d/3" % len(hits)})
            if len(failures) == found:
                hs = [s for s in sts if s.failure and s.history]
                hs.sort(key=lambda s: len(s.history))
                for s in hs[:2]:
                    cases, m = with_history(ctx, by_name[name], s.history, s.first)
                    if cases:
                        failures.append((name, cases, m))
                        break
        cov_targets = {}
        tot_cases = tot_evals = 0
        distinct = 0
        samples = []
        errors = []
        for name, sts in sorted(res.items()):
            nt = set().union(*[s.nontrivial for s in sts]) if sts else set()
            lab = collections.Counter()
            for s in sts:
                lab.update(s.labels)
                errors += s.errors
            c = sum(s.cases for s in sts)
            cov_targets[name] = {
                "cases": c, "judgements": sum(s.evals for s in sts),
                "distinct_nontrivial": len(nt),
                "inconclusive": sum(s.inconclusive for s in sts),
                "skipped_for_time": sum(s.skipped for s in sts),
                "labels": dict(sorted(lab.items()))}
            tot_cases += c
            tot_evals += sum(s.evals for s in sts)
            distinct += len(nt)
            for s in sts[:2]:
                for x in s.samples[:1]:
                    samples.append({"target": name, "case": trim(x)})
        for e in errors[:5]:
            print("INCONCLUSIVE: " + e, file=sys.stderr)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
              "coverage": {"evaluations": tot_cases, "distinct_nontrivial": distinct,
                           "rule": mod.RULE, "samples": samples[:24],
                           "judgements": tot_evals, "targets": cov_targets,
                           "notes": ctx.notes, "unreproduced": unreproduced,
                           "harness_errors": errors[:5], "prepare_s": round(t_prep, 1)},
              "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(time.time() - ctx.t0, 2),
              "violations": len(failures)}
        for k, (name, cases, msg) in enumerate(failures):
            case = cases[-1]
            if len(cases) > 1:
                msg = "after %d other case(s) run by the same process: %s" % (len(cases) - 1, msg)
            rp = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (
                prop, name.replace("/", "_")))
            write_json(rp, {"property": prop, "target": name, "case": case, "before": cases[:-1],
                            "message": msg,
                            "seed": seed, "tier": tier,
                            "replay": "python3-vt check.py %s --replay %s" % (prop, rp)})
            print("--- %s violated by target %s\ncase: %s\n%s" % (
                prop, name, json.dumps(case)[:3000], msg[:4000]), flush=True)
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)), flush=True)
            rc = 1
        write_json(os.path.join(VERIF, "evidence", prop + ".json"), ev)
        print("%s %s seed=%d: %d cases, %d judgements, %d distinct non-trivial, %d violations, "
              "%.1f s" % (prop, tier, seed, tot_cases, tot_evals, distinct, len(failures),
                          time.time() - ctx.t0), flush=True)
        for name, c in cov_targets.items():
            print("   %-28s cases %-6d nontrivial %-6d inconclusive %d skipped %d" % (
                name, c["cases"], c["distinct_nontrivial"], c["inconclusive"],
                c["skipped_for_time"]))
        if rc == 0 and distinct == 0:
            print("ERROR: nothing was decided", file=sys.stderr)
            rc = 2
        return rc
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        else:
            print("scratch kept: " + ctx.scratch)


def run_replay(mod, tier, seed, path):
    d = json.load(open(path))
    ctx = Ctx(mod.PROPERTY, tier, seed)
    try:
        mod.prepare(ctx)
        t = {t.name: t for t in mod.targets(ctx)}[d["target"]]
        env = Env(ctx, "replay")
        try:
            for c in d.get("before", []):
                try:
                    t.run(env, c)
                except (Violation, Inconclusive):
                    pass
            r = t.run(env, d["case"])
            print("replay: the property held on this case", r.labels)
            return 0
        except Violation as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
            return 1
        finally:
            env.close()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
