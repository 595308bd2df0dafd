"""C25: the Cylc workflow runs the same problem with both programs and reports each job's own time."""
import csv
import datetime
import json
import os
import re
import shutil

from hypothesis import strategies as st

from checks import c22
from checks import cli_common as cl
from vlib import build
from vlib.core import Inconclusive, Result, Target, run_cmd
from vlib.util import check

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("The analysis script on generated trees of Cylc job.status files (0-14 jobs of several programs and sizes, "
        "retried jobs, other tasks, other runs, unfinished jobs, in any order of lines, run times from 0 s to 40 days "
        "and over midnights, months and leap days): the table it writes and the bars it draws, against the jobs. The "
        "tasks of flow.cylc for generated sizes and steps: what they start is recorded, then done (the C++ program, and "
        "the Julia program in an interpreter), and the fields compared with the reference of the problem asked for. A "
        "case is non-trivial when there are at least two jobs (analysis) or a cell moves (tasks).")
ASSUMPTIONS = ["there is no Cylc, pandas, seaborn or matplotlib here: the status files are made after Cylc's format, the script "
               "sees stand-ins of the libraries, and flow.cylc is read by a small reader of our own",
               "a job ends no earlier than it starts; times are in UTC, as Cylc writes them",
               "the site's paths (home, TOP_DIR) are replaced by scratch directories"]


def prepare(ctx):
    cl.build_programs(ctx, parts=("lib", "upwind_cxx"), omp5=False)
    c22.prepare(ctx)


# --- the analysis -------------------------------------------------------------------------------------

STAMP = "%Y-%m-%dT%H:%M:%SZ"
TIMES = st.datetimes(datetime.datetime(2003, 1, 1), datetime.datetime(2037, 1, 1)).map(
    lambda t: t.replace(microsecond=0))
EDGES = st.sampled_from(["2023-12-31T23:59:58Z", "2024-02-28T23:59:59Z", "2024-02-29T12:00:00Z", "2023-02-28T23:30:00Z",
                         "2023-10-31T23:59:59Z", "2023-05-01T00:00:00Z", "2000-01-01T00:00:00Z"]).map(
    lambda s: datetime.datetime.strptime(s, STAMP))
ELAPSED = st.one_of(st.integers(0, 600), st.integers(0, 3600), st.integers(0, 86399), st.sampled_from(
    [0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 86401]), st.integers(86400, 40 * 86400))


@st.composite
def job(draw):
    a = draw(st.one_of(TIMES, EDGES))
    b = a + datetime.timedelta(seconds=draw(ELAPSED))
    return {"id": draw(st.integers(1, 99999999)), "init": a.strftime(STAMP), "exit": b.strftime(STAMP),
            "lacks": draw(st.sampled_from([""] * 8 + ["exit", "exit", "init", "both"])),
            "shuffle": draw(st.integers(0, 5))}


@st.composite
def tree(draw):
    jobs = []
    sizes = draw(st.lists(st.one_of(st.sampled_from([64, 128, 256, 512]), st.integers(1, 2000)), min_size=1, max_size=5,
                          unique=True))
    for _ in range(draw(st.integers(0, 14))):
        j = {"task": draw(st.sampled_from(["upwindCxx", "upwindJulia", "upwindCxx", "upwindJulia", "upwindF08", "upwindMpiCxx",
                                           "upwind3"])),
             "n": draw(st.sampled_from(sizes)), "m": draw(st.integers(0, 12)),
             "tries": draw(st.lists(job(), min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 3]))))}
        if (j["task"], j["n"], j["m"]) not in [(k["task"], k["n"], k["m"]) for k in jobs]:
            jobs.append(j)
    others = draw(st.lists(st.sampled_from(["analyse", "install", "upwindCxx", "old run", "other cycle"]), max_size=2,
                           unique=True))
    return {"jobs": jobs, "others": others, "pad": len(str(max(sizes)))}


def status_lines(j):
    head = ["CYLC_JOB_RUNNER_NAME=slurm", "CYLC_JOB_ID=%d" % j["id"], "CYLC_JOB_RUNNER_SUBMIT_TIME=2002-01-02T03:04:05Z",
            "CYLC_JOB_PID=4711"]
    init, end = [], []
    if j["lacks"] not in ("init", "both"):
        init = ["CYLC_JOB_INIT_TIME=" + j["init"]]
    if j["lacks"] not in ("exit", "both"):
        end = ["CYLC_JOB_EXIT=SUCCEEDED", "CYLC_JOB_EXIT_TIME=" + j["exit"]]
    if j["shuffle"] == 0:
        return end + init + head[::-1]
    if j["shuffle"] == 1:
        return head[:1] + init + head[1:] + ["CYLC_MESSAGE=2020-01-01T00:00:00Z|INFO|CYLC_JOB_INIT_TIME=1999-01-01T00:00:00Z"] + end
    return head[:3] + init + head[3:] + end


def write_tree(root, c):
    run = os.path.join(root, "cylc-run", "julia_vs_cxx")

    def put(d, j):
        os.makedirs(d)
        with open(os.path.join(d, "job.status"), "w") as f:
            f.write("\n".join(status_lines(j)) + "\n")
    jobs = os.path.join(run, "run2", "log", "job", "1")
    os.makedirs(jobs)
    os.symlink("run2", os.path.join(run, "runN"))
    for j in c["jobs"]:
        d = os.path.join(jobs, "%s_ncells%0*d_m%d" % (j["task"], c["pad"], j["n"], j["m"]))
        for k, t in enumerate(j["tries"]):
            put(os.path.join(d, "%02d" % (k + 1)), t)
        os.symlink("%02d" % len(j["tries"]), os.path.join(d, "NN"))
    fake = {"id": 5, "init": "2020-01-01T00:00:00Z", "exit": "2020-01-01T00:00:07Z", "lacks": "", "shuffle": 3}
    for o in c["others"]:
        if o == "old run":
            put(os.path.join(run, "run1", "log", "job", "1", "upwindCxx_ncells%0*d_m0" % (c["pad"], 1), "NN"), fake)
        elif o == "other cycle":
            put(os.path.join(run, "run2", "log", "job", "2", "upwindCxx_ncells%0*d_m0" % (c["pad"], 1), "NN"), fake)
        else:
            put(os.path.join(jobs, o, "NN"), fake)


def expected(c):
    res = []
    for j in c["jobs"]:
        t = j["tries"][-1]
        if t["lacks"]:
            s = -1.0
        else:
            s = (datetime.datetime.strptime(t["exit"], STAMP) - datetime.datetime.strptime(t["init"], STAMP)).total_seconds()
        res.append((t["id"], s, j["task"], j["n"]))
    return sorted(res)


def run_tree(env, c):
    d = env.fresh_dir()
    home, cwd = os.path.join(d, "home"), os.path.join(d, "cwd")
    os.makedirs(cwd)
    write_tree(home, c)
    path = build.src("cylc-src", "julia_vs_cxx", "analyse.py")
    with open(path) as f:
        text = f.read()
    script = os.path.join(d, "analyse.py")
    with open(script, "w") as f:
        f.write(text.replace("/home/pletzera", home))
    bars = os.path.join(d, "bars")
    e = build.env(HOME=home, BARS=bars, PYTHONPATH=build.h("analyse_stubs"), PYTHONDONTWRITEBYTECODE="1")
    rc, out, err = run_cmd(["python3", script], cwd=cwd, env=e, timeout=60)
    what = "analyse.py on the jobs %s" % json.dumps(c["jobs"])
    if rc == 77 and "UNSUPPORTED" in err:
        raise Inconclusive("%s: %s" % (what, err[-300:]))
    check(rc == 0, "%s: exit status %s\n%s", what, rc, err[-1500:])
    files = [f for f in sorted(os.listdir(cwd)) if f.endswith(".csv")]
    check(len(files) == 1, "%s: files written: %s", what, sorted(os.listdir(cwd)))
    with open(os.path.join(cwd, files[0]), newline="") as f:
        rows = list(csv.DictReader(f))
    want = expected(c)
    try:
        got = sorted((int(r["job_id"]), float(r["exec_time"]), r["job_name"], int(r["ncells"])) for r in rows)
    except (KeyError, ValueError) as x:
        check(False, "%s: the table is %s (%r)", what, rows, x)
    check(got == want, "%s:\nthe table has (job, time, program, cells)\n%s, expected\n%s", what, got, want)
    if os.path.exists(bars):
        with open(bars) as f:
            for line in f:
                x, y, hue = json.loads(line)
                check(sorted(zip(x, y, hue)) == sorted((n, s, t) for _, s, t, n in want),
                      "%s: bars %s", what, sorted(zip(x, y, hue)))
    longest = max([s for _, s, _, _ in want] or [0])
    lab = ["%d jobs" % min(len(want), 3)] + (["unfinished"] if any(s < 0 for _, s, _, _ in want) else []) + \
        (["over a day"] if longest >= 86400 else [])
    return Result(len(want) >= 2, lab)


# --- the tasks ----------------------------------------------------------------------------------------

def read_flow(path):
    """flow.cylc as nested dictionaries. Keys of sections in brackets."""
    with open(path) as f:
        lines = f.read().split("\n")
    root = {}
    stack = [root]
    i = 0
    while i < len(lines):
        s = lines[i].strip()
        i += 1
        if not s or s.startswith("#"):
            continue
        m = re.match(r"(\[+)\s*([^\[\]]*?)\s*(\]+)\s*(#.*)?$", s)
        if m:
            k = len(m.group(1))
            check(k == len(m.group(3)) and k <= len(stack), "flow.cylc, line %d: section %r", i, s)
            del stack[k:]
            new = stack[-1].setdefault("[" + m.group(2) + "]", {})
            stack.append(new)
            continue
        m = re.match(r"([^=]*?)\s*=\s*(.*)$", s)
        check(m, "flow.cylc, line %d: %r", i, s)
        key, val = m.group(1), m.group(2)
        q = next((q for q in ('"""', "'''") if val.startswith(q)), None)
        if q:
            val = val[3:]
            while q not in val:
                check(i < len(lines), "flow.cylc: %s has no end", key)
                val += "\n" + lines[i]
                i += 1
            val = val[:val.index(q)]
        elif val[:1] in "\"'" and val[:1]:
            val = val[1:].split(val[0])[0]
        else:
            val = re.sub(r"\s#.*", "", val).strip()
        stack[-1][key] = val
    return root


@st.composite
def task_case(draw):
    n = draw(st.integers(1, 9))
    return {"n": n, "pad": draw(st.sampled_from([1, 1, 2, 3])), "steps": draw(st.integers(0, 9)), "m": draw(st.integers(0, 4))}


def task_of(flow, name):
    run = flow.get("[runtime]", {})
    own = [v for k, v in run.items() if name in [re.sub(r"<.*?>", "", x).strip() for x in
                                                 re.split(r",(?![^<]*>)", k.strip("[]"))]]
    check(len(own) == 1, "flow.cylc: %d tasks %s", len(own), name)
    res = {"environment": {}, "script": None}
    for s in (run.get("[root]", {}), own[0]):
        res["environment"].update(s.get("[environment]", {}))
        for k in ("pre-script", "script", "post-script"):
            if k in s:
                res[k] = s[k]
    return res


RECORD = """#!/bin/bash
{ pwd; printf '%%s\\n' "%s" "$@"; echo =; } >>"$RECORD"
"""


def run_task(env, c, name):
    d = env.fresh_dir()
    flow = read_flow(build.src("cylc-src", "julia_vs_cxx", "flow.cylc"))
    t = task_of(flow, name)
    what = "task %s of flow.cylc for %d cells, %d steps" % (name, c["n"], c["steps"])
    check(t["script"], "%s: no script", what)
    top = os.path.join(d, "top")
    os.makedirs(os.path.join(d, "bin"))
    cxx = os.path.join(top, "build-intel", "upwind", "cxx")
    os.makedirs(cxx)
    shutil.copytree(build.src("upwind", "julia"), os.path.join(top, "upwind", "julia"))
    for p in ("upwindCxx", "julia", "upwindAccCxx", "upwindAcc2Cxx", "upwindOMPTasksCxx"):
        f = os.path.join(d, "bin" if p == "julia" else cxx, p)
        with open(f, "w") as g:
            g.write(RECORD % p)
        os.chmod(f, 0o755)
    e = build.env(RECORD=os.path.join(d, "record"), HOME=d)
    e["PATH"] = os.path.join(d, "bin") + ":" + e["PATH"]
    numbers, exports = [], []
    # the site's directory: the shortest absolute path
    site = min([v.rstrip("/") for v in t["environment"].values() if re.match(r"/[^$`]+\Z", v)] or [""], key=len)
    for k, v in t["environment"].items():
        if re.match(r"\d+\Z", v):
            numbers.append(k)
            v = str(c["steps"])
        elif site:
            v = v.replace(site, top)
        exports.append('export %s="%s"\n' % (k, v))         # in this order, and expanded, as Cylc does
    if len(numbers) != 1:
        raise Inconclusive("%s: which of %s is the number of steps" % (what, numbers))
    e["CYLC_TASK_PARAM_ncells"] = "%0*d" % (c["pad"], c["n"])
    e["CYLC_TASK_PARAM_m"] = str(c["m"])
    e["CYLC_TASK_NAME"] = "%s_ncells%0*d_m%d" % (name, c["pad"], c["n"], c["m"])
    text = "set -eu\nset -o pipefail\nmodule() { :; }\ncd '%s'\n" % d
    text += "".join(exports)
    body = "\n".join(t.get(k) or "" for k in ("pre-script", "script", "post-script"))
    text += body.replace(site, top) if site else body
    rc, out, err = run_cmd(["bash", "-c", text], cwd=d, env=e, timeout=60)
    check(rc == 0, "%s: the script fails, exit status %s\n%s\n%s", what, rc, out[-800:], err[-800:])
    rec = []
    if os.path.exists(e["RECORD"]):
        with open(e["RECORD"]) as f:
            rec = [r.split("\n") for r in f.read().split("\n=\n") if r]
    check(len(rec) == 1, "%s: starts %d programs: %s", what, len(rec), rec)
    cwd, prog, args = rec[0][0], rec[0][1], rec[0][2:]
    want = name.replace("Julia", "")
    if prog == "julia":
        check(name == "upwindJulia", "%s: starts julia", what)
        while args and args[0].startswith("-"):
            args = args[1:]
        check(args, "%s: julia without a program", what)
        f = os.path.realpath(os.path.join(cwd, args[0]))
        check(os.path.isfile(f), "%s: no file %s", what, f)
        prog = os.path.basename(f)
        if prog not in c22.PROGRAMS or prog not in env.ctx.julia:
            raise Inconclusive("%s: starts %s" % (what, prog))
        n, steps = c["n"], c["steps"]
        if prog == "upwind.jl" and n ** 3 * steps > 700:
            raise Inconclusive("%s: takes too long in the interpreter" % what)
        r = c22.Ran(env, prog, args[1:] + ["vtk"], what)
        check(r.rc == 0, "%s: %s: exit status %s", what, args, r.rc)
        ref = cl.um.standard(n, steps)
        f = [x for x in os.listdir(r.cwd) if x.endswith(".vtk")]
        check(len(f) == 1, "%s: files written: %s", what, f)
        c22.verify_vtk(os.path.join(r.cwd, f[0]), [n] * 3, [1.0] * 3, ref, "%s: %s" % (what, " ".join(args)))
    else:
        check(prog == want, "%s: starts %s", what, prog)
        r = cl.run(env, prog, args + ["-vtk"], threads=1)
        cl.judge_standard(r, prog, c["n"], c["steps"], True)
    return Result(c["n"] > 1 and c["steps"] > 0, [name])


def run_cxx(env, c):
    return run_task(env, c, "upwindCxx")


def run_julia(env, c):
    return run_task(env, c, "upwindJulia")


def targets(ctx):
    out = []
    if os.path.exists(build.src("cylc-src", "julia_vs_cxx", "analyse.py")):
        out.append(Target("analysis", tree(), run_tree, 500, 12000))
    if os.path.exists(build.src("cylc-src", "julia_vs_cxx", "flow.cylc")):
        out += [Target("task-cxx", task_case(), run_cxx, 120, 2500), Target("task-julia", task_case(), run_julia, 60, 1200)]
    return out
