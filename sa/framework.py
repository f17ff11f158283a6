"""Runs one property's check: builds the program from /repo's current source,
applies the property's rules, compares findings with the known-findings file,
writes the evidence and prints the verdict."""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import frontend
from frontend import AnalysisBroken, ObjectBroken
from engine import Program
import sweep as sweepmod
from sweep import Job

CHECKS = {}
PROGS = {}       # configuration -> (Program, number of units)
CACHE = {}       # results shared by the checks of one process


def check(pid, needs=1):
    def deco(fn):
        CHECKS[pid] = (fn, needs)
        return fn
    return deco


class Finding:
    def __init__(self, kind, func, loc, msg, trail=(), entry="", config=""):
        self.kind, self.func, self.loc, self.msg = kind, func, loc, msg
        self.trail, self.entry, self.config = list(trail), entry, config

    def ident(self):
        m = re.sub(r"#\d+", "", self.msg)
        m = re.sub(r":\d+", "", m)
        return "%s|%s|%s" % (self.kind, self.func, m)

    def text(self):
        return "%s: %s: in %s (analysing %s): %s" % (self.loc, self.kind, self.func, self.entry, self.msg)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.findings = {}
        self.rules = {}
        self.samples = []
        self.incomplete = []
        self.truncated = 0
        self.functions = set()
        self.entries = set()
        self.callsites = 0
        self.exits = 0
        self.steps = 0
        self.obligations = 0
        self.discharged = 0
        self.units = {}
        self.notes = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------------- program
    def prog(self, config="epoll"):
        if config not in PROGS:
            js, units = frontend.build_ir(config)
            PROGS[config] = (Program(js, config), len(units))
        self.units[config] = PROGS[config][1]
        return PROGS[config][0]

    def func(self, name, config="epoll"):
        P = self.prog(config)
        if name not in P.by_short:
            raise AnalysisBroken("anchor %s is not defined in the current source" % name)
        return P.by_short[name]

    def has(self, name, config="epoll"):
        return name in self.prog(config).by_short

    # ---------------------------------------------------------------- results
    def finding(self, kind, func, loc, msg, trail=(), entry="", config=""):
        f = Finding(kind, func, loc, msg, trail, entry or func, config)
        self.findings.setdefault((f.kind, f.loc, f.ident()), f)

    def rule(self, name, n=1):
        """n instances of the rule were decided"""
        self.rules[name] = self.rules.get(name, 0) + n
        self.obligations += n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def sweep(self, jobs, config="epoll", kinds=None, rule=None, procs=None, cache=None):
        """interpret the jobs; reports of the given kinds become findings"""
        P = self.prog(config)
        for j in jobs:
            if j.fn not in P.by_short:
                raise AnalysisBroken("anchor %s is not defined in the current source" % j.fn)
        if cache is not None and (cache, config) in CACHE:
            R = CACHE[cache, config]
        else:
            R = sweepmod.sweep(P, jobs, procs)
            if cache is not None:
                CACHE[cache, config] = R
        for r in R:
            self.entries.add(r["job"])
            self.exits += r["exits"]
            self.steps += r["steps"]
            self.callsites += r["callsites"]
            self.functions |= set(r["visited"])
            if r["incomplete"]:
                self.incomplete.append("%s: %s" % (r["job"], r["incomplete"][-300:]))
            self.truncated += r["truncated"]
            for x in r["reports"]:
                if kinds is None or x.kind in kinds or x.kind == "no-object":
                    self.finding(x.kind, x.func, x.loc, x.msg, x.trace, x.entry, config)
            if r["exits"] == 0 and not r["incomplete"] and not r["reports"]:
                self.notes.append("%s: no exit reached" % r["job"])
        if rule:
            self.rule(rule, len(jobs))
        bad = sum(1 for r in R if r["incomplete"])
        if bad and bad * 2 > len(R):
            raise AnalysisBroken("%d of %d entries could not be analysed: %s" % (bad, len(R), self.incomplete[-1]))
        return R


def load_known():
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        m = re.match(r"known: property=(\S+) ident=<<(.*?)>>\s*(.*)$", line)
        if m:
            res[(m.group(1), m.group(2))] = m.group(3)
    return res


def is_known(known, pid, f):
    """listed, for this function or (for a case described entirely by its
    message) for whatever function carries it out"""
    k, _, m = f.ident().split("|", 2)
    return (pid, f.ident()) in known or (pid, "%s|*|%s" % (k, m)) in known


def jsonable(x):
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(y) for y in x)
    return x


def main(pid, tier, evidence=True):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    import checks
    checks.load()
    if pid not in CHECKS:
        print("no check for %s" % pid)
        return 3
    fn, needs = CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    try:
        explanation = fn(ctx)
        if ctx.obligations < needs and not ctx.findings:
            raise AnalysisBroken("only %d rule instances found, %d expected" % (ctx.obligations, needs))
    except AnalysisBroken as e:
        explanation = "not completed: %s" % e
        if isinstance(e, ObjectBroken):
            ctx.finding("no-object", e.func, e.loc, e.msg)
        elif all(is_known(load_known(), pid, f) for f in ctx.findings.values()):
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            return 3
        else:
            ctx.notes.append(explanation)
    known = load_known()
    new, old = [], []
    for f in ctx.findings.values():
        (old if is_known(known, pid, f) else new).append(f)
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, pid + ".txt")
    print("property %s (%s): %d rule instances, %d entries, %d functions, %d call sites, %d exit states%s" %
          (pid, tier, ctx.obligations, len(ctx.entries), len(ctx.functions), ctx.callsites, ctx.exits,
           ", %d entries incomplete" % len(ctx.incomplete) if ctx.incomplete else ""))
    for r, n in sorted(ctx.rules.items()):
        print("  rule %-50s %d" % (r, n))
    for i in ctx.incomplete:
        print("  INCOMPLETE " + i)
    for n in ctx.notes:
        print("  note " + n)
    seen = set()
    for f in old:
        if f.ident() not in seen:
            seen.add(f.ident())
            print("KNOWN-FINDING: property=%s %s" % (pid, f.text()))
    if new:
        with open(replay, "w") as o:
            for f in new:
                o.write(f.text() + "\n    ident " + f.ident() + "\n    configuration %s\n" % (f.config or "epoll"))
                for t in f.trail:
                    o.write("    %s: %s\n" % tuple(t))
                o.write("\n")
    for f in new[:40]:
        print("  " + f.text())
    cov = dict(explanation=explanation or "", rule_instances=ctx.obligations, rules=ctx.rules, entries=len(ctx.entries),
               functions_analysed=len(ctx.functions), call_sites=ctx.callsites, exit_states=ctx.exits, abstract_steps=ctx.steps,
               translation_units=ctx.units, incomplete=ctx.incomplete, truncated_recursions=ctx.truncated,
               samples=ctx.samples or sorted(ctx.entries)[:8], function_names=sorted(ctx.functions)[:400],
               known_findings=[f.text() for f in old], notes=ctx.notes)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(new), assumptions=checks.ASSUMPTIONS)
    if evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json") if evidence else os.devnull, "w") as o:
        json.dump(ev, o, indent=1, default=jsonable)
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("OK property=%s" % pid)
    return 0
