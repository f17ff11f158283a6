"""Run the abstract interpreter over many entry functions, in parallel."""
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from frontend import ObjectBroken
from engine import Engine, State, Stop, AnalysisBroken, width_of, M64
import contracts
import models


class Job:
    """one entry function, how its inputs are built and what must hold at exit"""

    def __init__(self, fn, post=None, setup=None, models=None, icall=contracts.icall, name=None, conf=None, spec=None, drive=None):
        self.drive = drive
        self.fn, self.post, self.setup, self.models, self.icall = fn, post, setup, models, icall
        self.name = name or fn
        self.conf = conf or {}
        self.spec = spec


def lazy_args(eng, st, F):
    return [st.fresh(nm, width_of(ty), di, None) for aid, ty, di, nm in F.args]


class Timeout(Exception):
    pass


def on_alarm(*a):
    raise Timeout()


def run_job(P, job, budget=200000, secs=60, unrolls=(3, 1)):
    F = P.func(job.fn)
    last = None
    t0 = time.time()
    signal.signal(signal.SIGPROF, on_alarm)  # processor time, so that a busy machine changes nothing
    for u in unrolls:
        E = Engine(P, job.models if job.models is not None else contracts.client_models())
        E.icall_hook = job.icall
        E.entry = job.name
        E.max_steps = budget
        E.unroll = u
        E.spec = job.spec
        for k, v in job.conf.items():
            setattr(E, k, v)
        st = State()
        ctx = {}
        signal.setitimer(signal.ITIMER_PROF, secs)
        why = None
        exits = 0
        try:
            try:
                args = job.setup(E, st, F, ctx) if job.setup else lazy_args(E, st, F)
                for i in F.readonly:
                    a = args[i] if i < len(args) else None
                    if a and a[0] == "s":
                        E.readonly["L:" + a[1]] = F.args[i][3] or "argument %d" % (i + 1)
                outs = job.drive(E, st, F, args, ctx) if job.drive else E.run(st, F, args)
                E.stack.append((F, ""))
                for s, rv in outs:
                    exits += 1
                    if job.post:
                        E.post_loc = "%s:%d" % (E.relfile(F.file), F.line)
                        E.curloc = E.post_loc
                        try:
                            job.post(E, s, rv, args, ctx)
                        except Stop:
                            pass
            except Timeout:
                why = "time budget"
            except ObjectBroken as e:
                try:
                    E.report(st, "no-object", "%s %s" % (e.func, e.msg), e.loc)
                except Stop:
                    pass
            except AnalysisBroken as e:
                why = str(e)
            except RecursionError:
                why = "recursion"
            except Exception as e:
                why = "internal: " + traceback.format_exc()[-400:]
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Timeout:
            why = "time budget"         # the alarm went off while another end was being handled
        last = dict(job=job.name, fn=job.fn, reports=list(E.reports.values()), exits=exits, steps=E.steps, truncated=E.truncated,
                    incomplete=why, unroll=u, visited=E.visited_funcs, callsites=len(E.callsites), unmodelled=dict(E.unmodelled),
                    secs=time.time() - t0, ctx={k: v for k, v in ctx.items() if isinstance(k, str) and k.startswith("out_")})
        if why is None:
            break
        if why.startswith("internal") or why.startswith("function"):
            break
    for r in last["reports"]:
        r.data = None
    return last


_JOBS = None
_P = None


def _one(i):
    j = _JOBS[i]
    return run_job(_P, j, **(j.conf_run if hasattr(j, "conf_run") else {}))


def sweep(P, jobs, procs=None):
    global _JOBS, _P
    _JOBS, _P = jobs, P
    sys.setrecursionlimit(10000)
    procs = procs or min(8, os.cpu_count() or 4)
    if procs == 1 or len(jobs) == 1:
        return [_one(i) for i in range(len(jobs))]
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.map(_one, range(len(jobs)), chunksize=1)
