"""Independent parts of one check, run in forked processes and merged in a fixed order."""
import gc
import os
import pickle
import sys
import traceback
from facts import AnalysisBroken
from interp import Broken
from harness import Report


def cores():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        return 4


def each(rep, I, jobs, n=None):
    """jobs: functions of a report. Everything they report, and the functions the interpreter visited, ends up here."""
    jobs = list(jobs)
    n = min(n or cores(), len(jobs))
    if n < 2:
        for j in jobs:
            j(rep)
        return
    gc.freeze()
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for c in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                sub = Report(rep.pid, rep.tier)
                err = None
                try:
                    for j in jobs[c::n]:
                        j(sub)
                except (AnalysisBroken, Broken) as e:
                    err = ('broken', str(e))
                except MemoryError:
                    err = ('broken', 'out of memory')
                except BaseException:
                    err = ('bug', traceback.format_exc())
                out = (err, sub.counts, sub.viol, sub.samples, sorted(I.analysed), sorted(sub.functions), sub.assumptions)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
            except BaseException:
                code = 1
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    res = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            d = f.read()
        os.waitpid(pid, 0)
        res.append(pickle.loads(d) if d else (('broken', 'a part of the analysis ended early'), {}, {}, [], [], [], []))
    for _, counts, viol, samples, analysed, fns, assumptions in res:
        for k, v in counts.items():
            rep.count(k, v)
        for k, v in viol.items():
            rep.viol.setdefault(k, v)
        for s in samples:
            if len(rep.samples) < 12 and s not in rep.samples:
                rep.samples.append(s)
        I.analysed.update(analysed)
        rep.functions.update(fns)
        for a in assumptions:
            rep.assume(a)
    for o in res:
        if o[0] and o[0][0] == 'bug':
            raise RuntimeError(o[0][1])
    for o in res:
        if o[0]:
            raise AnalysisBroken(o[0][1])
