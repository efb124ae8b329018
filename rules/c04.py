"""C04: the executive is stepped only under its lock, with all input taken, until no work is left."""
from lib_app import *

MIN_OBLIGATIONS = 150
EXECWORK = {'step', 'needsStep', 'deleteFinishedPlans', 'allPlansFinished', 'addPlan'}


def run(P, rep):
    rep.rule('the application object interpreted over recording parts with every short sequence of answers from executive, queue and '
             'semaphores: all stepping and queue processing happens with one and the same mutex held; runExec ends only when the '
             'executive needs no step and the queue, looked at after the last step, was empty; a notification either runs the '
             'executive or posts the semaphore the worker waits on; each wake-up of the worker is followed by a full run unless '
             'suspended or stopping; waiting for a mark or for the end of the plan is woken exactly then')
    I = AxI(P)
    runexec(I, rep)
    worker(I, rep)
    notify(I, rep)
    waits(I, rep)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def locked(rep, tr, what):
    """-> set of mutexes under which the executive and the queue are touched"""
    held, used = [], set()
    for e in tr:
        if e[0] in ('lock', 'trylock'):
            held.append(e[1])
        elif e[0] == 'unlock' and e[1] in held:
            held.remove(e[1])
        elif e[0] == 'part' and (e[1] == 'exec' and e[2] in EXECWORK or (e[1], e[2]) == ('mgr', 'processQueue')):
            rep.check(bool(held), 'locked', e[2], '%s: %s of the %s is called without any lock held' % (what, e[2], {'exec': 'executive', 'mgr': 'interface manager'}[e[1]]),
                      sample='%s: %s under %s' % (what, e[2], held))
            used.add(tuple(sorted(map(str, held))))
    return used


def same_lock(rep, used, what):
    common = set.intersection(*[set(u) for u in used]) if used else set()
    rep.check(not used or bool(common), 'locked', 'one', '%s: no one lock covers all work on the executive (%s)' % (what, sorted(used)))


def patterns(deep):
    """answers of processQueue and needsStep, ending in False"""
    q = [[False], [True, False], [True, True, False], [False, True, False], [False, True, True, False]]
    n = [[False], [True, False], [True, True, False], [False, True, False], [True, False, True, False]]
    if deep:
        q += [[True] * 3 + [False], [False, True, True, True, False]]
        n += [[True, True, True, False], [False, False, True, True, False]]
    return [(a, b) for a in q for b in n]


def complete(tr, what, rep, I):
    """the executive is quiescent and the queue empty at the end of this stretch of events"""
    ev = [(e[2], i) for i, e in enumerate(tr) if e[0] == 'part' and e[1] in ('exec', 'mgr') and e[2] in ('step', 'needsStep', 'processQueue')]
    return ev


def quiescent(ev):
    """ev: (name, answer) of step / needsStep / processQueue in order -> fault or None"""
    names = [e[0] for e in ev]
    if 'step' not in names:
        return 'the executive is not stepped'
    if 'processQueue' not in names[:names.index('step')]:
        return 'the executive is stepped before queued input is taken'
    last = len(names) - 1 - names[::-1].index('step')
    need = [a for n, a in ev[last:] if n == 'needsStep']
    if not need or need[-1]:
        return 'the last step is not followed by finding that no more step is needed'
    q = [a for n, a in ev[last:] if n == 'processQueue']
    if not q or q[-1]:
        return 'the queue is not found empty after the last step'
    return None


class Answers:
    """hands out a list of answers and remembers each with the call"""
    def __init__(self, I, q, n):
        self.I = I
        I.ans[('mgr', 'processQueue')] = lambda st: self.next(st, 'processQueue', q)
        I.ans[('exec', 'needsStep')] = lambda st: self.next(st, 'needsStep', n)

    @staticmethod
    def next(st, k, xs):
        i = st.aux.get(('n', k), 0)
        st.aux[('n', k)] = i + 1
        a = xs[min(i, len(xs) - 1)]
        st.ev('answer', k, a)
        return a


def work(tr):
    out = []
    for e in tr:
        if e[0] == 'answer':
            out.append((e[1], e[2]))
        elif e[0] == 'part' and e[1:3] == ('exec', 'step'):
            out.append(('step', None))
    return out


def runexec(I, rep):
    st, a = I.ready()
    used = set()
    for q, n in patterns(rep.tier == 'thorough'):
        Answers(I, q, n)
        r = I.w(clean(st.fork()), 'ax_runExec', a)
        what = 'runExec with queue answers %s and step answers %s' % (q, n)
        if not rep.check(len(r) == 1 and r[0][2] is None, 'quiescent', 'error', what + ' ends in an error'):
            continue
        tr = r[0][0].trace
        used |= locked(rep, tr, 'runExec')
        bad = quiescent(work(tr))
        rep.check(bad is None, 'quiescent', 'runExec', '%s: %s' % (what, bad), sample='%s: %s' % (what, [x[0] for x in work(tr)]))
        r = I.w(clean(st.fork()), 'ax_step', a)
        for s, v, sig in r:
            w = work(s.trace)
            used |= locked(rep, s.trace, 'step')
            rep.check(sig is None and [x[0] for x in w].count('step') == 1 and w[0][0] == 'processQueue', 'step', 'once',
                      'step takes queued input and steps the executive %s' % [x[0] for x in w])
            rep.check(bool(v) == n[0], 'step', 'answer', 'step answers %s when the executive %s another step' % (v, 'needs' if n[0] else 'needs not'))
    I.ans = {}
    for s, v, sig in I.w(clean(st.fork()), 'ax_allFinished', a):
        used |= locked(rep, s.trace, 'allPlansFinished')
    same_lock(rep, used, 'runExec, step')
    return used


def worker(I, rep):
    st0, a, run = I.ready(run=True)
    used = set()
    sem = None
    for scenario, suspended in ((['go', 'go', 'end'], False), (['go', 'stop', 'go', 'end'], False), (['stop', 'end'], False), (['end'], False),
                                (['go', 'suspend', 'go', 'go', 'end'], False), (['go', 'suspend', 'go', 'resume', 'go', 'end'], False),
                                (['suspend', 'go', 'stop', 'go', 'end'], False), (['go'] * 4 + ['end'], False)):
        for q, n in (([False], [False]), ([True, False, False, True, False], [True, False]), ([False, True, False], [False, True, False])):
            Answers(I, q, n)
            flags = flagsetters(I, a)

            def wake(st, scenario=scenario):
                """what happens while the worker waits; then its wait returns"""
                i = st.aux.get('wake', 0)
                while True:
                    x = scenario[i]
                    i += 1
                    if x in flags:
                        st = flags[x](st)
                    else:
                        break
                st.aux['wake'] = i
                st.ev('wake', x)
                return [(st, 0 if x == 'go' else 1)]
            I.semhook = wake
            outs = run(clean(st0.fork()))
            I.semhook = None
            what = 'worker, events %s' % ' '.join(scenario)
            if not rep.check(bool(outs) and all(o[2] is None for o in outs), 'worker', 'error', what + ': the worker ends in an error'):
                continue
            for s, v, sig in outs:
                tr = s.trace
                used |= locked(rep, tr, 'worker')
                judge(rep, what, tr)
    same_lock(rep, used, 'worker')


def flagsetters(I, a):
    def setter(w):
        def f(st):
            outs = I.nested(st, w, a)
            if len(outs) != 1 or outs[0][2]:
                raise AnalysisBroken('%s ends in an error' % w)
            s = outs[0][0]
            s.ev('did', w)
            return s
        return f
    return {'suspend': setter('ax_suspend'), 'resume': setter('ax_resume'), 'stop': stopper(I, a)}


def stopper(I, a):
    """the part of stop() that happens before it waits for the worker: the state it leaves at its last semaphore post before"""
    def f(st):
        got = []

        def post(s):
            s.ev('sem', 'post', 'any')
            if not any(e == ('thread', 'join') for e in s.trace):
                got.append(s.fork())
            return [(s, 0)]
        old, I.posthook = I.posthook, post
        keep = {k: v for k, v in st.mem.items() if k[0] in ('L', 'TMP')}
        I.nested(st, 'ax_stop', a)
        I.posthook = old
        if not got:
            raise AnalysisBroken('stop() never posts a semaphore')
        s = clean(got[-1])
        s.mem.update(keep)
        s.trace, s.cnt = st.trace, dict(st.cnt)
        s.ev('did', 'ax_stop')
        return s
    return f


def judge(rep, what, tr):
    susp = stop = False
    wake = None           # events since the last wake-up
    seg = []
    first = True
    segs = []
    for e in tr:
        if e[0] == 'did':
            susp = {'ax_suspend': True, 'ax_resume': False}.get(e[1], susp)
            stop = stop or e[1] == 'ax_stop'
        elif e[0] == 'wake':
            segs.append((wake, seg))
            wake, seg = (e[1], susp, stop), []
        else:
            seg.append(e)
    segs.append((wake, seg))
    for wake, seg in segs:
        w = work(seg)
        if wake is None:
            rep.check('step' in [x[0] for x in w] and w[0][0] == 'processQueue', 'worker', 'initial', '%s: the worker does not take input and step before its first wait' % what)
        elif wake[0] != 'go' or wake[2]:
            rep.check('step' not in [x[0] for x in w], 'worker', 'ended', '%s: the executive is stepped after a stop request or a failed wait' % what)
        elif wake[1]:
            rep.check('step' not in [x[0] for x in w], 'worker', 'suspended', '%s: the executive is stepped while suspended' % what)
        else:
            bad = quiescent(w)
            rep.check(bad is None, 'worker', 'woken', '%s: after a wake-up, %s' % (what, bad), sample='%s: %s' % (what, [x[0] for x in w]))


def waited(I, st0, run):
    """the semaphore the worker waits on"""
    I.ans[('sem', 'wait')] = [1]
    I.ans[('mgr', 'processQueue')] = I.ans[('exec', 'needsStep')] = False
    sems = set()
    for s, v, sig in run(clean(st0.fork())):
        sems |= {e[2] for e in s.trace if e[0] == 'sem' and e[1] == 'wait'}
    del I.ans[('sem', 'wait')]
    if len(sems) != 1:
        raise AnalysisBroken('the worker waits on %d semaphores' % len(sems))
    return sems.pop()


def notify(I, rep):
    st0, a, run = I.ready(run=True)
    sem = waited(I, st0, run)
    used = set()
    for bk in (True, False):
        Answers(I, [True, False], [True, False])
        s, _ = I.one(clean(st0.fork()), 'ax_bkgnd', a, bk)
        outs = I.w(clean(s), 'ax_notifyExec', a)
        rep.check(bool(outs), 'notify', 'cut', 'notifyExec has no decided outcome')
        for s, v, sig in outs:
            what = 'notifyExec%s' % ('' if bk else ', foreground allowed')
            posted = any(e[0] == 'sem' and e[1] == 'post' and e[2] == sem for e in s.trace)
            bad = quiescent(work(s.trace))
            used |= locked(rep, s.trace, what)
            rep.check(sig is None and (posted or bad is None), 'notify', 'notifyExec', '%s: neither is the worker woken nor the executive run to quiescence' % what,
                      sample='%s: %s' % (what, 'posts' if posted else 'runs'))
    # resuming after suspension wakes the worker
    I.ans = {}
    s, _ = I.one(clean(st0.fork()), 'ax_suspend', a)
    s, v = I.one(clean(s), 'ax_isSuspended', a)
    rep.check(bool(v), 'notify', 'suspend', 'suspend() does not leave the application suspended')
    for s2, v, sig in I.w(clean(s), 'ax_resume', a):
        rep.check(any(e[0] == 'sem' and e[1] == 'post' and e[2] == sem for e in s2.trace), 'notify', 'resume', 'resume() does not wake the worker, so events that came while suspended stay unprocessed')
        s3, v = I.one(clean(s2), 'ax_isSuspended', a)
        rep.check(not v, 'notify', 'resume', 'resume() leaves the application suspended')
    for s2, v, sig in I.w(clean(s), 'ax_stop', a) + I.w(clean(st0.fork()), 'ax_stop', a):
        ev = [e for e in s2.trace if e[0] in ('sem', 'thread', 'part')]
        woke = [i for i, e in enumerate(ev) if e[0] == 'sem' and e[1] == 'post' and e[2] == sem]
        join = [i for i, e in enumerate(ev) if e == ('thread', 'join')]
        rep.check(sig is None and woke and join and woke[0] < join[0], 'notify', 'stop', 'stop() waits for the worker without waking it')
        rep.check(not join or not any(e[0] == 'part' and e[1] in ('cfg', 'hub') and e[2] == 'stop' and i < join[0] for i, e in enumerate(ev)),
                  'notify', 'stop', 'stop() stops the interfaces while the worker may still run')
    same_lock(rep, used, 'notifyExec')


def waits(I, rep):
    """marks and plan completion: posted when reached, not before; the waiting calls wait on that semaphore"""
    st0, a, run = I.ready(run=True)
    I.ans = {}
    r = I.w(clean(st0.fork()), 'ax_waitPlan', a)
    fin = {e[2] for s, v, sig in r for e in s.trace if e[0] == 'sem' and e[1] == 'wait'}
    rep.check(len(fin) == 1, 'wait', 'plan', 'waitForPlanFinished waits on %d semaphores' % len(fin))
    r = I.w(clean(st0.fork()), 'ax_waitShutdown', a)
    shut = {e[2] for s, v, sig in r for e in s.trace if e[0] == 'sem' and e[1] == 'wait'}
    rep.check(len(shut) == 1, 'wait', 'shutdown', 'waitForShutdown waits on %d semaphores' % len(shut))
    for s, v, sig in I.w(clean(st0.fork()), 'ax_stop', a):
        rep.check(any(e[0] == 'sem' and e[1] == 'post' and e[2] in shut for e in s.trace), 'wait', 'shutdown', 'stop() does not release those waiting for shutdown')
    for w in ('ax_runExec', 'ax_step'):
        for loaded in (False, True):
            for done in (False, True):
                s0 = clean(st0.fork())
                if loaded:
                    I.ans = {('xml', 'document_element'): mk('elt')}
                    s0, v = I.one(s0, 'ax_addPlan', a, ptr(('O', 'doc')))
                    rep.check(v in (True, 1), 'wait', 'addPlan', 'addPlan does not succeed on a running application')
                I.ans = {('mgr', 'processQueue'): False, ('exec', 'needsStep'): False, ('exec', 'allPlansFinished'): done}
                for s, v, sig in I.w(clean(s0), w, a):
                    posted = any(e[0] == 'sem' and e[1] == 'post' and e[2] in fin for e in s.trace)
                    rep.check(posted == (loaded and done), 'wait', 'plan', '%s with a plan %sloaded and plans %sfinished %s those waiting for the plan' %
                              (w[3:], '' if loaded else 'not ', '' if done else 'not ', 'releases' if posted else 'does not release'))
    # marks
    I.ans = {('mgr', 'markQueue'): 7}
    seen = set()

    def wait_for(marks):
        """markProcessed is called with these numbers, one per wait"""
        def f(st):
            i = st.aux.get('nth', 0)
            st.aux['nth'] = i + 1
            if i < len(marks) and marks[i]:
                st = I.nested(st, 'ax_mark', a, marks[i])[0][0]
            st.ev('waited', i)
            return [(st, 0)]
        return f
    for marks in ([7], [6, 7], [0, 7], [8], [5, 6, 9], [0, 0, 7]):
        I.ans = {('mgr', 'markQueue'): 7}
        I.semhook = wait_for(marks)
        outs = I.w(clean(st0.fork()), 'ax_notifyAndWait', a)
        I.semhook = None
        rep.check(len(outs) == 1 and outs[0][2] is None, 'wait', 'mark', 'notifyAndWaitForCompletion: no decided outcome when marks %s are processed' % (marks,))
        for s, v, sig in outs:
            n = sum(e[0] == 'waited' for e in s.trace)
            rep.check(n == len(marks), 'wait', 'mark', 'waiting for mark 7 ends after %d wake-ups when marks %s were processed' % (n, marks), sample='marks %s: %d waits' % (marks, n))
            order = [e[2] if e[0] == 'part' else e[1] for e in s.trace if e[0] in ('part', 'sem')]
            rep.check('markQueue' in order and 'post' in order and order.index('markQueue') < order.index('post'), 'wait', 'mark',
                      'the worker is woken before the mark is queued, so waiting for it may never end')
            seen |= {e[2] for e in s.trace if e[0] == 'sem' and e[1] == 'wait'}
    rep.check(len(seen) == 1, 'wait', 'mark', 'waiting for a mark uses %d semaphores' % len(seen))
    for w in ('ax_runExec', 'ax_step'):
        for m in (0, 3):
            I.ans = {('exec', 'needsStep'): False, ('exec', 'allPlansFinished'): False}

            def process(st, m=m):
                if m and not st.aux.get('marked'):
                    st = I.nested(st, 'ax_mark', a, m)[0][0]
                    st.aux['marked'] = True
                return [(st, False)]
            I.ans[('mgr', 'processQueue')] = process
            for s, v, sig in I.w(clean(st0.fork()), w, a):
                posted = any(e[0] == 'sem' and e[1] == 'post' and e[2] in seen for e in s.trace)
                rep.check(posted == bool(m), 'wait', 'mark', '%s %s those waiting for a mark although %s was processed' % (w[3:], 'releases' if posted else 'does not release', 'one' if m else 'none'))
