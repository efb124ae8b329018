"""L06: the action of a node is started, aborted and ended on exactly the right transitions."""
from lib_sim import *

MIN_OBLIGATIONS = 150
START = {'command': 'enqueueCommand', 'assignment': 'enqueueAssignment', 'update': 'enqueueUpdate'}
ABORT = {'command': 'enqueueAbortCommand', 'assignment': 'enqueueAssignmentForRetraction'}


def run(P, rep):
    rep.rule('life-cycle simulation: entering EXECUTING hands the action to the executive exactly once, activated and '
             'with its values fixed; entering FAILING hands it to be aborted (command) or retracted (assignment) exactly '
             'once; no other transition queues anything; the action is deactivated on leaving its execution')
    for I, E, cls, pres, states, steps in runs(P, rep, rep.tier == 'thorough'):
        kind = KIND[cls]
        for s in steps:
            if s.sig is not None or s.to is None:
                continue
            k = '%s|%s>%s' % (cls, s.frm, s.to)
            q = [e[1] for e in s.post.trace if e[0] == 'exec' and e[1].startswith('enqueue')]
            want = []
            if s.to == 'EXECUTING' and kind in START:
                want = [START[kind]]
            if s.to == 'FAILING' and kind in ABORT:
                want = [ABORT[kind]]
            rep.check(q == want, 'queued', k, '%s: the executive is asked for %s instead of %s' %
                      (label(s), ', '.join(q) or 'nothing', ', '.join(want) or 'nothing'),
                      sample='%s %s -> %s: %s' % (cls, s.frm, s.to, want or 'nothing queued'))
            if kind not in START:
                continue
            for e in s.post.trace:
                if e[0] == 'exec' and e[1].startswith('enqueue'):
                    rep.check(addr_of(e[2]) == ('O', kind), 'queued', k + '|which', '%s: %s is called with something other than '
                              'the action of the node' % (label(s), e[1]))
            if s.to == 'EXECUTING':
                ev = [e[1] if e[0] == 'action' else 'queue' for e in s.post.trace
                      if e[0] == 'action' or e[0] == 'exec' and e[1].startswith('enqueue')]
                ok = 'activate' in ev and 'fix' in ev and 'queue' in ev and ev.index('activate') < ev.index('fix') < ev.index('queue')
                rep.check(ok, 'queued', k + '|order', '%s: the action is not activated, fixed and then queued (%s)' % (label(s), ', '.join(ev)))
            n = s.post.aux.get(('act', 'action'), 0)
            busy = s.to in ('EXECUTING', 'FINISHING', 'FAILING')
            rep.check((n == 1) if busy else n == 0, 'queued', k + '|active', '%s: the action is %s in state %s' %
                      (label(s), 'active' if n else 'not active', s.to))
