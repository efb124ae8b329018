"""S02: phase order of a macro step."""
import itertools
from lib_exec import ExecI, EX
from interp import Ctx, mk, ptr, addr_of
from s01 import TOP
from facts import AnalysisBroken

MIN_OBLIGATIONS = 500
EFFECTS = [('none', []), ('assign', [('enqueueAssignment', 'a')]), ('retract', [('enqueueAssignmentForRetraction', 'a')]),
           ('command', [('enqueueCommand', 'c')]), ('abort', [('enqueueAbortCommand', 'c')]), ('update', [('enqueueUpdate', 'u')]),
           ('wake', [('notify', 'other')])]
HOLD = {'enqueueAssignment', 'enqueueAssignmentForRetraction', 'enqueueCommand', 'enqueueAbortCommand'}
DONE = {'enqueueAssignment': ('execute',), 'enqueueAssignmentForRetraction': ('retract',), 'enqueueAbortCommand': ('invokeAbort',),
        'enqueueUpdate': ('executeUpdate',), 'enqueueCommand': ('executeCommand', 'reportCommandArbitrationFailure')}


def bind(eff, i, other):
    return [(m, other if x == 'other' else x + str(i)) for m, x in eff]


def run(P, rep):
    rep.rule('PlexilExec::step interpreted over concrete worlds of two or three nodes whose transitions enqueue every kind of work: '
             'decisions before transitions, transitions before assignments, assignments before retractions before outbound work, each '
             'piece of work done exactly once in the order it was enqueued, listener told of each transition and of the end of the step')
    n = 0
    combos = itertools.product(EFFECTS, EFFECTS, (0, 1, 2))
    for (n0, e0), (n1, e1), second in combos:
        # second: what happens in the micro step after (0 nothing, 1 both wake up and do it again, 2 self re-examination stays)
        dest = {'n0': ['EXECUTING', 'FINISHING' if second else None, None], 'n1': ['EXECUTING', 'FAILING' if second == 1 else None, None],
                'n2': [None]}
        eff = {('n0', 0): bind(e0, 0, 'n1') + ([('notify', 'n0'), ('notify', 'n1')] if second else []),
               ('n1', 0): bind(e1, 1, 'n2'),
               ('n0', 1): [('enqueueUpdate', 'u2')], ('n1', 1): [('enqueueAssignment', 'a3')]}
        for acc in ((True, True), (True, False), (False, True)) if n0 == 'command' or n1 == 'command' else ((True, True),):
            I = ExecI(P, dest=dest, effects=eff, accept={'c0': acc[0], 'c1': acc[1]})
            one(P, rep, I, '%s/%s/%d' % (n0, n1, second), n)
            n += 1
    # effects of performing an assignment: woken nodes are left for the next step, not run in between
    I = ExecI(P, dest={'n0': ['EXECUTING', None], 'n1': ['EXECUTING', None]},
              effects={('n0', 0): [('enqueueAssignment', 'a0'), ('enqueueAssignment', 'a1'), ('enqueueCommand', 'c0'), ('enqueueCommand', 'c1'),
                                   ('enqueueUpdate', 'u0'), ('enqueueUpdate', 'u1')], ('execute', 'a0'): [('notify', 'n1')]})
    one(P, rep, I, 'assignment wakes a node', n, start=('n0',), woken=True)
    rep.fn(*I.analysed)
    rep.floor('step scenarios', n, 140)


def one(P, rep, I, lab, n, start=('n0', 'n1'), woken=False):
    st = I.make()
    for x in start:
        st = I.only(I.do(st, [('notify', x)], TOP))
    st.trace = ()
    for s, v, sig in I.invoke(st, 'step', mk('time')):
        if not rep.check(sig is None, 'step', 'error', 'step raises an error (%s)' % lab):
            continue
        tr = list(s.trace)
        kinds = [e[0] for e in tr]
        # micro steps: [decisions][transitions][published]
        pubs = [i for i, e in enumerate(tr) if e[0] == 'published']
        trans = [i for i, e in enumerate(tr) if e[0] == 'transition']
        work = [i for i, e in enumerate(tr) if e[0] in ('execute', 'retract')]
        outb = [i for i, e in enumerate(tr) if e[0] in ('executeCommand', 'reportCommandArbitrationFailure', 'invokeAbort', 'executeUpdate')]
        rep.check(not work or not trans or max(trans) < min(work), 'phase', 'assign-before-transition',
                  'an assignment takes effect before all due nodes have transitioned (%s)' % lab,
                  sample='%s: %s' % (lab, ' '.join(kinds)[:200]))
        rep.check(not outb or not work or max(work) < min(outb), 'phase', 'outbound-before-assign',
                  'commands or updates go out before the assignments are performed (%s)' % lab)
        rep.check(not outb or not trans or max(trans) < min(outb), 'phase', 'outbound-before-transition',
                  'commands or updates go out before the transitions are over (%s)' % lab)
        ex = [i for i in work if tr[i][0] == 'execute']
        re_ = [i for i in work if tr[i][0] == 'retract']
        rep.check(not ex or not re_ or max(ex) < min(re_), 'phase', 'retract-before-assign', 'a retraction precedes an assignment (%s)' % lab)
        # each micro step decides for every candidate before it transitions any node
        last = None
        batch = []
        groups = []
        for e in tr:
            if e[0] == 'dest':
                if last == 'transition':
                    groups.append(batch)
                    batch = []
                last = 'dest'
                if e[2]:
                    batch.append(e[1])
            elif e[0] == 'transition':
                last = 'transition'
        if batch:
            groups.append(batch)
        # decided nodes all transition, in order, in the same micro step
        seqd = [x for g in groups for x in g]
        seqt = [tr[i][1] for i in trans]
        rep.check(seqd == seqt, 'micro', 'decided', 'nodes %s were decided to transition, %s did (%s)' % (seqd, seqt, lab))
        pos = 0
        for g in groups:
            idx = trans[pos:pos + len(g)]
            pos += len(g)
            if idx:
                rep.check(not [e for e in tr[idx[0]:idx[-1]] if e[0] == 'dest'], 'micro', 'interleaved',
                          'a node is examined between the transitions of one micro step (%s)' % lab)
        # what was enqueued is done exactly once, in order, per kind
        for m, done in DONE.items():
            want = [e[2] for e in tr if e[0] == 'enqueue' and e[1] == m]
            got = [e[1] for e in tr if e[0] in done]
            if m == 'enqueueCommand':
                acc = [x for x in want if I.acceptv.get(x, True)]
                rej = [x for x in want if not I.acceptv.get(x, True)]
                ge = [e[1] for e in tr if e[0] == 'executeCommand']
                gr = [e[1] for e in tr if e[0] == 'reportCommandArbitrationFailure']
                rep.check(ge == acc and gr == rej, 'work', m, 'commands %s accepted and %s rejected, but %s dispatched and %s reported denied (%s)' %
                          (acc, rej, ge, gr, lab))
            else:
                rep.check(got == want, 'work', m, '%s of %s results in %s of %s (%s)' % (m, want, done[0], got, lab))
        # the step goes on while nodes are due and nothing is held back
        end = max(trans) if trans else 0
        cand = [n_ for n_ in ('n0', 'n1', 'n2') if I.QN[s.mem.get(('F', ('O', n_), '$qs'), I.Q['QUEUE_NONE'])] == 'QUEUE_CHECK']
        held = [e for e in tr if e[0] == 'enqueue' and e[1] in HOLD]
        if not woken:
            rep.check(not cand or held, 'quiescence', 'left', 'the step ends with %s still to be examined although nothing is pending (%s)' % (cand, lab))
        # nothing held back is overtaken by another round of decisions
        firstheld = next((i for i, e in enumerate(tr) if e[0] == 'enqueue' and e[1] in HOLD), None)
        if firstheld is not None:
            after = [i for i, e in enumerate(tr) if e[0] == 'dest' and i > firstheld]
            rep.check(not after, 'quiescence', 'overtaken',
                      'nodes are examined again before the pending assignments and commands are handled (%s)' % lab)
        # listener
        told = []
        for i in pubs:
            told += [tuple(dict(x).values()) for x in tr[i][1]]
        want = [(tr[i][1], tr[i][2], tr[i][3]) for i in trans]
        got = [tuple(self_ids(x)) for x in told]
        rep.check(sorted(map(str, [set_(w) for w in want])) == sorted(map(str, [set_(g) for g in got])) and
                  [w[0] for w in want] == [next((y for y in g if isinstance(y, str)), None) for g in got], 'listener', 'transitions',
                  'the listener is told of %s, the transitions were %s (%s)' % (got, want, lab))
        rep.check(kinds.count('stepComplete') == 1 and kinds[-1] == 'stepComplete', 'listener', 'stepComplete',
                  'the end of the step is reported %d time(s)%s (%s)' % (kinds.count('stepComplete'), '' if kinds[-1:] == ['stepComplete'] else ', not last', lab))
        rep.check(not pubs or not work or max(pubs) < min(work), 'listener', 'late', 'transitions are published after the assignments (%s)' % lab)
        rep.check(kinds.count('cycle') == 1, 'phase', 'cycle', 'the cycle count advances %d times (%s)' % (kinds.count('cycle'), lab))
        # a second step finds nothing left over
        s2 = s.fork()
        s2.trace = ()
        for t, v2, sg2 in I.invoke(s2, 'step', mk('time')):
            rep.check(sg2 is None and not [e for e in t.trace if e[0] in ('execute', 'retract', 'executeCommand', 'invokeAbort', 'executeUpdate', 'reportCommandArbitrationFailure')
                                           and not [q for q in t.trace if q[0] == 'enqueue']],
                      'work', 'leftover', 'work of one step is done again in the next (%s)' % lab)
    rep.fn(*I.analysed)


def self_ids(x):
    return [addr_of(y)[1] if hasattr(y, 'addr') else y for y in x]


def set_(w):
    return sorted(map(str, w))
