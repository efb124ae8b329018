"""S01: no wake-up is lost; queue membership always matches the recorded status."""
import itertools
from lib_sim import *
from lib_exec import ExecI, EX, qs_enum
from interp import Ctx

MIN_OBLIGATIONS = 300
TOP = Ctx(key='', name='', cls=None, this=None, args=[], node=None, frame=('top',), argnodes=[])


def run(P, rep):
    rep.rule('queue-status transition table of every node class for condition changes and freed resources; executive queues interpreted '
             'over concrete nodes in every status: a node is in exactly the queue its status names, a requested check leads to a check, '
             'a released resource to a retry; each state change re-queues the node and the children it concerns')
    tables(P, rep)
    pending(P, rep)
    finished(P, rep)
    after_transition(P, rep)
    children(P, rep)


# ---------------------------------------------------------------- node side
class TabI(NodeI):
    def on_call(self, st, ctx):
        if ctx.name == 'notify' and len(ctx.args) == 1:
            return None
        if ctx.name == 'addCandidateNode':
            st.ev('candidate', ctx.args[0])
            return [(st, None)]
        return NodeI.on_call(self, st, ctx)


def tables(P, rep):
    E = enums(P)
    Q = qs_enum(P)
    names = {v: k for k, v in Q.items()}
    need = ['QUEUE_NONE', 'QUEUE_CHECK', 'QUEUE_PENDING', 'QUEUE_PENDING_CHECK', 'QUEUE_PENDING_TRY', 'QUEUE_PENDING_TRY_CHECK',
            'QUEUE_TRANSITION', 'QUEUE_TRANSITION_CHECK', 'QUEUE_DELETE']
    for q in need:
        if q not in Q:
            raise AnalysisBroken('queue status %s not found' % q)
    cond = {'QUEUE_NONE': 'QUEUE_CHECK', 'QUEUE_PENDING': 'QUEUE_PENDING_CHECK', 'QUEUE_PENDING_TRY': 'QUEUE_PENDING_TRY_CHECK',
            'QUEUE_TRANSITION': 'QUEUE_TRANSITION_CHECK'}
    freed = {'QUEUE_PENDING': 'QUEUE_PENDING_TRY', 'QUEUE_PENDING_CHECK': 'QUEUE_PENDING_TRY_CHECK'}
    get = P.find('NodeImpl::getQueueStatus', 0)[0]
    put = P.find('NodeImpl::setQueueStatus', 1)[0]
    seen = set()
    for cls in CLASSES:
        for fn, n, tab in (('notifyChanged', 0, cond), ('notify', 1, cond), ('notifyResourceAvailable', 0, freed)):
            f = P.find('NodeImpl::' + fn, n)[0]
            k = P.dispatch(cls, f['key']) or f['key']
            if (k, fn) in seen:
                continue
            seen.add((k, fn))
            for q in need:
                I = TabI(P, cls, E)
                st = I.fresh(True)
                st.mem[('G', 'PLEXIL::g_exec')] = ptr(EXEC)
                st = I.start(P.fns[P.dispatch(cls, put['key']) or put['key']], st, ptr(NODE), [Q[q]])[0][0]
                st.trace = ()
                for s, v, sig in I.start(P.fns[k], st, ptr(NODE), [ptr(EXEC)] if n else []):
                    if q == 'QUEUE_DELETE':
                        rep.check(not [e for e in s.trace if e[0] == 'candidate'], 'table', fn + '|' + q,
                                  '%s: %s makes a finished root node awaiting deletion a candidate' % (cls, fn))
                        continue
                    want = tab.get(q, q)
                    rep.check(sig is None, 'table', '%s|%s|error' % (fn, q), '%s::%s in %s raises an error' % (cls, fn, q))
                    for s2, g, sg in I.start(P.fns[P.dispatch(cls, get['key']) or get['key']], s.fork(), ptr(NODE), []):
                        rep.check(g == Q[want], 'table', '%s|%s' % (fn, q), '%s::%s moves a node from %s to %s instead of %s' %
                                  (cls.replace('PLEXIL::', ''), fn, q, names.get(g, g), want), sample='%s: %s -> %s' % (fn, q, want))
                    c = [e for e in s.trace if e[0] == 'candidate']
                    wantc = 1 if (q == 'QUEUE_NONE' and tab is cond) else 0
                    rep.check(len(c) == wantc and all(e[1] == ptr(NODE) for e in c), 'table', '%s|%s|candidate' % (fn, q),
                              '%s::%s in %s adds the node %d time(s) to the candidates' % (cls.replace('PLEXIL::', ''), fn, q, len(c)))
                rep.fn(*I.analysed)


# ---------------------------------------------------------------- executive side
QUEUE_OF = {'QUEUE_CHECK': 'candidate', 'QUEUE_PENDING': 'pending', 'QUEUE_PENDING_CHECK': 'pending',
            'QUEUE_PENDING_TRY': 'pending', 'QUEUE_PENDING_TRY_CHECK': 'pending', 'QUEUE_TRANSITION': 'transition',
            'QUEUE_TRANSITION_CHECK': 'transition', 'QUEUE_DELETE': 'finished'}


def queues(I, s):
    """queue field -> node names, following the links from each queue's front"""
    out = {}
    for f in I.P.classes[I.xcls]['fields']:
        t = f['t']
        if 'Queue<PLEXIL::Node' not in t:
            continue
        base = t.split('<')[0].split('::')[-1]
        fs = [x for x in I.P.fns.values() if x.get('n') == 'front' and (x.get('cls') or '').endswith('LinkedQueue<PLEXIL::Node>')]
        if not fs:
            raise AnalysisBroken('queue front() not found')
        r = I.start(fs[0], s.fork(), ptr(('F', EX, f['n'])), [])
        v = r[0][1]
        lst = []
        while isinstance(v, Ptr):
            if len(lst) > 10:
                lst.append('(endless)')
                break
            lst.append(addr_of(v)[1])
            v = s.mem.get(('F', addr_of(v), '$next'), 0)
        out[f['n']] = lst
    if len(out) < 4:
        raise AnalysisBroken('only %d node queues in %s' % (len(out), I.xcls))
    return out


def roles(P):
    """which queue field plays which role, learnt from where a node goes"""
    out = {}
    I = ExecI(P, resources={'n1'}, dest={'n1': ['EXECUTING']}, try_={'n1': [False]})
    st = I.make()
    s = I.only(I.do(st.fork(), [('notify', 'n0')], TOP))
    out['candidate'] = where(I, s, 'n0')
    s = I.only(I.do(st.fork(), [('notify', 'n1')], TOP))
    s = I.only(I.invoke(s, 'step', mk('time')))
    out['pending'] = where(I, s, 'n1')
    s = I.only(I.invoke(st.fork(), 'markRootNodeFinished', ptr(('O', 'n0'))))
    out['finished'] = where(I, s, 'n0')
    rest = [f for f in queues(I, st) if f not in out.values()]
    if len(rest) != 1 or len(set(out.values())) != 3 or None in out.values():
        raise AnalysisBroken('cannot tell the node queues of %s apart: %s' % (I.xcls, out))
    out['transition'] = rest[0]
    return {v: k for k, v in out.items()}


def where(I, s, n):
    w = [f for f, l in queues(I, s).items() if n in l]
    return w[0] if len(w) == 1 else None


def consistent(I, s, role, nodes, rep, lab, key):
    qs = queues(I, s)
    ok = True
    for n in nodes:
        st = I.QN.get(s.mem.get(('F', ('O', n), '$qs'), I.Q['QUEUE_NONE']))
        at = [role[f] for f, l in qs.items() for x in l if x == n]
        want = [QUEUE_OF[st]] if st in QUEUE_OF else []
        ok &= rep.check(at == want, 'membership', key, '%s: a node with status %s is in the queues %s' % (lab, st, at or 'none'),
                        sample='%s: %s in %s' % (lab, st, at or 'none'))
    return ok


def pending(P, rep):
    role = roles(P)
    rep.rule('queues: ' + ', '.join('%s=%s' % (r, f) for f, r in role.items()))
    sts = ['QUEUE_PENDING_TRY', 'QUEUE_PENDING_TRY_CHECK', 'QUEUE_PENDING', 'QUEUE_PENDING_CHECK']
    nn = 3 if rep.tier == 'thorough' else 2
    nodes = ['n%d' % i for i in range(nn)]
    cnt = 0
    for combo in itertools.product(sts, repeat=nn):
        for dests in itertools.product(('EXECUTING', 'FINISHED', None), repeat=nn):
            if any(q in ('QUEUE_PENDING', 'QUEUE_PENDING_TRY') and d != 'EXECUTING' for q, d in zip(combo, dests)):
                continue
            for prios in ((0, 0, 0), (0, 1, 2)) if nn > 1 else ((0,),):
                # put the nodes into the pending queue by a step in which all are refused
                I = ExecI(P, prio=dict(zip(nodes, prios)), resources=set(nodes),
                          dest={n: ['EXECUTING', d] for n, d in zip(nodes, dests)}, try_=None)
                I.tryv = {n: [False] for n in nodes}
                st = I.make()
                for n in nodes:
                    st = I.only(I.do(st, [('notify', n)], TOP))
                st = I.only(I.invoke(st, 'step', mk('time')))
                if not consistent(I, st, role, nodes, rep, 'refused resources', 'refused'):
                    return
                for n, q in zip(nodes, combo):
                    st.mem[('F', ('O', n), '$qs')] = I.Q[q]
                I.tryv = {}
                st.trace = ()
                for s, v, sig in I.invoke(st.fork(), 'step', mk('time')):
                    cnt += 1
                    lab = 'step with %s' % ', '.join('%s%s' % (q.replace('QUEUE_', ''), ('->' + str(d)) if 'CHECK' in q else '')
                                                     for q, d in zip(combo, dests))
                    if not rep.check(sig is None, 'pending', 'error', lab + ' raises an error'):
                        continue
                    consistent(I, s, role, nodes, rep, lab, 'pending')
                    for n, q, d in zip(nodes, combo, dests):
                        asked = [e for e in s.trace if e[0] == 'dest' and e[1] == n]
                        tries = [e for e in s.trace if e[0] == 'try' and e[1] == n]
                        trans = [e for e in s.trace if e[0] == 'transition' and e[1] == n]
                        un = [e for e in s.trace if e[0] == 'unreserve' and e[1] == n]
                        end = I.QN[s.mem[('F', ('O', n), '$qs')]]
                        if 'CHECK' in q:
                            rep.check(asked, 'pending', q + '|check', '%s: the node asked to be re-examined is not' % lab)
                        if q == 'QUEUE_PENDING_TRY' or q == 'QUEUE_PENDING_TRY_CHECK' and d == 'EXECUTING':
                            rep.check(tries, 'pending', q + '|retry', '%s: the resource was freed but the node does not retry' % lab)
                        if q == 'QUEUE_PENDING' or (q == 'QUEUE_PENDING_CHECK' and d == 'EXECUTING'):
                            rep.check(end.startswith('QUEUE_PENDING') and not trans, 'pending', q + '|stay',
                                      '%s: the waiting node ends in %s' % (lab, end))
                        if 'CHECK' in q and d is None:
                            rep.check(end == 'QUEUE_NONE' and un and not trans and not tries, 'pending', q + '|withdrawn',
                                      '%s: no longer eligible, the node ends in %s%s' % (lab, end, '' if un else ' still waiting for resources'))
                        if 'CHECK' in q and d == 'FINISHED':
                            rep.check(trans and un and not tries, 'pending', q + '|leave',
                                      '%s: due for another state, the node %s' % (lab, 'keeps waiting for resources' if trans else 'does not transition'))
                        if tries:
                            ok = tries[-1][2]
                            rep.check(bool(trans) == ok, 'pending', q + '|granted', '%s: resources %s, the node %s' %
                                      (lab, 'granted' if ok else 'refused', 'transitions' if trans else 'does not transition'))
                            rep.check(ok or end == 'QUEUE_PENDING', 'pending', q + '|refused', '%s: refused, the node ends in %s' % (lab, end))
                            rep.check(len(tries) == 1, 'pending', q + '|once', '%s: resources asked for %d times' % (lab, len(tries)))
                        for e in trans:
                            rep.check(len(trans) == 1, 'pending', q + '|twice', '%s: the node transitions %d times' % (lab, len(trans)))
                rep.fn(*I.analysed)
    rep.floor('pending-queue cases', cnt, 40)
    # a check requested while the node is in the transition queue is carried out afterwards
    for first, second in itertools.permutations(['n0', 'n1']):
        I = ExecI(P, dest={'n0': ['EXECUTING', None, None], 'n1': ['EXECUTING', None, None]}, effects={('n0', 0): [('notify', 'n1')]})
        st = I.make()
        st = I.only(I.do(st, [('notify', first), ('notify', second)], TOP))
        for s, v, sig in I.invoke(st, 'step', mk('time')):
            cnt += 1
            if not rep.check(sig is None, 'transition', 'error', 'a node notified while it is about to transition makes the step fail'):
                continue
            i = [k for k, e in enumerate(s.trace) if e[0] == 'notified' and e[1] == 'n1'][-1]
            later = [e for e in s.trace[i:] if e[0] == 'dest' and e[1] == 'n1']
            rep.check(later, 'transition', 'recheck', 'a node notified while in the transition queue (%s first) is not examined again' % first,
                      sample='node notified in the transition queue is examined again')
            consistent(I, s, role, ['n0', 'n1'], rep, 'transition', 'transition')
    # adding a plan
    I = ExecI(P, dest={'n0': [None]})
    st = I.make()
    for s, v, sig in I.invoke(st, 'addPlan', ptr(('O', 'n0'))):
        rep.check(sig is None and [e for e in s.trace if e[0] == 'notified' and e[1] == 'n0'] and
                  [e for e in s.trace if e[0] == 'activateNode' and e[1] == 'n0'], 'plan', 'addPlan',
                  'adding a plan does not %s its root node' % ('activate' if [e for e in s.trace if e[0] == 'notified'] else 'examine'),
                  sample='addPlan activates and examines the root')


def finished(P, rep):
    role = roles(P)
    for q in ('QUEUE_NONE', 'QUEUE_CHECK'):
        I = ExecI(P)
        st = I.make()
        if q == 'QUEUE_CHECK':
            st = I.only(I.do(st, [('notify', 'n0')], TOP))
        st = I.only(I.do(st, [('notify', 'n1')], TOP))
        for s, v, sig in I.invoke(st, 'markRootNodeFinished', ptr(('O', 'n0'))):
            if rep.check(sig is None, 'finished', q + '|error', 'a root node finishing in %s raises an error' % q):
                consistent(I, s, role, ['n0', 'n1'], rep, 'root finished in ' + q, 'finished')
                rep.check(I.QN[s.mem[('F', ('O', 'n0'), '$qs')]] == 'QUEUE_DELETE', 'finished', q, 'a finished root node is not queued for deletion')
        rep.fn(*I.analysed)


# ---------------------------------------------------------------- after a transition
def after_transition(P, rep):
    for I, E, cls, pres, states, steps in runs(P, rep, False):
        root = ', root' in (steps[0].variant if steps else '')
        for s in steps:
            if s.sig is not None or s.to is None:
                continue
            base = len(s.pre.trace)
            me = [e for e in s.post.trace if e[0] == 'notify' and e[1] == ptr(NODE)]
            fin = [e for e in s.post.trace if e[0] == 'exec' and e[1] == 'markRootNodeFinished']
            pub = [e for e in s.post.trace if e[0] == 'publish' and e[1] == ptr(NODE)]
            k = '%s|%s>%s' % (cls, s.frm, s.to)
            if root and s.to == 'FINISHED':
                rep.check(fin, 'after', k + '|finished', '%s: the finished root node is not reported to the executive' % label(s))
            else:
                rep.check(me, 'after', k, '%s: the node is not examined again' % label(s),
                          sample='%s %s -> %s: examined again, listeners told' % (cls, s.frm, s.to))
                rep.check(not fin, 'after', k + '|finished', '%s: reported as a finished root node' % label(s))
            rep.check(pub, 'after', k + '|publish', '%s: listeners of the node state are not told' % label(s))


class ChildI(SimI):
    child_state = None

    def on_call(self, st, ctx):
        if isinstance(ctx.this, Ptr) and ctx.this.addr[0] == 'O' and ctx.this.addr[1].startswith('child'):
            if ctx.name == 'getState':
                return [(st, self.child_state)]
            if ctx.name == 'notify':
                st.ev('child', ctx.this.addr[1])
                return [(st, None)]
            st.ev('childcall', ctx.name, ctx.this.addr[1])
            return [(st, mk('child', ctx.name))]
        return SimI.on_call(self, st, ctx)

    def initial(self, st, a, t):
        if self.f_state(('O', 'child0'))[2] == a[2] and a[0] == 'F' and a[1][0] == 'O' and a[1][1].startswith('child'):
            return self.child_state
        return SimI.initial(self, st, a, t)


def children(P, rep):
    """a list node's children concerned by its new state are examined"""
    E = enums(P)
    f = P.find('NodeImpl::setState', 3)[0]
    want = {('WAITING', 'FINISHED'), ('EXECUTING', 'INACTIVE'), ('FINISHED', 'INACTIVE')}
    states = [k[:-6] for k in E if k.endswith('_STATE') and not k.startswith('NO_')]
    n = 0
    for cls in CLASSES:
        if KIND[cls] != 'list' or 'Library' in cls:
            continue
        k = P.dispatch(cls, f['key']) or f['key']
        for to in states:
            for frm in states:
                if frm == to:
                    continue
                for cs in states:
                    I = ChildI(P, cls, E)
                    I.presence, I.child_state = set(), E[cs + '_STATE']
                    st = clean(I.fresh(True))
                    st.mem[I.f_state(NODE)] = E[frm + '_STATE']
                    fld = ('F', NODE, 'm_children')
                    st.mem[('F', fld, '$len')] = 2
                    for i in range(2):
                        st.mem[('F', ('I', fld, i), '$p')] = ptr(('O', 'child%d' % i))
                    for s, v, sig in I.start(P.fns[k], st, ptr(NODE), [ptr(EXEC), E[to + '_STATE'], mk('time')]):
                        n += 1
                        told = {e[1] for e in s.trace if e[0] == 'child'} | {addr_of(e[1])[1] for e in s.trace if e[0] == 'notify' and addr_of(e[1])[1].startswith('child')}
                        if (to, cs) in want:
                            rep.check(sig is None and told == {'child0', 'child1'}, 'children', '%s|%s|%s' % (cls, to, cs),
                                      'a %s entering %s does not have its %s children examined' % (cls, to, cs),
                                      sample='%s enters %s: %s children examined' % (cls, to, cs))
                        else:
                            rep.ok('children')
                    rep.fn(*I.analysed)
    rep.floor('parent/child state combinations', n, 100)
