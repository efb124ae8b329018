"""The executive's own code (its PlexilExec subclass) interpreted over a small concrete world: opaque nodes,
assignments, commands and updates, whose answers are given by a scenario or forked."""
from lib_node import enums
from interp import Interp, State, T, Ptr, Fn, Ctx, mk, ptr, addr_of, Broken, short
from facts import AnalysisBroken

EX = ('O', 'exec')


def qs_enum(P):
    return {it['n']: it['v'] for it in P.enum('QueueStatus')['vals']}


class ExecI(Interp):
    concrete_bound = 60
    max_states = 50000

    def __init__(self, P, prio=None, dest=None, effects=None, try_=None, accept=None, resources=None, current=None):
        """dest: node -> list of answers of successive getDestState calls (state name or None); [] -> None
        effects: (node, k) -> list of (method, operand) done inside its k-th transition
        try_: node -> list of answers of tryResourceAcquisition, or None to fork
        resources: set of nodes that need resources"""
        Interp.__init__(self, P)
        self.E = enums(P)
        self.Q = qs_enum(P)
        self.QN = {v: k for k, v in self.Q.items()}
        self.prio, self.destv, self.effects = prio or {}, dest or {}, effects or {}
        self.tryv, self.acceptv, self.resources = try_ or {}, accept or {}, resources or set()
        subs = [c for c in P.subclasses('PLEXIL::PlexilExec') if P.dispatch(c, P.find('PlexilExec::step', None, False)[0]['key'] if P.find('PlexilExec::step', None, False) else 'PLEXIL::PlexilExec::step(double)')]
        if not subs:
            raise AnalysisBroken('no implementation of PlexilExec')
        self.xcls = subs[0]

    def dyn_class(self, st, a, static):
        if a == EX:
            return self.xcls
        return st.cls.get(a)

    def method(self, name):
        c = self.P.find(self.xcls.split('::')[-1] + '::' + name, None, False)
        c = [f for f in c if f['cls'] == self.xcls]
        if not c:
            raise AnalysisBroken('%s::%s not found' % (self.xcls, name))
        return c[0]

    def invoke(self, st, name, *args):
        f = self.method(name)
        return self.start(f, st, ptr(EX), list(args))

    def sub(self, st, name, args, ctx):
        f = self.method(name)
        c = Ctx(key=f['key'], name=name, cls=self.xcls, this=ptr(EX), args=args, node=ctx.node, frame=ctx.frame, argnodes=[])
        return self.call(st, c)

    def make(self):
        ctor = [f for f in self.P.fns.values() if f.get('cls') == self.xcls and 'inits' in f and not f['params']]
        if len(ctor) != 1:
            raise AnalysisBroken('constructor of %s not found' % self.xcls)
        outs = self.start(ctor[0], State(), ptr(EX), [])
        outs = [o for o in outs if o[2] is None]
        if len(outs) != 1:
            raise AnalysisBroken('constructor of %s has %d outcomes' % (self.xcls, len(outs)))
        s = outs[0][0]
        s = self.only(self.invoke(s, 'setDispatcher', ptr(('O', 'dispatcher'))))
        s = self.only(self.invoke(s, 'setExecListener', ptr(('O', 'listener'))))
        s.trace = ()
        return s

    def only(self, outs):
        outs = [o for o in outs if o[2] is None]
        if len(outs) != 1:
            raise AnalysisBroken('%d outcomes where one was expected' % len(outs))
        return outs[0][0]

    def initial(self, st, a, t):
        if a[0] == 'F' and a[1][0] == 'O' and a[1][1][0] in 'nacu' and a[1][1][1:].isdigit():
            if a[2] == '$qs':
                return self.Q['QUEUE_NONE']
            if a[2] == '$state':
                return self.E['WAITING_STATE']
            return 0        # links
        return Interp.initial(self, st, a, t)

    def seq(self, st, table, n, what, default):
        i = st.aux.get((what, n), 0)
        st.aux[(what, n)] = i + 1
        lst = table.get(n)
        if lst is None:
            return default
        return lst[i] if i < len(lst) else (lst[-1] if what == 'prio' else default)

    def on_call(self, st, ctx):
        nm = ctx.name
        if nm == 'makeResourceArbiter':
            return [(st, ptr(('O', 'arbiter')))]
        if nm == 'incrementCycleCount':
            st.ev('cycle')
            return [(st, None)]
        if nm == 'getCycleCount':
            return [(st, mk('cyclecount'))]
        if nm == 'getDebugOutputStream':
            return [(st, mk('ostream'))]
        if ctx.this is None or not isinstance(ctx.this, Ptr) or ctx.this.addr[0] != 'O':
            return None
        o = ctx.this.addr
        n = o[1]
        if n in ('dispatcher', 'listener', 'arbiter'):
            if n == 'arbiter' and nm == 'arbitrateCommands':
                return self.arbitrate(st, ctx)
            if n == 'listener' and nm == 'notifyOfTransitions':
                v = addr_of(ctx.args[0])
                ln = st.mem.get(('F', v, '$len'))
                if not isinstance(ln, int):
                    raise Broken('transition batch of unknown length')
                st.ev('published', tuple(tuple(sorted(
                    (k[2], x) for k, x in st.mem.items() if k[0] == 'F' and k[1] == ('I', v, i))) for i in range(ln)))
                return [(st, None)]
            x = ctx.args[0] if ctx.args else None
            st.ev(nm, addr_of(x)[1] if isinstance(x, Ptr) else x)
            return [(st, None)]
        if n[0] == 'n' and n[1:].isdigit():
            return self.node(st, ctx, o, n, nm)
        if n[0] == 'a' and n[1:].isdigit() and nm in ('execute', 'retract'):
            st.ev(nm, n)
            for k, (m, x) in enumerate(self.effects.get((nm, n), [])):
                return self.do(st, [(m, x)], ctx)
            return [(st, None)]
        if n[0] in 'nacu' and n[1:].isdigit():
            if nm == 'next' and not ctx.args:
                return [(st, self.load(st, ('F', o, '$next')))]
            if nm == 'nextPtr':
                return [(st, ptr(('F', o, '$next')))]
            return [(st, mk('info', n, nm))]
        return None

    def node(self, st, ctx, o, n, nm):
        if nm == 'next':
            return [(st, self.load(st, ('F', o, '$next')))]
        if nm == 'nextPtr':
            return [(st, ptr(('F', o, '$next')))]
        if nm == 'getQueueStatus':
            return [(st, self.load(st, ('F', o, '$qs')))]
        if nm == 'setQueueStatus':
            st.mem[('F', o, '$qs')] = ctx.args[0]
            return [(st, None)]
        if nm == 'getPriority':
            return [(st, self.prio.get(n, 0))]
        if nm == 'getState':
            return [(st, self.load(st, ('F', o, '$state')))]
        if nm == 'getDestState':
            d = self.seq(st, self.destv, n, 'dest', None)
            st.ev('dest', n, d)
            st.mem[('F', o, '$dest')] = self.E[(d or 'NO_NODE') + '_STATE'] if d else self.E['NO_NODE_STATE']
            return [(st, d is not None)]
        if nm == 'getNextState':
            return [(st, self.load(st, ('F', o, '$dest')))]
        if nm == 'acquiresResources':
            return [(st, n in self.resources)]
        if nm == 'tryResourceAcquisition':
            lst = self.tryv.get(n)
            if lst is None:
                out = []
                for s, b in self.truth(st, mk('try', n, st.count(('tryc', n)))):
                    s.ev('try', n, b)
                    out.append((s, b))
                return out
            b = self.seq(st, self.tryv, n, 'try', False)
            st.ev('try', n, b)
            return [(st, b)]
        if nm == 'releaseResourceReservations':
            st.ev('unreserve', n)
            return [(st, None)]
        if nm == 'notify':
            st.ev('notified', n)
            return self.notify(st, o, ctx)
        if nm == 'activateNode':
            st.ev('activateNode', n)
            return [(st, None)]
        if nm == 'transition':
            k = st.aux.get(('trans', n), 0)
            st.aux[('trans', n)] = k + 1
            old = self.load(st, ('F', o, '$state'))
            st.ev('transition', n, old, st.mem.get(('F', o, '$dest')), st.mem.get(('F', o, '$qs')))
            st.mem[('F', o, '$state')] = st.mem.get(('F', o, '$dest'))
            return self.do(st, self.effects.get((n, k), []), ctx)
        return [(st, mk('info', n, nm))]

    def do(self, st, acts, ctx):
        outs = [(st, None, None)]
        for m, x in acts:
            nxt = []
            for s, v, sg in outs:
                if sg:
                    nxt.append((s, v, sg))
                elif m == 'notify':
                    s.ev('notified', x)
                    nxt += self.notify(s, ('O', x), ctx)
                else:
                    s.ev('enqueue', m, x)
                    nxt += self.sub(s, m, [ptr(('O', x))], ctx)
            outs = [t if len(t) == 3 else (t[0], t[1], None) for t in nxt]
        return [(s, None, sg) for s, v, sg in outs]

    def notify(self, st, o, ctx):
        """NodeImpl::notify as established by the S01 table"""
        Q = self.Q
        q = self.load(st, ('F', o, '$qs'))
        to = {Q['QUEUE_PENDING']: Q['QUEUE_PENDING_CHECK'], Q['QUEUE_PENDING_TRY']: Q['QUEUE_PENDING_TRY_CHECK'],
              Q['QUEUE_TRANSITION']: Q['QUEUE_TRANSITION_CHECK']}
        if q in to:
            st.mem[('F', o, '$qs')] = to[q]
        elif q == Q['QUEUE_NONE']:
            st.mem[('F', o, '$qs')] = Q['QUEUE_CHECK']
            return self.sub(st, 'addCandidateNode', [ptr(o)], ctx)
        return [(st, None, None)]

    def arbitrate(self, st, ctx):
        """moves every queued command to the accepted or rejected queue, using the queue's own members"""
        cmds, acc, rej = [addr_of(a) for a in ctx.args[:3]]
        st.ev('arbitrate')
        qc = [c for c in self.P.classes if c.endswith('LinkedQueue<PLEXIL::CommandImpl>')][0]

        def m(name):
            return [f for f in self.P.fns.values() if f.get('cls') == qc and f['n'] == name][0]

        def call(s, name, obj, args):
            f = m(name)
            return [(t[0], t[1]) for t in self.call(s, Ctx(key=f['key'], name=name, cls=qc, this=ptr(obj), args=args, node=ctx.node,
                                                          frame=ctx.frame + ('arb',) if isinstance(ctx.frame, tuple) else ctx.frame, argnodes=[]))]
        s = st
        for _ in range(20):
            r = call(s, 'front', cmds, [])
            s, v = r[0]
            if not isinstance(v, Ptr):
                break
            s, _v = call(s, 'pop', cmds, [])[0]
            x = addr_of(v)[1]
            good = self.acceptv.get(x, True)
            s, _v = call(s, 'push', acc if good else rej, [v])[0]
        return [(s, None)]


def order_of_pending(P, rep):
    """the executive tries the pending nodes in ascending priority, equal ones in arrival order"""
    import itertools
    ns = ['n0', 'n1', 'n2']
    n = 0
    for pr in itertools.product((0, 1, 2), repeat=3):
        prio = dict(zip(ns, pr))
        I = ExecI(P, prio=prio, dest={x: ['EXECUTING'] for x in ns}, try_={x: [True] for x in ns}, resources=set(ns))
        st = I.make()
        for x in ns:
            st = I.only(I.do(st, [('notify', x)], Ctx(key='', name='', cls=None, this=None, args=[], node=None, frame=('top',), argnodes=[])))
        for s, v, sig in I.invoke(st, 'step', mk('time')):
            n += 1
            tried = [e[1] for e in s.trace if e[0] == 'try']
            want = sorted(ns, key=lambda x: (prio[x], x))
            rep.check(sig is None and tried == want, 'order', 'priority',
                      'nodes with priorities %s arriving in order %s compete for resources in the order %s' % (prio, ' '.join(ns), ' '.join(tried)),
                      sample='priorities %s: order %s' % (pr, ' '.join(tried)))
        rep.fn(*I.analysed)
    rep.floor('priority assignments', n, 27)
