"""Life-cycle semantics of plan nodes: a specification table, and an abstract node whose
methods are interpreted with every condition absent, unknown, false or true."""
from interp import Interp, State, T, Ptr, Fn, mk, ptr, addr_of, isconst, Broken, short, qual, rec_type
from facts import AnalysisBroken

NODE = ('O', 'node')
PARENT = ('O', 'parent')
EXEC = ('O', 'exec')
CLASSES = ['PLEXIL::NodeImpl', 'PLEXIL::ListNode', 'PLEXIL::LibraryCallNode', 'PLEXIL::CommandNode',
           'PLEXIL::AssignmentNode', 'PLEXIL::UpdateNode']
KIND = {'PLEXIL::NodeImpl': 'empty', 'PLEXIL::ListNode': 'list', 'PLEXIL::LibraryCallNode': 'list',
        'PLEXIL::CommandNode': 'command', 'PLEXIL::AssignmentNode': 'assignment', 'PLEXIL::UpdateNode': 'update'}
ANC = ['ancestorExit', 'ancestorInvariant', 'ancestorEnd']
OWN = ['skip', 'start', 'pre', 'exit', 'invariant', 'end', 'post', 'repeat']
ALWAYS = {'empty': [], 'list': ['actionComplete'], 'command': ['actionComplete', 'abortComplete'],
          'assignment': ['actionComplete', 'abortComplete'], 'update': ['actionComplete']}


def enums(P):
    r = {}
    for e in ('NodeState', 'NodeOutcome', 'FailureType'):
        for it in P.enum(e)['vals']:
            r[it['n']] = it['v']
    return r


# ---------------------------------------------------------------- specification
class Need(Exception):
    def __init__(self, name):
        self.name = name


def spec(kind, state, ftype, parent, v):
    """Successor of a node: None (stay) or (state, outcome, failure type); outcome None = unchanged.
    v(name) in 'A','U','F','T'; parent: name of the parent's state or None."""
    t = lambda n: v(n) == 'T'
    f = lambda n: v(n) == 'F'
    nott = lambda n: v(n) in ('U', 'F')
    SKIP = ('FINISHED', 'SKIPPED', 'NO_FAILURE')
    if state == 'INACTIVE':
        if parent is None:
            return ('WAITING', None, None)
        if parent == 'FINISHED':
            return SKIP
        if parent == 'EXECUTING':
            if t('ancestorExit') or f('ancestorInvariant') or t('ancestorEnd'):
                return SKIP
            return ('WAITING', None, None)
        return None
    if state == 'WAITING':
        if t('ancestorExit') or t('exit') or f('ancestorInvariant') or t('ancestorEnd') or t('skip'):
            return SKIP
        if nott('start'):
            return None
        if nott('pre'):
            return ('ITERATION_ENDED', 'FAILURE', 'PRE_CONDITION_FAILED')
        return ('EXECUTING', None, None)
    if state == 'FINISHED':
        return ('INACTIVE', None, None) if parent == 'WAITING' else None
    if state == 'ITERATION_ENDED':
        if t('ancestorExit'):
            return ('FINISHED', 'INTERRUPTED', 'PARENT_EXITED')
        if f('ancestorInvariant'):
            return ('FINISHED', 'FAILURE', 'PARENT_FAILED')
        if t('ancestorEnd'):
            return ('FINISHED', None, None)
        r = v('repeat')
        if r == 'U':
            return None
        return ('WAITING', None, None) if r == 'T' else ('FINISHED', None, None)
    post = lambda: ('ITERATION_ENDED', 'FAILURE', 'POST_CONDITION_FAILED') if nott('post') else \
        ('ITERATION_ENDED', 'SUCCESS', 'NO_FAILURE')
    if state in ('EXECUTING', 'FINISHING'):
        if kind == 'assignment' and not t('actionComplete'):
            return None
        own = 'ITERATION_ENDED' if kind == 'empty' else 'FAILING'
        anc = 'FINISHED' if kind == 'empty' else 'FAILING'
        if t('ancestorExit'):
            return (anc, 'INTERRUPTED', 'PARENT_EXITED')
        if t('exit'):
            return (own, 'INTERRUPTED', 'EXITED')
        if f('ancestorInvariant'):
            return (anc, 'FAILURE', 'PARENT_FAILED')
        if f('invariant'):
            return (own, 'FAILURE', 'INVARIANT_CONDITION_FAILED')
        if state == 'EXECUTING':
            if nott('end'):
                return None
            if kind in ('list', 'command'):
                return ('FINISHING', None, None)
            return post()
        return post() if t('actionComplete') else None
    if state == 'FAILING':
        c = 'abortComplete' if kind in ('command', 'assignment') else 'actionComplete'
        if not t(c):
            return None
        return ('FINISHED', None, None) if ftype in ('PARENT_FAILED', 'PARENT_EXITED') else ('ITERATION_ENDED', None, None)
    raise AssertionError(state)


REACHABLE = {'empty': ['INACTIVE', 'WAITING', 'EXECUTING', 'ITERATION_ENDED', 'FINISHED'],
             'list': ['INACTIVE', 'WAITING', 'EXECUTING', 'FINISHING', 'FAILING', 'ITERATION_ENDED', 'FINISHED'],
             'command': ['INACTIVE', 'WAITING', 'EXECUTING', 'FINISHING', 'FAILING', 'ITERATION_ENDED', 'FINISHED'],
             'assignment': ['INACTIVE', 'WAITING', 'EXECUTING', 'FAILING', 'ITERATION_ENDED', 'FINISHED'],
             'update': ['INACTIVE', 'WAITING', 'EXECUTING', 'FAILING', 'ITERATION_ENDED', 'FINISHED']}


def vals_of(kind, name):
    if name in ALWAYS[kind]:
        # completion of children and command-handle-known are never unknown; flags never unknown either
        return 'FT'
    return 'AUFT'


def spec_all(kind, state, ftype, parent, partial):
    """all (valuation, result) of the specification consistent with the partial valuation"""
    out, work = [], [dict(partial)]
    while work:
        p = work.pop()

        def v(n):
            if n not in p:
                raise Need(n)
            return p[n] if len(p[n]) == 1 else multi(n)

        def multi(n):
            raise Need(n)
        try:
            out.append((p, spec(kind, state, ftype, parent, v)))
        except Need as e:
            for x in (p.get(e.name) or vals_of(kind, e.name)):
                q = dict(p)
                q[e.name] = x
                work.append(q)
    return out


def consulted(kind, state, ftype='NO_FAILURE', parent='EXECUTING'):
    """conditions the specification consults in a state"""
    used = set()
    for p, _ in spec_all(kind, state, ftype, parent, {}):
        used |= set(p)
    return used


# ---------------------------------------------------------------- abstract node
class NodeI(Interp):
    kind = 'empty'
    cls = 'PLEXIL::NodeImpl'
    parent_state = None        # enumerator value or None (no parent)
    presence = None            # None: lazily forked; else set of present conditions
    mutexes = True
    locals_ = True

    def __init__(self, P, cls, E):
        Interp.__init__(self, P)
        self.cls, self.kind, self.E = cls, KIND[cls], E
        vals = P.enum('NodeImpl::ConditionIndex')['vals']
        self.idx = {}
        for it in vals:
            n = it['n']
            if n.endswith('Idx'):
                self.idx[it['v']] = n[:-3]
        for n in ANC + OWN + ['actionComplete', 'abortComplete']:
            if n not in self.idx.values():
                raise AnalysisBroken('condition index %s not found' % n)
        self.subclass_of_exec = set(['PLEXIL::PlexilExec'] + P.subclasses('PLEXIL::PlexilExec'))

    # conditions are terms: T('cond', name)
    def cname(self, v):
        if isinstance(v, Ptr) and v.addr[0] == 'D':
            v = v.addr[1]
        if isinstance(v, T) and v[0] == 'cond':
            return v[1]
        if isinstance(v, Ptr):
            a = v.addr
            if a[0] == 'O' and a[1].startswith('v:'):
                return a[1][2:]
            if a[0] == 'O' and a[1].startswith('c:'):
                return a[1][2:]
        return None

    def slot(self, name):
        if self.presence is not None:
            if name in ALWAYS[self.kind]:
                return ptr(('O', 'c:' + name))
            return ptr(('O', 'c:' + name)) if name in self.presence else 0
        if name in ALWAYS[self.kind]:
            return ptr(('O', 'c:' + name))
        if name in ('actionComplete', 'abortComplete'):
            return 0
        return mk('cond', name)

    def dyn_class(self, st, addr, static):
        if addr == NODE:
            return self.cls
        if addr == PARENT:
            return 'PLEXIL::ListNode'
        return st.cls.get(addr)

    def initial(self, st, addr, typ):
        if addr[0] == 'I' and addr[1][0] == 'F' and addr[1][2] == 'm_conditions' and isinstance(addr[2], int):
            who, n = addr[1][1], self.idx.get(addr[2])
            if n is None:
                raise Broken('condition index %s' % (addr[2],))
            if who == PARENT:
                return self.slot(n)
            if who == NODE:
                if n in ANC:
                    return self.slot('child' + n[0].upper() + n[1:]) if self.kind == 'list' else 0
                return self.slot(n)
        if addr[0] == 'F' and addr[1] == PARENT and addr == self.f_state(PARENT):
            return self.parent_state
        return Interp.initial(self, st, addr, typ)

    def f_state(self, who):
        f = getattr(self, '_fs', None)
        if f is None:
            f = self._fs = getter_field(self, 'getState', 'PLEXIL::NodeImpl')
        return ('F', who, f)

    def getval(self, st, nm, ctx):
        out = []
        full = vals_of(self.kind, nm)
        ks = self.truth(st, mk('known', nm)) if 'U' in full else [(st, True)]
        for s, k in ks:
            if not k:
                out.append((s, False))
                continue
            for s2, b in self.truth(s, mk('true', nm)):
                self.store(s2, addr_of(ctx.args[0]), b, ctx.node)
                out.append((s2, True))
        return out

    def on_call(self, st, ctx):
        nm = self.cname(ctx.this) if ctx.this is not None else None
        if nm is not None:
            if ctx.name == 'getValue' and len(ctx.args) == 1:
                st.ev('get', nm)
                return self.getval(st, nm, ctx)
            if ctx.name == 'isKnown':
                return self.truth(st, mk('known', nm)) if 'U' in vals_of(self.kind, nm) else [(st, True)]
            if ctx.name == 'isActive':
                return [(st, True)]
            if ctx.name in ('activate', 'deactivate'):
                d = 1 if ctx.name == 'activate' else -1
                k = ('act', nm)
                st.aux[k] = st.aux.get(k, 0) + d
                st.ev(ctx.name, nm)
                if st.aux[k] < 0:
                    st.ev('underflow', nm)
                return [(st, None)]
            if ctx.name in ('addListener', 'removeListener'):
                st.ev(ctx.name, nm, ctx.args[0])
                return [(st, None)]
            return None
        c = (ctx.cls or '')
        q = short(ctx.key)
        cl = q.rsplit('::', 1)[0]
        if cl in ('PLEXIL::CommandImpl', 'PLEXIL::Assignment', 'PLEXIL::UpdateImpl') and \
                ctx.name in ('activate', 'deactivate', 'fixValues', 'fixValue'):
            if ctx.name in ('activate', 'deactivate'):
                k = ('act', 'action')
                st.aux[k] = st.aux.get(k, 0) + (1 if ctx.name == 'activate' else -1)
                if st.aux[k] < 0:
                    st.ev('underflow', 'action')
            st.ev('action', ctx.name if not ctx.name.startswith('fix') else 'fix')
            return [(st, None)]
        if cl == 'PLEXIL::Assignment' and ctx.name == 'getDest':
            return [(st, ptr(('O', 'dest')))]
        if ctx.name == 'getBaseVariable':
            return [(st, ptr(('O', 'basevar')))]
        if cl in self.subclass_of_exec or c in self.subclass_of_exec:
            if ctx.name == 'getArbiter':
                return [(st, mk('arbiter'))]
            st.ev('exec', ctx.name, ctx.args[0] if ctx.args else None)
            return [(st, None)]
        if cl == 'PLEXIL::Reservable' and ctx.name in ('acquire', 'release', 'addWaitingNode', 'removeWaitingNode'):
            return self.reservable(st, ctx)
        if ctx.name == 'getHolder':
            return [(st, mk('holder', ctx.this))]
        if ctx.name == 'notify' and cl.startswith('PLEXIL::') and self.P.is_a(cl, 'PLEXIL::NodeImpl') and len(ctx.args) == 1:
            st.ev('notify', ctx.this)
            return [(st, None)]
        if ctx.name == 'publishChange':
            st.ev('publish', ctx.this, *(self.reading(st) if ctx.this == ptr(NODE) else ()))
            return [(st, None)]
        if ctx.name == 'logTransition':
            st.ev('log', ctx.args[-1] if ctx.args else None)
            return [(st, None)]
        return None

    def reservable(self, st, ctx):
        k = ('held', ctx.this)
        if ctx.name == 'release':
            st.ev('release', ctx.this, st.aux.get(k, False))
            st.aux[k] = False
            return [(st, None)]
        st.ev(ctx.name, ctx.this)
        return [(st, mk('acq', ctx.this) if ctx.name == 'acquire' else None)]

    # ------------------------------------------------------------- states
    def fresh(self, parent=True):
        """the node as its constructor leaves it"""
        P = self.P
        ctor = [f for f in P.fns.values() if f.get('cls') == 'PLEXIL::NodeImpl' and 'inits' in f and len(f['params']) == 2]
        if len(ctor) != 1:
            raise AnalysisBroken('NodeImpl constructor not found')
        st = State()
        self.ctoring = True
        outs = self.start(ctor[0], st, ptr(NODE), ['id', ptr(PARENT) if parent else 0])
        outs = [o for o in outs if o[2] is None]
        if len(outs) != 1:
            raise Broken('NodeImpl constructor has %d outcomes' % len(outs))
        s = outs[0][0]
        s.trace, s.facts, s.aux = (), {}, {}
        for k in [k for k in s.mem if k[0] == 'I' and k[1] == ('F', NODE, 'm_conditions')]:
            del s.mem[k]
        s.mem.pop(('=', ('F', NODE, 'm_conditions')), None)
        self.fill(s)
        return s

    def fill(self, s):
        def vec(field, name, elems, smart):
            a = ('F', ('F', NODE, field), '$p')
            if not elems:
                s.mem[a] = 0
                return
            v = ('O', name)
            s.mem[a] = ptr(v)
            s.mem[('F', v, '$len')] = len(elems)
            for i, e in enumerate(elems):
                s.mem[('F', ('I', v, i), '$p') if smart else ('I', v, i)] = e
        vec('m_localVariables', 'locals', [ptr(('O', 'v:local0')), ptr(('O', 'v:local1'))] if self.locals_ else [], True)
        vec('m_usingMutexes', 'mutexes', [ptr(('O', 'm:0')), ptr(('O', 'm:1'))] if self.mutexes else [], False)
        for f, n in (('m_assignment', 'assignment'), ('m_command', 'command'), ('m_update', 'update')):
            s.mem[('F', ('F', NODE, f), '$p')] = ptr(('O', n))
        s.mem[('F', ('F', NODE, 'm_timepoints'), '$p')] = 0
        s.mem[('F', ('F', NODE, 'm_children'), '$len')] = 0

    def field_of(self, getter):
        c = getattr(self, '_gf', None)
        if c is None:
            c = self._gf = {}
        if getter not in c:
            c[getter] = getter_field(self, getter, 'PLEXIL::NodeImpl')
        return c[getter]

    def get(self, s, getter):
        return s.mem.get(('F', NODE, self.field_of(getter)))

    def reading(self, s):
        """what the node's state, outcome and failure expressions read"""
        return tuple(self.get(s, g) for g in ('getState', 'getOutcome', 'getFailureType'))

    def dest(self, st):
        """interpret getDestState -> list of (state, returned, signal)"""
        f = self.P.find('NodeImpl::getDestState', 0)
        k = self.P.dispatch(self.cls, f[0]['key'])
        return self.start(self.P.fns[k], st, ptr(NODE), [])

    def transit(self, st):
        f = self.P.find('NodeImpl::transition', 2)
        k = self.P.dispatch(self.cls, f[0]['key'])
        return self.start(self.P.fns[k], st, ptr(NODE), [ptr(EXEC), mk('time')])

    def valuation(self, s):
        """partial valuation of the conditions decided on a path"""
        p = {}
        for a, b in s.facts.items():
            if isinstance(a, T) and a[0] == 'bool' and isinstance(a[1], T):
                a = a[1]
            if isinstance(a, T) and a[0] == 'cond':
                p.setdefault(a[1], set()).add(('pres', b))
            elif isinstance(a, T) and a[0] in ('known', 'true'):
                p.setdefault(a[1], set()).add((a[0], b))
        out = {}
        for n, fs in p.items():
            d = dict(fs)
            cand = [x for x in vals_of(self.kind, n)
                    if not (('pres' in d and d['pres'] != (x != 'A')) or
                            ('known' in d and (x == 'A' or d['known'] != (x in 'FT'))) or
                            ('true' in d and (x == 'A' or x != ('T' if d['true'] else 'F'))))]
            out[n] = cand
        return out


def getter_field(I, getter, cls):
    """name of the field a plain getter returns"""
    P = I.P
    f = P.find(cls + '::' + getter, 0)
    o = ('O', 'probe')
    st = State()
    rs = Interp(P).start(f[0], st, ptr(o), [])
    if len(rs) == 1 and isinstance(rs[0][1], T) and rs[0][1][0] == 'init':
        a = rs[0][1][1]
        if a[0] == 'F' and a[1] == o:
            return a[2]
    raise AnalysisBroken('%s::%s does not return a field' % (cls, getter))


def fmt(p):
    return ', '.join('%s=%s' % (k, {'A': 'absent', 'U': 'unknown', 'F': 'false', 'T': 'true'}.get(x, x))
                     for k, x in sorted(p.items())) or 'no condition consulted'
