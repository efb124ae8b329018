"""L01: for every node class, state, parent state and valuation of the conditions (absent,
unknown, false, true) getDestState chooses the state the life-cycle table prescribes."""
from lib_node import *

MIN_OBLIGATIONS = 400


def run(P, rep):
    E = enums(P)
    rep.rule('getDestState interpreted for each node class, state, failure type and parent state with conditions '
             'forked over absent/unknown/false/true; every path compared with the life-cycle table')
    names = {v: k[:-6] for k, v in E.items() if k.endswith('_STATE') and k != 'NO_NODE_STATE'}
    n = 0
    for cls in CLASSES:
        P.cls(cls)
        kind = KIND[cls]
        for state in REACHABLE[kind]:
            fts = ['NO_FAILURE']
            if state == 'FAILING':
                fts = ['PARENT_FAILED', 'PARENT_EXITED', 'INVARIANT_CONDITION_FAILED', 'EXITED']
            parents = [None, 'EXECUTING']
            if state in ('INACTIVE', 'FINISHED'):
                parents = [None, 'INACTIVE', 'WAITING', 'EXECUTING', 'ITERATION_ENDED', 'FINISHED', 'FAILING', 'FINISHING']
            for ft in fts:
                for par in parents:
                    n += one(P, rep, E, names, cls, kind, state, ft, par)
    rep.floor('class/state/parent cases', n, 60)
    wrappers(P, rep, E)


def one(P, rep, E, names, cls, kind, state, ft, par):
    I = NodeI(P, cls, E)
    I.parent_state = E[par + '_STATE'] if par else None
    st = I.fresh(parent=par is not None)
    st.mem[('F', NODE, I.field_of('getState'))] = E[state + '_STATE']
    st.mem[('F', NODE, I.field_of('getFailureType'))] = E[ft]
    where = '%s %s%s, parent %s' % (cls.replace('PLEXIL::', ''), state, '/' + ft if state == 'FAILING' else '', par or 'none')
    for s, ret, sig in I.dest(st):
        val = I.valuation(s)
        if par is None:
            for a in ANC:
                val[a] = ['A']
        val = {k: (x[0] if len(x) == 1 else x) for k, x in val.items()}
        pv = {k: x for k, x in val.items() if not isinstance(x, list)}
        part = {k: (x if not isinstance(x, list) else ''.join(x)) for k, x in val.items()}
        if any(x == [] for x in val.values()):
            continue
        if sig is not None:
            rep.check(False, 'choose', '%s|%s|%s|error' % (cls, state, par),
                      '%s: with %s the choice of the next state ends in %s' % (where, fmt(pv), sig[1]))
            continue
        if not isinstance(ret, (bool, int)):
            raise Broken('getDestState returns %s' % (ret,))
        got = names.get(s.mem.get(('F', NODE, I.field_of('getNextState')))) if ret else None
        for p, want in spec_all(kind, state, ft, par, part):
            w = want[0] if want else None
            rep.check(got == w, 'choose', '%s|%s|%s|%s' % (cls, state, par, w),
                      '%s: with %s the node must %s but getDestState chooses %s' %
                      (where, fmt(p), 'go to ' + w if w else 'stay', got or 'to stay'),
                      sample='%s: %s -> %s' % (where, fmt(p), w or 'stay'))
    rep.fn(*I.analysed)
    return 1


# ---------------------------------------------------------------- effective conditions
K3 = ('U', False, True)


def or3(a, b):
    return True if True in (a, b) else 'U' if 'U' in (a, b) else False


def and3(a, b):
    return False if False in (a, b) else 'U' if 'U' in (a, b) else True


class WrapI(NodeI):
    def slot(self, name):
        if name in ALWAYS[self.kind]:
            return ptr(('O', 'c:' + name))
        if name in self.presence:
            return ptr(('O', 'TRUE')) if name == self.constant else ptr(('O', 'c:' + name))
        return 0
    constant = None
    fresh_parent = True

    def initial(self, st, addr, typ):
        if addr[0] == 'I' and addr[1] == ('F', NODE, 'm_conditions') and self.idx.get(addr[2]) in ANC:
            return 0
        return NodeI.initial(self, st, addr, typ)

    def on_call(self, st, ctx):
        if ctx.name == 'instance' and not ctx.args and ctx.this is None:
            return [(st, ptr(('O', 'op:' + short(ctx.key).rsplit('::', 1)[0])))]
        if ctx.name == 'TRUE_EXP' and not ctx.args:
            return [(st, ptr(('O', 'TRUE')))]
        if ctx.name == 'makeFunction':
            op = addr_of(ctx.args[0])
            ar = [a for a in ctx.args[1:] if isinstance(a, Ptr)]
            return [(st, ptr(('D', mk('wrap', op[1], *[self.term(st, a) for a in ar]))))]
        if ctx.name == 'NodeFunction':
            st.mem[('F', ctx.this.addr, '$op')] = addr_of(ctx.args[0])[1]
            st.mem[('F', ctx.this.addr, '$on')] = ctx.args[1]
            return [(st, None)]
        if ctx.name == 'getAck' and 'Update' in short(ctx.key):
            return [(st, ptr(('O', 'c:actionComplete')))]
        if ctx.name in ('addListener',) and ctx.this is not None:
            st.ev('listen', self.term(st, ctx.this), ctx.args[0])
            return [(st, None)]
        return NodeI.on_call(self, st, ctx)

    def term(self, st, v):
        if v == 0 or v is None:
            return None
        a = addr_of(v)
        if a[0] == 'D':
            return a[1]
        op = st.mem.get(('F', a, '$op'))
        if op:
            return mk('op', op, st.mem.get(('F', a, '$on')) == ptr(NODE))
        return a[1] if a[0] == 'O' else a


def eval3(t, env, default):
    if t is None:
        return default
    if isinstance(t, T):
        if t[0] == 'wrap':
            vs = [eval3(x, env, default) for x in t[2:]]
            f = {'op:PLEXIL::BooleanOr': or3, 'op:PLEXIL::BooleanAnd': and3}.get(t[1])
            if not f or len(vs) != 2:
                raise Broken('condition wrapper %s over %d conditions' % (t[1], len(vs)))
            return f(*vs)
        if t[0] == 'op':
            return env.get(t[1], ('other', t[1])) if t[2] else ('other', 'function of another node')
    if t == 'TRUE':
        return True
    if isinstance(t, str) and t.startswith('c:'):
        return env[t[2:]] if t[2:] in env else ('other', t)
    return ('other', str(t))


def wrappers(P, rep, E):
    rep.rule('the conditions a node installs for itself and hands to its children (finalizeConditions) '
             'evaluated as three-valued terms and compared with: child exit = exit or ancestor exit; child invariant = '
             'invariant and ancestor invariant; child end = user end or ancestor end; end of command = user end or '
             'handle denied/failed/interface error; end of update = acknowledgement and user end')
    fin = P.find('NodeImpl::finalizeConditions', 0)[0]
    table = predicates(P, rep, E)
    import itertools
    names = ['exit', 'invariant', 'end', 'ancestorExit', 'ancestorInvariant', 'ancestorEnd']
    n = 0
    for cls in ('PLEXIL::ListNode', 'PLEXIL::CommandNode', 'PLEXIL::UpdateNode', 'PLEXIL::AssignmentNode', 'PLEXIL::NodeImpl'):
        kind = KIND[cls]
        vary = names if kind == 'list' else ['exit', 'invariant', 'end']
        for bits in itertools.product((0, 1), repeat=len(vary)):
            here = [x for x, b in zip(vary, bits) if b]
            for parent in (True, False):
                if not parent and any(x in ANC for x in here):
                    continue
                for const in ((None, 'end') if 'end' in here else (None,)):
                    n += 1
                    wrap_case(P, rep, E, cls, kind, fin, here, parent, const, table)
    rep.floor('condition wrapper cases', n, 60)


def wrap_case(P, rep, E, cls, kind, fin, here, parent, const, table):
    import itertools
    I = WrapI(P, cls, E)
    I.presence, I.constant = set(here), const
    st = I.fresh(parent)
    if kind == 'list':
        st = list_ops(P, I, st, parent)
    outs = I.start(fin, st, ptr(NODE), [])
    who = '%s with %s%s%s' % (short(cls).replace('PLEXIL::', ''), ', '.join(here) or 'no condition',
                              ' (end always true)' if const else '', '' if parent else ', no parent')
    for s, v, sig in outs:
        if sig:
            rep.check(False, 'conditions', '%s|%s' % (cls, 'error'), '%s: setting up its conditions ends in %s' % (who, sig[1]))
            continue
        mem = lambda nm: I.term(s, s.mem.get(('I', ('F', NODE, 'm_conditions'), {v: k for k, v in I.idx.items()}[nm]),
                                             I.initial(s, ('I', ('F', NODE, 'm_conditions'), {v: k for k, v in I.idx.items()}[nm]), '')))
        got = {x: mem(x) for x in ANC + OWN + ['actionComplete']}
        leaves = list(here) + {'list': ['#finished', '#settled'], 'command': ['#interruptible'], 'update': ['actionComplete'],
                               'assignment': [], 'empty': []}[kind]
        for vals in itertools.product(K3, repeat=len(leaves)):
            env = dict(zip(leaves, vals))
            if any(k.startswith('#') and x == 'U' for k, x in env.items()):
                continue
            e = dict(env)
            for op, meaning in table.items():
                if meaning in env:
                    e[op] = env[meaning]
            if const:
                env[const] = e[const] = True
            g = lambda nm, d: env.get(nm, d)
            want = {}
            if kind == 'list':
                want['ancestorExit'] = (or3(g('exit', False), g('ancestorExit', False)), False)
                want['ancestorInvariant'] = (and3(g('invariant', True), g('ancestorInvariant', True)), True)
                want['ancestorEnd'] = (or3(g('end', False), g('ancestorEnd', False)), False)
                want['end'] = (g('end', env['#finished']), True)
                want['actionComplete'] = (env['#settled'], None)
            elif kind == 'command':
                want['end'] = (True if 'end' not in env else or3(env['end'], env['#interruptible']), True)
            elif kind == 'update':
                want['end'] = (and3(env['actionComplete'], g('end', True)), True)
            else:
                want['end'] = (g('end', True), True)
            want['exit'] = (g('exit', False), False)
            want['invariant'] = (g('invariant', True), True)
            for nm, (w, d) in want.items():
                x = eval3(got[nm], e, d)
                tag = {'ancestorExit': 'exit condition for its children', 'ancestorInvariant': 'invariant for its children',
                       'ancestorEnd': 'end condition for its children'}.get(nm, nm + ' condition')
                rep.check(x == w, 'conditions', '%s|%s' % (cls, nm),
                          '%s: where %s, its %s is %s instead of %s' %
                          (who, ', '.join('%s=%s' % kv for kv in sorted(env.items(), key=str)) or 'nothing is set', tag, x, w),
                          sample='%s: %s' % (who, tag))
    rep.fn(*I.analysed)


def list_ops(P, I, st, parent):
    """operators the list node constructor gives its own completion functions"""
    c = [f for f in P.fns.values() if f.get('cls') == 'PLEXIL::ListNode' and 'inits' in f and len(f['params']) == 2]
    if len(c) != 1:
        raise AnalysisBroken('ListNode constructor not found')
    outs = I.start(c[0], State(), ptr(NODE), ['id', ptr(PARENT) if parent else 0])
    outs = [o for o in outs if o[2] is None]
    if len(outs) != 1:
        raise Broken('ListNode constructor has %d outcomes' % len(outs))
    for k, v in outs[0][0].mem.items():
        if k[0] == 'F' and k[2] in ('$op', '$on'):
            st.mem[k] = v
    return st


class PredI(Interp):
    kids = ()
    handle = None
    statef = None

    def on_call(self, st, ctx):
        if ctx.name == 'getChildren':
            return [(st, ptr(('O', 'kids')))]
        if ctx.name in ('getCommandHandle',):
            return [(st, self.handle)]
        if ctx.name == 'getCommand':
            return [(st, ptr(('O', 'cmd')))]
        return None


def predicates(P, rep, E):
    """meaning of each node operator class, established by interpreting it on every input"""
    import itertools
    table = {}
    f = getter_field(NodeI(P, 'PLEXIL::NodeImpl', E), 'getState', 'PLEXIL::NodeImpl')
    states = {k: v for k, v in E.items() if k.endswith('_STATE') and k not in ('NO_NODE_STATE', 'NODE_STATE_MAX')}
    handles = {it['n']: it['v'] for it in P.enum('CommandHandleValue')['vals'] if not it['n'].endswith('_MAX')}
    want = {'#finished': lambda ks: all(k == E['FINISHED_STATE'] for k in ks),
            '#settled': lambda ks: all(k in (E['FINISHED_STATE'], E['WAITING_STATE']) for k in ks),
            '#interruptible': lambda h: h in [handles[x] for x in ('COMMAND_DENIED', 'COMMAND_FAILED', 'COMMAND_INTERFACE_ERROR')],
            '#known': lambda h: h != handles['NO_COMMAND_HANDLE']}

    def run_op(fn, arg, setup):
        I = PredI(P)
        st = State()
        setup(I, st)
        st.mem[('F', ('O', 'box'), 'r')] = 0
        res = set()
        for s, v, sig in I.start(fn, st, ptr(('O', 'op')), [ptr(('F', ('O', 'box'), 'r')), arg]):
            res.add(('thr',) if sig else (bool(v) if isconst(v) else v, bool(s.mem.get(('F', ('O', 'box'), 'r')))))
        rep.fn(*I.analysed)
        return res

    def kids_setup(ks):
        def setup(I, st):
            st.mem[('F', ('O', 'kids'), '$len')] = len(ks)
            for i, k in enumerate(ks):
                st.mem[('F', ('I', ('O', 'kids'), i), '$p')] = ptr(('O', 'k%d' % i))
                st.mem[('F', ('O', 'k%d' % i), f)] = k
        return setup

    def handle_setup(h):
        def setup(I, st):
            I.handle = h
        return setup
    cases = [('list', [(ks, kids_setup(ks)) for n in (0, 1, 2) for ks in itertools.product(states.values(), repeat=n)],
              ['AllFinished', 'AllWaitingOrFinished'], ['#finished', '#settled']),
             ('handle', [(h, handle_setup(h)) for h in handles.values()],
              ['CommandHandleInterruptible', 'CommandHandleKnown'], ['#interruptible', '#known'])]
    for what, inputs, classes, means in cases:
        for cname, mean in zip(classes, means):
            fns = [x for x in P.fns.values() if x['n'] == 'operator()' and (x.get('cls') or '').endswith('::' + cname) and len(x['params']) == 2]
            if len(fns) != 1:
                raise AnalysisBroken('operator of %s not found' % cname)
            cls = fns[0]['cls']
            table['op:' + cls] = mean
            for x, setup in inputs:
                r = run_op(fns[0], ptr(('O', 'subject')), setup)
                w = {(True, want[mean](x))}
                nm = [k for ks in [x] for k in (ks if isinstance(ks, tuple) else [ks])]
                lab = ', '.join(next((n for n, v in (states if what == 'list' else handles).items() if v == k), str(k)) for k in nm)
                rep.check(r == w, 'predicate', '%s|%s' % (cls, lab),
                          '%s for %s yields %s instead of %s' % (cls, lab or 'no children', sorted(r, key=str), sorted(w)),
                          sample='%s(%s) = %s' % (cls, lab, want[mean](x)))
    return table
