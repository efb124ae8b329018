"""E05: a composite expression listens to, activates and releases everything it depends on."""
from lib_var import *
from interp import Interp, short
from l01 import WrapI, NodeI, list_ops, NODE, PARENT, ANC, ALWAYS, CLASSES, KIND, enums

MIN_OBLIGATIONS = 300
L2 = ('O', 'listener2')


class SubI(VarI):
    """operands record who listens to them and how often they have been activated (in st.aux)"""

    def on_call(self, st, ctx):
        if isinstance(ctx.this, Ptr):
            if ctx.this.addr == L2 and ctx.name == 'notifyChanged':
                st.ev('notify2')
                return [(st, None)]
            nm = self.operand(ctx.this)
            if nm:
                if ctx.name in ('activate', 'deactivate'):
                    d = dict(st.aux.get('act') or ())
                    d[nm] = d.get(nm, 0) + (1 if ctx.name == 'activate' else -1)
                    st.aux['act'] = tuple(sorted(d.items()))
                    return [(st, None)]
                if ctx.name in ('addListener', 'removeListener'):
                    s = set(st.aux.get('subs') or ())
                    e = (nm, addr_of(ctx.args[0]))
                    (s.add if ctx.name == 'addListener' else s.discard)(e)
                    st.aux['subs'] = frozenset(s)
                    return [(st, None)]
                if ctx.name == 'isConstant':
                    return [(st, False)]
        return VarI.on_call(self, st, ctx)


def subs(s):
    return s.aux.get('subs') or frozenset()


def acts(s):
    return {k: v for k, v in (s.aux.get('act') or ()) if v}


def names(n):
    return ['a%d' % i for i in range(n)]


def build(I, st, sh):
    """sh: ('op', operand) | ('fn'|'cached', n-ary list) | ('fn12'|'cached12', list) | ('alias', x) | ('ref', a, i) | ('element', a, i)
    | ('lookup', name, tolerance or None, params); -> (state, pointer)"""
    k = sh[0]
    if k == 'op':
        return st, obj(sh[1])
    if k in ('fn', 'cached'):
        kids = []
        for c in sh[1]:
            st, p = build(I, st, c)
            kids.append(p)
        w = 'new_Function' if k == 'fn' else 'new_CachedFunction'
        st, f = I.one(st, w, len(kids))
        for i, p in enumerate(kids):
            st, _ = I.one(st, 'f_arg', f, i, p)
        return st, f
    if k in ('fn12', 'cached12'):
        kids = []
        for c in sh[1]:
            st, p = build(I, st, c)
            kids.append(p)
        return I.one(st, ('new_Function%d' if k == 'fn12' else 'new_CachedFunction%d') % len(kids), *kids)
    if k == 'alias':
        st, p = build(I, st, sh[1])
        return I.one(st, 'new_Alias', p)
    if k in ('ref', 'element'):
        st, a = build(I, st, sh[1])
        st, i = build(I, st, sh[2])
        r = [o for o in I.w(st, 'new_ArrayRef' if k == 'ref' else 'new_Element', a, i) if o[2] is None]
        return r[0][0], r[0][1]     # whether the operand is an array variable does not matter here
    if k == 'lookup':
        st, n = build(I, st, sh[1])
        t = None
        if sh[2]:
            st, t = build(I, st, sh[2])
        v = 0
        if sh[3]:
            kids = []
            for c in sh[3]:
                st, p = build(I, st, c)
                kids.append(p)
            st, v = I.one(st, 'new_Vec', len(kids))
            for i, p in enumerate(kids):
                st, _ = I.one(st, 'vec_arg', v, i, p)
        return I.one(st, 'new_ChangeLookup', n, t, v) if sh[2] else I.one(st, 'new_Lookup', n, v)
    raise AssertionError(k)


def parts(sh):
    """sub-shapes"""
    k = sh[0]
    if k == 'op':
        return []
    if k == 'lookup':
        return [sh[1]] + ([sh[2]] if sh[2] else []) + list(sh[3])
    if k == 'alias':
        return [sh[1]]
    return list(sh[1]) if k in ('fn', 'cached', 'fn12', 'cached12') else [sh[1], sh[2]]


def sources(sh):
    return [sh[1]] if sh[0] == 'op' else [s for p in parts(sh) for s in sources(p)]


def activated(sh):
    """operand -> activations while sh is active: each owner activates its direct parts, an alias nothing"""
    if sh[0] == 'op':
        return [sh[1]]
    if sh[0] == 'alias':
        return []
    return [s for p in parts(sh) for s in activated(p)]


def label(sh):
    if sh[0] == 'op':
        return sh[1]
    n = {'fn': 'function', 'fn12': 'function', 'cached': 'cached function', 'cached12': 'cached function', 'ref': 'array reference',
         'element': 'array element', 'lookup': 'lookup', 'alias': 'alias'}[sh[0]]
    if sh[0] == 'lookup' and sh[2]:
        n = 'change lookup'
    return '%s(%s)' % (n, ', '.join(label(p) for p in parts(sh)))


def shapes(deep):
    op = lambda n: ('op', n)
    ops = lambda k: [op(n) for n in names(k)]
    out = []
    for k in ('fn', 'cached'):
        out += [(k, ops(n)) for n in range(0, 7 if not deep else 10)]
        out += [(k + '12', ops(n)) for n in (1, 2)]
    out += [('alias', op('a0')), ('ref', op('a0'), op('a1')), ('element', op('a0'), op('a1'))]
    for n in range(0, 7 if not deep else 10):
        out += [('lookup', op('name'), None, ops(n)), ('lookup', op('name'), op('tol'), ops(n))]
    inner = [('alias', op('b0')), ('fn', [op('b0')]), ('fn', [op('b0'), op('b1')]), ('fn', [op('b%d' % i) for i in range(5)]),
             ('cached', [op('b0'), op('b1'), op('b2')]), ('ref', op('b0'), op('b1')), ('alias', ('alias', op('b0')))]
    if deep:
        inner += [('fn', [('alias', op('b0')), ('fn', [op('b1'), ('ref', op('b2'), op('b3'))])])]
    for i in inner:
        out += [('fn', [i]), ('fn', [i, op('z')]), ('fn', [op('z'), i]), ('fn', [op('y'), op('z'), i]), ('cached', [op('z'), i]),
                ('alias', i), ('ref', op('z'), i),
                ('lookup', op('name'), i, [op('z')]), ('lookup', op('name'), None, [op('z'), i])]
        if i[0] in ('alias', 'ref'):
            out += [('lookup', i, None, [op('z')])]         # names are strings
    out += [('fn', [op('z'), op('z')]), ('fn', [op('z'), ('fn', [op('z')])])]
    return out


def pairs(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def run(P, rep):
    rep.rule('every composite expression kind with every operand count (including the specialised ones) and every kind nested in '
             'every other, built and driven through its members by interpretation: with a listener it is subscribed (itself or '
             'through its parts) to every source, with no listener to none; it activates its parts once and releases them; a '
             'notification from any source of an active one reaches every listener')
    for sh in shapes(rep.tier == 'thorough'):
        shape(P, rep, sh)
    vectors(P, rep)
    operators(P, rep)
    conditions(P, rep)


def shape(P, rep, sh):
    I = SubI(P)
    I.env = {n: 'U' for n in sources(sh)}
    what = label(sh)
    kind = what.split('(')[0] + '/%d' % len(parts(sh))
    src = set(sources(sh))
    st, x = build(I, State(), sh)
    has_lookup = 'lookup' in what
    want_act = pairs(activated(sh))

    def do(s, name, *a):
        r = I.w(clean(s.fork()), name, x, *a)
        if len(r) != 1 or r[0][2] is not None:
            rep.check(False, 'history', '%s|%s' % (kind, name), '%s: %s has outcomes %s' % (what, name, [o[2] for o in r]))
            return s
        return r[0][0]

    def listening(s, when):
        got = {n for n, l in subs(s)}
        rep.check(src <= got, 'subscribe', '%s|%s' % (kind, when), '%s %s is not subscribed to %s' % (what, when, sorted(src - got)),
                  sample='%s %s listens to all of %s' % (what, when, sorted(src)))

    def silent(s, when):
        rep.check(not subs(s), 'unsubscribe', '%s|%s' % (kind, when), '%s %s still listens to %s' % (what, when, sorted(n for n, l in subs(s))),
                  sample='%s %s listens to nothing' % (what, when))

    def active(s, want, when):
        a = acts(s)
        rep.check(a == want, 'activate', '%s|%s' % (kind, when), '%s %s: operands are activated %s times instead of %s' % (what, when, a, want),
                  sample='%s %s: %s' % (what, when, want))

    def told(s, who, quiet, when):
        if has_lookup:
            return          # whether a lookup passes a parameter change on depends on the state looked up
        for n in sorted(src):
            states = [clean(s.fork())]
            for l in sorted((l for m, l in subs(s) if m == n), key=repr):
                states = [o[0] for t in states for o in I.w(t, 'l_notify', ptr(l)) if o[2] is None]
            for t in states:
                ev = {e[0] for e in t.trace if e[0] in ('notify', 'notify2')}
                rep.check(who <= ev, 'propagate', '%s|%s' % (kind, when), '%s %s: a change of %s does not reach every listener' % (what, when, n),
                          sample='%s %s: change of %s announced' % (what, when, n))
                rep.check(not (quiet & ev), 'quiet', '%s|%s' % (kind, when), '%s %s: a change of %s is announced' % (what, when, n))
            rep.check(bool(states), 'propagate', '%s|%s|error' % (kind, when), '%s %s: a change of %s ends in an error' % (what, when, n))

    A, B = {'notify'}, {'notify2'}
    active(st, {}, 'when new')
    silent(st, 'when new')
    s = do(st, 'x_listen', ptr(L))
    listening(s, 'with a listener')
    told(s, set(), A, 'inactive')
    s = do(s, 'x_activate')
    active(s, want_act, 'activated')
    listening(s, 'activated')
    told(s, A, set(), 'activated')
    s2 = do(s, 'x_activate')
    active(s2, want_act, 'activated twice')
    s2 = do(s2, 'x_deactivate')
    active(s2, want_act, 'activated twice, deactivated once')
    told(s2, A, set(), 'activated twice, deactivated once')
    s2 = do(s2, 'x_deactivate')
    active(s2, {}, 'deactivated')
    told(s2, set(), A, 'deactivated')
    s = do(s, 'x_listen', ptr(L2))
    told(s, A | B, set(), 'with two listeners')
    s1 = do(s, 'x_unlisten', ptr(L))
    listening(s1, 'after one of two listeners left')
    told(s1, B, A, 'after one of two listeners left')
    s1 = do(s1, 'x_unlisten', ptr(L2))
    silent(s1, 'after the last listener left')
    s3 = do(s1, 'x_listen', ptr(L))
    listening(s3, 'with a listener again')
    told(s3, A, set(), 'with a listener again')
    s3 = do(do(s3, 'x_deactivate'), 'x_unlisten', ptr(L))
    silent(s3, 'abandoned')
    active(s3, {}, 'abandoned')
    s4 = do(do(do(st, 'x_activate'), 'x_listen', ptr(L)), 'x_activate')
    listening(s4, 'activated before being listened to')
    told(s4, A, set(), 'activated before being listened to')
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def vectors(P, rep):
    """the parameter vectors of lookups, commands and updates treat every element alike"""
    for n in range(1, 8):
        I = SubI(P)
        I.env = {a: 'U' for a in names(n)}
        st, v = I.one(State(), 'new_Vec', n)
        for i, a in enumerate(names(n)):
            st, _ = I.one(st, 'vec_arg', v, i, obj(a))
        all_ = set(names(n))
        s, _ = I.one(st, 'vec_activate', v)
        rep.check(acts(s) == {a: 1 for a in all_}, 'vector', '%d|activate' % n, 'activating a vector of %d gives %s' % (n, acts(s)),
                  sample='vector of %d: all activated' % n)
        s, _ = I.one(s, 'vec_listen', v, ptr(L))
        rep.check(subs(s) == {(a, L) for a in all_}, 'vector', '%d|listen' % n, 'listening to a vector of %d reaches %s' % (n, sorted(a for a, _ in subs(s))))
        s, _ = I.one(s, 'vec_unlisten', v, ptr(L))
        rep.check(not subs(s), 'vector', '%d|unlisten' % n, 'a listener removed from a vector of %d still listens to %s' % (n, sorted(a for a, _ in subs(s))))
        s, _ = I.one(s, 'vec_deactivate', v)
        rep.check(not acts(s), 'vector', '%d|deactivate' % n, 'deactivating a vector of %d leaves %s' % (n, acts(s)))
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def fresh(I, st, fn, this, *args):
    """outcomes of interpreting a member"""
    return I.start(fn, clean(st.fork()), this, list(args))


class ReadI(VarI):
    """node operators: which nodes and command handles are read, which are named as sources"""
    kids = ()

    def on_call(self, st, ctx):
        a = ctx.this.addr if isinstance(ctx.this, Ptr) else None
        if ctx.name == 'getChildren':
            return [(st, ptr(('O', 'kids')))]
        if ctx.name == 'getCommand':
            return [(st, ptr(('O', 'cmd')))]
        if ctx.name in ('getState', 'getOutcome', 'getFailureType'):
            st.ev('read', a)
            return [(st, mk('of', a, ctx.name))]
        if ctx.name == 'getCommandHandle':
            st.ev('read', a)
            return [(st, mk('of', a, 'handle'))]
        if ctx.name == 'getAck':
            return [(st, ptr(('F', a, 'handle')))]
        if ctx.name == 'isPropagationSource' and a and root(a) != a or a in self.things:
            if ctx.name == 'isPropagationSource':
                return [(st, True)]
            if ctx.name in ('addListener', 'removeListener'):
                st.ev(ctx.name, root(a))
                return [(st, None)]
        if a and root(a) in self.things and ctx.name in ('addListener', 'removeListener'):
            st.ev(ctx.name, root(a))
            return [(st, None)]
        return VarI.on_call(self, st, ctx)


def operators(P, rep):
    """node and command functions listen to everything their operator reads"""
    base = [c for c in ('PLEXIL::NodeOperator', 'PLEXIL::CommandOperator') if c in P.classes]
    if len(base) != 2:
        raise AnalysisBroken('node and command operators not found')
    n = 0
    for b in base:
        for cls in sorted(P.subclasses(b)):
            ops = [f for f in P.fns.values() if f['n'] == 'operator()' and f.get('cls') == cls and len(f['params']) == 2]
            if not ops:
                continue
            for kids in range(4):
                n += 1
                operator(P, rep, b, cls, ops[0], kids)
    rep.floor('node operators', n, 24)


def operator(P, rep, base, cls, op, kids):
    I = ReadI(P)
    subj = ('O', 'cmd' if 'Command' in base else 'subject')
    I.things = {('O', 'cmd'), ('O', 'subject')} | {('O', 'k%d' % i) for i in range(kids)}
    st = State()
    st.mem[('F', ('O', 'kids'), '$len')] = kids
    for i in range(kids):
        st.mem[('F', ('I', ('O', 'kids'), i), '$p')] = ptr(('O', 'k%d' % i))
    read = set()
    for s, v, sig in fresh(I, st, op, ptr(('O', 'op')), ptr(('O', 'result')), ptr(subj)):
        read |= {e[1] for e in s.trace if e[0] == 'read'}
    short_ = cls.split('::')[-1]
    # the function over that operator, listened to
    st.mem[('O', 'listener')] = 0
    fcls = 'PLEXIL::NodeFunction' if base.endswith('NodeOperator') else 'PLEXIL::CommandFunction'
    st.cls[('O', 'op')] = cls
    ctor = [f for f in P.fns.values() if f.get('cls') == fcls and 'inits' in f and len(f['params']) == 2]
    if not ctor:
        raise AnalysisBroken('constructor of %s not found' % fcls)
    fn = ('O', 'fn')
    st.cls[fn] = fcls
    r = fresh(I, st, ctor[0], ptr(fn), ptr(('O', 'op')), ptr(subj))
    if len(r) != 1:
        raise AnalysisBroken('constructor of %s has %d outcomes' % (fcls, len(r)))
    s0 = r[0][0]
    for w, e in (('x_listen', 'addListener'), ('x_unlisten', 'removeListener')):
        s1 = s0
        if w == 'x_unlisten':
            s1 = I.w(clean(s0.fork()), 'x_listen', ptr(fn), ptr(L))[0][0]
        outs = I.w(clean(s1.fork()), w, ptr(fn), ptr(L))
        for s, v, sig in outs:
            got = {x[1] for x in s.trace if x[0] == e}
            rep.check(sig is None and read <= got, 'source', '%s|%s' % (short_, e),
                      '%s of a node with %d children reads %s but its function calls %s on %s only' %
                      (short_, kids, sorted(x[1] for x in read), e, sorted(x[1] for x in got)),
                      sample='%s, %d children: %s on %s' % (short_, kids, e, sorted(x[1] for x in got)))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


class CondI(WrapI):
    """the conditions a node installs, and on which of them it starts and stops listening"""

    def nonnull(self, r):
        for st, p in r:
            st.facts[p.addr[1] if isinstance(p, Ptr) else p] = True
        return r

    def parented(self, s):
        return s.mem.get(('F', NODE, 'm_parent')) == ptr(PARENT)

    def on_call(self, st, ctx):
        if ctx.name == 'removeListener' and ctx.this is not None:
            st.ev('unlisten', self.term(st, ctx.this), ctx.args[0])
            return [(st, None)]
        if ctx.name == 'makeFunction':
            r = WrapI.on_call(self, st, ctx)
            return self.nonnull(r)
        return WrapI.on_call(self, st, ctx)


def conditions(P, rep):
    """a node listens to every condition that can make it change state, until it is dismantled"""
    import itertools
    E = enums(P)
    fin = P.find('NodeImpl::finalizeConditions', 0)[0]
    own = ['skip', 'start', 'exit', 'invariant', 'end', 'repeat']
    n = 0
    for cls in CLASSES:
        kind = KIND[cls]
        need = set(own + ANC + ALWAYS[kind])
        for here in [()] + [(x,) for x in own + ANC] + [tuple(own), tuple(own + ANC), ('end', 'exit', 'invariant', 'ancestorExit'), tuple(ANC)]:
            for parent in (True, False):
                if not parent and any(x in ANC for x in here):
                    continue
                n += 1
                I = CondI(P, cls, E)
                I.presence = set(here)
                st = I.fresh(parent)
                if kind == 'list':
                    st = list_ops(P, I, st, parent)
                who = '%s with %s%s' % (short(cls).replace('PLEXIL::', ''), ', '.join(here) or 'no condition', '' if parent else ', no parent')
                cond_case(P, rep, I, cls, fin, st, need, who)
    rep.floor('nodes with conditions', n, 60)


def cond_case(P, rep, I, cls, fin, st, need, who):
    num = {v: k for k, v in I.idx.items()}

    def installed(s, nm):
        a = ('I', ('F', PARENT if nm in ANC else NODE, 'm_conditions'), num[nm])
        return I.term(s, s.mem[a] if a in s.mem else I.initial(s, a, ''))
    clean_up = P.fns[P.dispatch(cls, P.find('NodeImpl::cleanUpConditions', 0)[0]['key'])]
    for s, v, sig in I.start(fin, st, ptr(NODE), []):
        if not rep.check(sig is None, 'condition', cls + '|error', '%s: setting up its conditions ends in an error' % who):
            continue
        heard = {e[1] for e in s.trace if e[0] == 'listen' and e[2] == ptr(NODE)}
        hooked = [nm for nm in sorted(need) if (nm not in ANC or I.parented(s)) and installed(s, nm) not in (None, 'TRUE')]
        for nm in hooked:
            rep.check(installed(s, nm) in heard, 'condition', '%s|%s' % (cls, nm), '%s does not listen to its %s condition' % (who, nm),
                      sample='%s listens to its %s condition' % (who, nm))
        s.trace = ()
        for i in I.idx:
            s.mem.setdefault(('I', ('F', NODE, 'm_garbageConditions'), i), False)
        for s2, v2, sig2 in I.start(clean_up, s, ptr(NODE), []):
            left = heard - {e[1] for e in s2.trace if e[0] == 'unlisten' and e[2] == ptr(NODE)}
            rep.check(sig2 is None and not left, 'dismantle', cls, '%s: when dismantled it still listens to %s' % (who, sorted(map(str, left))),
                      sample='%s: all subscriptions undone' % who)
    rep.fn(*I.analysed)
