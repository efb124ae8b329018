"""X01: each operator element of a plan becomes the operator it names, or is rejected."""
from itertools import product
import par
from lib_xml import *

MIN_OBLIGATIONS = 400
NUM = ('INTEGER_TYPE', 'REAL_TYPE', 'DATE_TYPE', 'DURATION_TYPE')
REALISH = NUM[1:]
ARY = ('BOOLEAN_ARRAY_TYPE', 'INTEGER_ARRAY_TYPE', 'REAL_ARRAY_TYPE', 'STRING_ARRAY_TYPE')
SCAL = ('BOOLEAN_TYPE', 'STRING_TYPE') + NUM
INT_ = ('NODE_STATE_TYPE', 'OUTCOME_TYPE', 'FAILURE_TYPE', 'COMMAND_HANDLE_TYPE')
UNK = 'UNKNOWN_TYPE'
ALL = SCAL + ARY + INT_ + (UNK,)
STRT = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
O = 'PLEXIL::'
B, I_, R_, S_ = 'BOOLEAN_TYPE', 'INTEGER_TYPE', 'REAL_TYPE', 'STRING_TYPE'
REJECT = 'rejected'
NODEREFS = {'NodeReference': ('self', 'parent', 'sibling', 'child'), 'NodeRef': ('self',), 'NodeId': (None,)}


class OpI(XI):
    """operands are opaque elements '$<n>' whose type, ownership and creation are decided by the analysis"""

    def __init__(self, P):
        XI.__init__(self, P)
        self.vt = {i['n']: i['v'] for i in P.enum('ValueType')['vals']}
        self.types = ()
        self.own = ()
        self.bad = None            # the argument whose creation is refused
        self.reg = registry(P)
        self.run_fact = {}

    def argno(self, st, ctx, i=0):
        if i < len(ctx.args) and isinstance(ctx.args[i], Ptr) and ('F', addr_of(ctx.args[i]), '$x') in st.mem:
            p = self.pos(st, ctx.args[i])
            n = self.at(p) if p is not None else None
            if n is not None and not isinstance(n, str) and n[0].startswith('$'):
                return int(n[0][1:])
        return None

    def on_call(self, st, ctx):
        nm, this = ctx.name, ctx.this
        q = ctx.key.split('(')[0]
        if q == 'PLEXIL::checkExpression':
            i = self.argno(st, ctx, 1)
            if i is not None:
                st.ev('checked', i)
                if self.bad == i:
                    return [(st, None, ('thr', 'PLEXIL::ParserException', 'operand'))]
                return [(st, self.vt[self.types[i]])]
        if q == 'PLEXIL::createExpression':
            i = self.argno(st, ctx, 0)
            if i is not None:
                if self.bad == i:
                    return [(st, None, ('thr', 'PLEXIL::ParserException', 'operand'))]
                if len(ctx.args) > 2:
                    st.mem[addr_of(ctx.args[2])] = self.own[i]
                st.ev('created', i)
                return [(st, ptr(('O', 'arg', i)))]
        if isinstance(this, Ptr) and this.addr[:2] == ('O', 'arg'):
            if nm == 'valueType':
                return [(st, self.vt[self.types[this.addr[2]]])]
            if nm == 'toString':
                return [(st, 'arg')]
        if nm in ('operator[]', 'front', 'back') and (ctx.cls or '').startswith('std::vector<') and isinstance(this, Ptr):
            n = st.mem.get(('F', addr_of(this), '$len'))
            i = ctx.args[0] if ctx.args else 0
            if isinstance(n, int) and isinstance(i, int) and not 0 <= i < n:
                st.ev('outside', i, n)
        if q.endswith('ExpressionMap::getFactory'):
            t = self.text(st, ctx.args[0])
            if t not in self.reg:
                return [(st, 0)]
            a = ('O', 'entry', t)
            return [(st, ptr(a))]
        if q == 'PLEXIL::checkNodeReference' and not ctx.cls:
            st.ev('noderef')
            return [(st, None, ('thr', 'PLEXIL::ParserException', 'operand'))] if self.bad == 0 else [(st, None)]
        if q == 'PLEXIL::parseNodeReference' and not ctx.cls:
            st.ev('noderef')
            return [(st, ptr(('O', 'refnode')))]
        return XI.on_call(self, st, ctx)

    def on_delete(self, st, val, node):
        st.ev('delete', val)
        if isinstance(val, Ptr) and val.addr in st.cls:
            r = self.destroy(st, val)
            return r
        return None

    def destroy(self, st, val):
        c = st.cls[val.addr]
        d = next((k for k in self.P.classes[c].get('methods', ()) if k.get('dtor')), None) if c in self.P.classes else None
        f = self.P.fns.get(d['key']) if d else None
        if not f or f.get('body') is None:
            return None
        return [o[0] for o in self.start(f, st, val, [])]

    def factory(self, st, tag):
        """the state with the tag's registered factory constructed"""
        e = self.reg[tag]
        outs = [o for o in self.ev(e, st, ('reg', tag), None)]
        if len(outs) != 1 or outs[0][2] is not None or not isinstance(outs[0][1], Ptr):
            return None
        s, v, _ = outs[0]
        s.mem[('F', ('O', 'entry', tag), 'factory')] = v
        return s


def operator_of(I, st, f):
    """class of the operator a function object applies"""
    got = {st.cls.get(v.addr) for k, v in st.mem.items() if root(k) == f.addr and isinstance(v, Ptr)} - {None}
    got = {c for c in got if I.P.is_a(c, 'PLEXIL::Operator') or I.P.is_a(c, 'PLEXIL::NodeOperator')}
    return got.pop() if len(got) == 1 else None


# ---------------------------------------------------------------- the language
def numeric(base, lo, hi):
    def f(ts, want):
        if not lo <= len(ts) <= hi or any(t not in NUM and t != UNK for t in ts):
            return REJECT
        if any(t in REALISH for t in ts):
            return {(base + '<double>', R_)}
        if UNK not in ts:
            return {(base + '<int>', I_)}
        if want == I_:
            return {(base + '<int>', I_)}
        if set(ts) == {UNK}:
            return {(base + '<double>', R_)} if len(ts) == 1 or want == R_ else {(base + '<double>', R_), (base + '<int>', I_)}
        return {(base + '<double>', R_), (base + '<int>', I_)}
    return f


def simple(cls, ty, ret, lo, hi=99):
    def f(ts, want):
        if not lo <= len(ts) <= hi or any(t != ty and t != UNK for t in ts):
            return REJECT
        return {(cls, ret)}
    return f


def special(cls, ret):
    def f(ts, want):
        return {(cls, ret)} if len(ts) == 1 and ts[0] in NUM + (UNK,) else REJECT
    return f


def conversion(base):
    def f(ts, want):
        if len(ts) != 1 or ts[0] not in NUM + (UNK,):
            return REJECT
        if want == I_ or want != R_ and ts[0] == I_:
            return {(base + '<int>', I_)}
        return {(base + '<double>', R_)}
    return f


def equality(cls):
    def f(ts, want):
        if len(ts) != 2:
            return REJECT
        a, b = ts
        return {(cls, B)} if a == b or UNK in ts or a in NUM and b in NUM else REJECT
    return f


def ordering(base):
    def f(ts, want):
        if len(ts) != 2:
            return REJECT
        if all(t in NUM for t in ts):
            return {(base + ('<int>' if set(ts) == {I_} else '<double>'), B)}
        if set(ts) == {S_}:
            return {(base + '<%s>' % STRT, B)}
        if UNK in ts:
            o = [t for t in ts if t != UNK]
            if not o:
                return None         # nothing is known about either operand: the language does not say
            if o[0] in NUM:
                return {(base + '<double>', B)}
            if o[0] == S_:
                return {(base + '<%s>' % STRT, B)}
        return REJECT
    return f


def anyarg(cls):
    return lambda ts, want: {(cls, B)} if len(ts) == 1 else REJECT


def array(cls, ret):
    return lambda ts, want: {(cls, ret)} if len(ts) == 1 and ts[0] in ARY else None if ts == (UNK,) else REJECT


LANG = {
    'ADD': numeric('Addition', 1, 99), 'SUB': numeric('Subtraction', 1, 99), 'MUL': numeric('Multiplication', 1, 99),
    'DIV': numeric('Division', 2, 2), 'MOD': numeric('Modulo', 2, 2), 'ABS': numeric('AbsoluteValue', 1, 1),
    'MAX': numeric('Maximum', 1, 99), 'MIN': numeric('Minimum', 1, 99),
    'CEIL': conversion('Ceiling'), 'FLOOR': conversion('Floor'), 'ROUND': conversion('Round'), 'TRUNC': conversion('Truncate'),
    'SQRT': special('SquareRoot<double>', R_), 'REAL_TO_INT': special('RealToInteger', I_),
    'AND': simple('BooleanAnd', B, B, 1), 'OR': simple('BooleanOr', B, B, 1), 'XOR': simple('BooleanXor', B, B, 1), 'NOT': simple('BooleanNot', B, B, 1, 1),
    'Concat': simple('StringConcat', S_, S_, 0), 'STRLEN': simple('StringLength', S_, I_, 1, 1),
    'IsKnown': anyarg('IsKnown'), 'ArraySize': array('ArraySize', I_), 'ArrayMaxSize': array('ArrayMaxSize', I_),
    'ALL_KNOWN': array('AllElementsKnown', B), 'ANY_KNOWN': array('AnyElementsKnown', B),
    'GT': ordering('GreaterThan'), 'GE': ordering('GreaterEqual'), 'LT': ordering('LessThan'), 'LE': ordering('LessEqual'),
}
for s in ('Array', 'Boolean', 'Internal', 'Numeric', 'String'):
    LANG['EQ' + s] = equality('Equal')
    LANG['NE' + s] = equality('NotEqual')
NODEFN = {x: 'Node' + x for x in ('Executing', 'Failed', 'Finished', 'Inactive', 'IterationEnded', 'NoChildFailed', 'PostconditionFailed', 'Skipped', 'Succeeded', 'Waiting')}
# operators whose behaviour with fewer operands than its usual arity is decided by the operator itself
CACHED = {'Concat'}


def cases(tag, thorough):
    for n in range(0, 8 if thorough else 7):   # the tree has classes of its own for up to 4 operands
        if n == 0:
            yield ()
        elif n <= 2:
            yield from product(ALL, repeat=n)
        else:
            base = (B, I_, R_, S_, UNK) if n == 3 or thorough and n == 4 else (B, I_, R_)
            for t in base:
                yield (t,) * n
                for u in base if n < 6 else ():
                    if u != t:
                        for i in range(n):
                            yield (t,) * i + (u,) + (t,) * (n - i - 1)


def one_tag(I, rep, tag):
    P = I.P
    s0 = I.factory(State(), tag)
    if s0 is None:
        raise AnalysisBroken('the factory of <%s> could not be evaluated' % tag)
    chk = P.one('PLEXIL::checkExpression', 3)
    mk_ = P.one('PLEXIL::createExpression', 4)
    lang = LANG[tag]
    seen = set()
    for ts in cases(tag, rep.tier == 'thorough'):
        for want in (UNK, I_, R_) + ((B, S_) if rep.tier == 'thorough' and len(ts) < 3 else ()):
            exp = lang(ts, want)
            lab = '<%s> of (%s)%s' % (tag, ', '.join(t[:-5] for t in ts), '' if want == UNK else ' wanted as ' + want[:-5])
            I.types, I.own, I.bad = ts, tuple(i % 2 == 0 for i in range(len(ts))), None
            I.doc = (E(tag, *[E('$%d' % i) for i in range(len(ts))]),)
            st = clean(s0.fork())
            outs = I.start(chk, st, None, ['N', I.doc_node(st, (0,)), I.vt[want]])
            key = tag + ('|count' if all(lang((t,) * len(ts), want) == REJECT for t in ALL) else '|types')
            if not rep.check(len(outs) == 1 and outs[0][2] in (None, PERR(outs)), 'decided', key, '%s ends in %s' % (lab, [o[2] for o in outs])):
                continue
            inside(rep, outs, tag, lab)
            ty = outs[0][1]
            ok = outs[0][2] is None
            made = []
            if ok:
                st = clean(s0.fork())
                x = I.doc_node(st, (0,))
                st.mem[('O', 'made')] = False
                made = I.start(mk_, st, None, [x, ptr(('O', 'ctx')), ptr(('O', 'made')), I.vt[want]])
                inside(rep, made, tag, lab)
                if not rep.check(len(made) == 1 and (made[0][2] is None and isinstance(made[0][1], Ptr) or made[0][2] == PERR(made)), 'decided', key,
                                 '%s ends in %s' % (lab, [o[2] for o in made])):
                    continue
                if made[0][2] is not None:
                    rep.check(deleted(made[0][0]) == [i for i in range(len(ts)) if I.own[i]], 'refused operand', tag + '|unsupported',
                              '%s is refused but leaves operands it created behind: %s deleted' % (lab, deleted(made[0][0])))
                    ok = False
            if exp == REJECT or exp is None:
                rep.check(not ok or exp is None, 'rejected', key, '%s is accepted' % lab, sample='%s rejected' % lab)
                continue
            if not rep.check(ok, 'accepted', key, '%s is rejected%s' % (lab, ' after passing the check' if made else ''), sample='%s accepted' % lab):
                continue
            rep.check(ty in {I.vt[r] for c, r in exp}, 'result type', tag, '%s is checked as type %s' % (lab, [k for k, v in I.vt.items() if v == ty]))
            s, f, _ = made[0]
            c = operator_of(I, s, f)
            if c is None:
                raise AnalysisBroken('%s: the operator of the function was not found' % lab)
            rep.check(c in {O + k for k, r in exp}, 'operator', tag, '%s becomes %s' % (lab, c.replace(STRT, 'string')), sample='%s -> %s' % (lab, c.replace(STRT, 'string')))
            k = next((r for o, r in exp if O + o == c), None)
            vt = I.w(clean(s.fork()), 'pl_type', f)
            rep.check(k is None or {v for _, v, g in vt} == {I.vt[k]}, 'result type', tag, '%s has value type %s' % (lab, [v for _, v, g in vt]))
            rep.check(k is None or ty == I.vt[k], 'result type', tag + '|agree', '%s is checked as type %s but becomes %s' % (lab, ty, c))
            rep.check(s.mem.get(('O', 'made')) in (True, 1), 'operands', tag + '|created', '%s is not reported as newly created' % lab)
            if (len(ts), s.cls.get(f.addr)) in seen:
                continue
            seen.add((len(ts), s.cls.get(f.addr)))
            operands(I, rep, s, f, ts, lab, tag)
            refused(I, rep, s0, mk_, ts, want, lab, tag)


def PERR(outs):
    s = outs[0][2]
    return s if s is not None and s[:2] == ('thr', 'PLEXIL::ParserException') else 'none'


def inside(rep, outs, tag, lab):
    for o in outs:
        e = [e for e in o[0].trace if e[0] == 'outside']
        rep.check(not e, 'rejected', tag + '|outside', '%s: element %s of a list of %s operands is used' % ((lab,) + (e[0][1:] if e else ('', ''))))


def deleted(st):
    return sorted(e[1].addr[2] for e in st.trace if e[0] == 'delete' and isinstance(e[1], Ptr) and e[1].addr[:2] == ('O', 'arg'))


def operands(I, rep, s, f, ts, lab, tag):
    """operands in order, and exactly the created ones are destroyed with the function, once"""
    for i in range(len(ts)):
        outs = I.w(clean(s.fork()), 'pl_arg', f, i)
        rep.check(len(outs) == 1 and outs[0][2] is None and outs[0][1] == ptr(('O', 'arg', i)), 'operands', tag + '|order', '%s: operand %d is %s' % (lab, i + 1, [(v, g) for _, v, g in outs]))
    outs = I.w(clean(s.fork()), 'pl_nargs', f)
    rep.check(len(outs) == 1 and outs[0][1] == len(ts), 'operands', tag + '|count', '%s has %s operands' % (lab, [v for _, v, g in outs]))
    outs = I.w(clean(s.fork()), 'lk_delete', f)
    for t, v, sig in outs:
        d = deleted(t)
        rep.check(d == [i for i in range(len(ts)) if I.own[i]], 'operands', tag + '|ownership', '%s: deleting it deletes operands %s instead of the created ones' % (lab, d))


def refused(I, rep, s0, mk_, ts, want, lab, tag):
    """an operand that cannot be created: those created before it are destroyed once, borrowed ones never"""
    for own in product((True, False), repeat=min(len(ts), 3)):
        for bad in range(len(ts)):
            I.bad, I.own = bad, tuple(own[i % len(own)] for i in range(len(ts)))
            st = clean(s0.fork())
            x = I.doc_node(st, (0,))
            st.mem[('O', 'made')] = False
            outs = I.start(mk_, st, None, [x, ptr(('O', 'ctx')), ptr(('O', 'made')), I.vt[want]])
            for t, v, sig in outs:
                d = deleted(t)
                rep.check(sig is not None and sig[:2] == ('thr', 'PLEXIL::ParserException'), 'refused operand', tag, '%s: a refused operand %d does not refuse the whole' % (lab, bad + 1))
                rep.check(d == [i for i in range(bad) if I.own[i]], 'refused operand', tag + '|ownership',
                          '%s: when operand %d is refused, operands %s are deleted instead of %s' % (lab, bad + 1, [i + 1 for i in d], [i + 1 for i in range(bad) if I.own[i]]))
    I.bad = None


def node_fn(I, rep, tag):
    P = I.P
    s0 = I.factory(State(), tag)
    chk, mk_ = P.one('PLEXIL::checkExpression', 3), P.one('PLEXIL::createExpression', 4)
    for n in range(4):
        I.doc = (E(tag, *[E('NodeReference', dir='self') for i in range(n)]),)
        for bad in (None, 0):
            I.bad = bad
            st = clean(s0.fork())
            outs = I.start(chk, st, None, ['N', I.doc_node(st, (0,)), 0])
            sigs = {o[2] and o[2][:2] for o in outs}
            if n != 1 or bad == 0:
                rep.check(sigs == {('thr', 'PLEXIL::ParserException')}, 'rejected', tag + '|count', '<%s> of %d node reference(s)%s is not rejected: %s' % (tag, n, ', ill-formed,' if bad == 0 else '', sigs))
            else:
                rep.check(sigs == {None} and {o[1] for o in outs} == {I.vt[B]}, 'accepted', tag, '<%s> of one node reference: %s' % (tag, [(o[1], o[2]) for o in outs]))
    I.bad = None
    I.doc = (E(tag, E('NodeReference', dir='self')),)
    st = clean(s0.fork())
    st.cls[('O', 'ctx')] = 'PLEXIL::NodeImpl'
    st.mem[('O', 'made')] = False
    outs = I.start(mk_, st, None, [I.doc_node(st, (0,)), ptr(('O', 'ctx')), ptr(('O', 'made')), 0])
    if not rep.check(len(outs) == 1 and outs[0][2] is None and isinstance(outs[0][1], Ptr), 'built', tag, '<%s> is not built: %s' % (tag, [o[2] for o in outs])):
        return
    s, f, _ = outs[0]
    c = operator_of(I, s, f)
    rep.check(c == O + NODEFN[tag], 'operator', tag, '<%s> becomes %s' % (tag, c), sample='<%s> -> %s' % (tag, c))
    rep.check(any(root(k) == f.addr and v == ptr(('O', 'refnode')) for k, v in s.mem.items()), 'operands', tag, '<%s> does not refer to the node the reference names' % tag)


def run(P, rep):
    rep.rule('the registered factory of every operator tag interpreted over every operand count and combination of operand types: '
             'accepted exactly where the language has that operator, built as the operator of that name with the operands in '
             'order and owned as created, checked and built with the same result type; everything else ends in a parser error')
    I = OpI(P)
    for t in list(LANG) + list(NODEFN):
        if t not in I.reg:
            rep.check(False, 'registered', t, 'no expression is registered for <%s>' % t)
    for k in ('PLEXIL::' + x for x in NODEFN.values()):
        P.cls(k)
    tags = [t for t in LANG if t in I.reg]

    par.each(rep, I, [lambda r, t=t: one_tag(I, r, t) for t in tags])
    for t in NODEFN:
        if t in I.reg:
            node_fn(I, rep, t)
    unknown(I, rep)
    rep.count('operator tags', len(tags) + len(NODEFN))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def unknown(I, rep):
    chk = I.P.one('PLEXIL::checkExpression', 3)
    for what, doc in (('an unknown tag', E('NoSuchOperator', E('$0'))), ('a text node', 'text'), ('an empty tag', E(''))):
        I.doc = (doc,)
        I.types = (B,)
        st = State()
        outs = I.start(chk, st, None, ['N', I.doc_node(st, (0,)), 0])
        rep.check({o[2] and o[2][:2] for o in outs} == {('thr', 'PLEXIL::ParserException')}, 'rejected', what, '%s is not rejected as an expression' % what)
