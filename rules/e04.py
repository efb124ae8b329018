"""E04: each operator computes its own operation on its operands in written order.
Arithmetic operators are interpreted with symbolic operands and the result term of every
known path is compared, as a polynomial, with the operation's; operators that only
compare their operands (relations, minimum, maximum, absolute value) are interpreted for
every weak ordering of representative operands; the rest by their result term.  The
function objects that call the operators must pass their arguments in order."""
import itertools
from interp import State, T, Ptr, mk, ptr, addr_of, isconst, Broken, short
from lib_ops import *
from lib_expr import obj, result_slot, ref_result
from facts import AnalysisBroken

INT = [-7, 0, 5]
REAL = [-7.0, 0.0, 5.5]
STR = ['', 'a', 'ab', 'b']


# ---------------------------------------------------------------- polynomials
def poly(t):
    """normal form of an arithmetic term: {monomial(tuple of atoms): coefficient}"""
    if isinstance(t, bool):
        return {(): int(t)} if t else {}
    if isinstance(t, (int, float)):
        return {(): t} if t != 0 else {}
    if isinstance(t, T):
        if t[0] == '+':
            return padd(poly(t[1]), poly(t[2]))
        if t[0] == '-':
            return padd(poly(t[1]), pscale(poly(t[2]), -1))
        if t[0] == 'neg':
            return pscale(poly(t[1]), -1)
        if t[0] == '*':
            return pmul(poly(t[1]), poly(t[2]))
        if t[0] in ('fcast', 'cast') and t[1] in ('double', 'float'):
            return poly(t[2])
        a = T((t[0],) + tuple(freeze(poly(x)) if isinstance(x, T) else x for x in t[1:])) \
            if t[0] in ('/', '%', 'fmod', 'sqrt', 'ceil', 'floor', 'round', 'trunc', 'fcast') else t
        return {(a,): 1}
    return {(t,): 1}


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0:
            del r[k]
    return r


def pscale(a, c):
    return {k: v * c for k, v in a.items()}


def pmul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k = tuple(sorted(k1 + k2, key=repr))
            r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v}


def V(i):
    return mk('val', 'a%d' % i)


def fold2(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = mk(op, r, x)
    return r


ARITH = {
    'Addition': lambda n, t: fold2('+', [V(i) for i in range(n)]) if n else 0,
    'Subtraction': lambda n, t: mk('neg', V(0)) if n == 1 else fold2('-', [V(i) for i in range(n)]),
    'Multiplication': lambda n, t: fold2('*', [V(i) for i in range(n)]),
    'Division': lambda n, t: mk('/', V(0), V(1)),
    'Modulo': lambda n, t: mk('%', V(0), V(1)) if t == 'int' else mk('fmod', V(0), V(1)),
    'SquareRoot': lambda n, t: mk('sqrt', V(0)),
    'Ceiling': lambda n, t: conv(t, mk('ceil', V(0))),
    'Floor': lambda n, t: conv(t, mk('floor', V(0))),
    'Round': lambda n, t: conv(t, mk('round', V(0))),
    'Truncate': lambda n, t: conv(t, mk('trunc', V(0))),
    'RealToInteger': lambda n, t: conv('int', V(0)),
}


def conv(t, x):
    return mk('fcast', 'int', x) if t == 'int' else x


ORDER = {
    'Minimum': lambda *v: min(v), 'Maximum': lambda *v: max(v), 'AbsoluteValue': lambda a: abs(a),
    'LessThan': lambda a, b: a < b, 'LessEqual': lambda a, b: a <= b,
    'GreaterThan': lambda a, b: a > b, 'GreaterEqual': lambda a, b: a >= b,
    'Equal': lambda a, b: a == b, 'NotEqual': lambda a, b: a != b,
    'StringConcat': lambda *v: ''.join(v), 'StringLength': lambda a: len(a),
}


class ValI(OpI):
    """operands with constant values; pointers to operand values too"""

    def inline(self, key, fn, ctx):
        c = fn.get('cls') or ''
        return not (c == 'PLEXIL::Array' or c.startswith('PLEXIL::ArrayImpl<'))

    def initial(self, st, addr, typ):
        if addr[0] == 'O' and addr[1].startswith('*'):
            e = self.env.get(addr[1][1:])
            if e is not None and e != 'U':
                return e
        return OpI.initial(self, st, addr, typ)


def run(P, rep):
    rep.rule('the result of every known path of every operator equals the operation its class names, applied to the '
             'operands in order')
    nmax = 6 if rep.tier == 'thorough' else 4
    done = set()
    for c in concrete_ops(P):
        b = base_name(c)
        if b in ARITH:
            done.add(b)
            arith(P, rep, c, b, nmax)
        elif b in ('Equal', 'NotEqual'):
            done.add(b)
            equality(P, rep, c, b)
        elif b in ORDER:
            done.add(b)
            ordering(P, rep, c, b, nmax)
        elif b in ('ArraySize', 'ArrayMaxSize', 'AllElementsKnown', 'AnyElementsKnown'):
            done.add(b)
            arrays(P, rep, c, b)
    missing = (set(ARITH) | set(ORDER)) - done
    if missing:
        raise AnalysisBroken('operator classes not found: %s' % sorted(missing))
    functions(P, rep)


def label(c):
    return c.replace('PLEXIL::', '').replace(STRT, 'string')


def arith(P, rep, c, b, nmax):
    rt = result_type(P, c)
    for r in [rt] + (['double'] if rt == 'int' else []):
        for form, n in forms(P, c, rt, nmax):
            want = ARITH[b](n, rt)
            f, I, rs = evaluate(P, c, r, form, n, {'a%d' % i: None for i in range(n)}, {}, ValI)
            rep.fn(f['key'], *I.analysed)
            for s, k, v, sig in rs:
                if sig or k is False:
                    continue
                w = want
                if b == 'Modulo' and rt == 'int' and ('=', V(1)) in s.facts and s.facts[('=', V(1))][0] == -1 and not isinstance(v, T):
                    w = 0                    # x % -1
                got = poly(v) if v is not None else None
                rep.check(got == poly(w), 'operation', '%s->%s/%s' % (label(c), r, form),
                          '%s:%s: %s of %d operands yields %s instead of %s' % (f['file'], f['ln'], label(c), n, v, w),
                          '%s/%d = %s' % (label(c), n, v))


def pick(P, c):
    t = targ(c) or result_type(P, c)
    return {'int': INT, 'double': REAL, 'string': STR, 'bool': [True, False]}[t]


def ordering(P, rep, c, b, nmax):
    rt = result_type(P, c)
    vals = STR if b in ('StringConcat', 'StringLength') else pick(P, c)
    for form, n in forms(P, c, rt, min(nmax, 4)):
        for vs in itertools.product(vals, repeat=n):
            one(P, rep, c, rt, form, n, vs, ORDER[b](*vs), {})
    if rt == 'int':
        for form, n in forms(P, c, rt, 2):
            for vs in itertools.product(vals, repeat=n):
                one(P, rep, c, 'double', form, n, vs, ORDER[b](*vs), {})


def one(P, rep, c, rt, form, n, vs, want, vt, tag=''):
    f, I, rs = evaluate(P, c, rt, form, n, {'a%d' % i: v for i, v in enumerate(vs)}, vt, ValI)
    rep.fn(f['key'], *I.analysed)
    got = []
    for s, k, v, sig in rs:
        if sig:
            got.append(str(sig[1]))
        elif k is True:
            if isinstance(v, Ptr):
                v = s.mem.get(v.addr)
            got.append(v)
        else:
            got.append('unknown' if k is False else 'undetermined')
    ok = len(got) == 1 and got[0] == want and type(got[0]) is not T
    rep.check(ok, 'operation', '%s->%s/%s%s' % (label(c), rt, form, tag),
              '%s:%s: %s%r%s yields %s instead of %r' % (f['file'], f['ln'], label(c), tuple(vs), tag, got, want))


def equality(P, rep, c, b):
    e = {x['n']: x['v'] for x in P.enum('ValueType')['vals']}
    kinds = {'BOOLEAN_TYPE': [True, False], 'INTEGER_TYPE': INT, 'REAL_TYPE': REAL, 'STRING_TYPE': STR,
             'NODE_STATE_TYPE': [1, 2], 'OUTCOME_TYPE': [1, 2], 'FAILURE_TYPE': [1, 2], 'COMMAND_HANDLE_TYPE': [1, 2],
             'DATE_TYPE': REAL, 'DURATION_TYPE': REAL}
    combos = [(k, k) for k in kinds] + [('INTEGER_TYPE', 'REAL_TYPE'), ('REAL_TYPE', 'INTEGER_TYPE'),
                                        ('DATE_TYPE', 'REAL_TYPE'), ('INTEGER_TYPE', 'DATE_TYPE'), ('DURATION_TYPE', 'REAL_TYPE')]
    for x, y in combos:
        for vs in itertools.product(kinds[x], kinds[y]):
            one(P, rep, c, 'bool', 2, 2, vs, ORDER[b](*vs), {'a0': e[x], 'a1': e[y]}, '/%s,%s' % (x, y))
    for x in ('BOOLEAN_ARRAY_TYPE', 'INTEGER_ARRAY_TYPE', 'REAL_ARRAY_TYPE', 'STRING_ARRAY_TYPE'):
        f, I, rs = evaluate(P, c, 'bool', 2, 2, {'a0': None, 'a1': None}, {'a0': e[x], 'a1': e[x]}, ValI)
        for s, k, v, sig in rs:
            if sig or k is not True:
                continue
            t, pos = v, True
            while isinstance(t, T) and (t[0] in ('!', 'bool') or t[0] in ('==', '!=') and t[2] in (0, 1) and isinstance(t[1], T)):
                pos ^= t[0] == '!' or len(t) > 2 and (t[0] == '==') == (t[2] == 0)
                t = t[1]
            ops = repr(t)
            good = isinstance(t, T) and 'operator==' in ops and '*a0' in ops and '*a1' in ops and pos == (b == 'Equal')
            if isinstance(t, T) and 'operator!=' in ops and '*a0' in ops and '*a1' in ops:
                good = pos == (b == 'NotEqual')
            rep.check(good, 'operation', '%s/%s' % (label(c), x),
                      '%s:%s: %s on %s operands yields %s, not the comparison of the two arrays' %
                      (f['file'], f['ln'], label(c), x, v))


class ArrI(OpI):
    def initial(self, st, addr, typ):
        return OpI.initial(self, st, addr, typ)


def arrays(P, rep, c, b):
    """array queries on arrays of 0..3 elements with every known-ness pattern"""
    rt = result_type(P, c)
    A = ('O', '*a0')
    for n in range(0, 4):
        for pat in itertools.product((True, False), repeat=n):
            class AI(ArrI):
                def range_elements(self, st, rng):
                    return ArrI.range_elements(self, st, rng)
            f = entry(P, c, rt, 1)
            I = AI(P)
            I.opcls, I.env, I.nargs = c, {'a0': None}, 1
            st = State()
            K = ('F', A, 'm_known')
            st.mem[('F', K, '$len')] = n
            st.cls[A] = 'PLEXIL::ArrayImpl<int>'
            st.mem[('F', ('F', A, 'm_contents'), '$len')] = n
            for i, x in enumerate(pat):
                st.mem[('I', K, i)] = x
            rs = I.start(f, st, this=obj('op'), args=[result_slot(), obj('a0')])
            rep.fn(f['key'], *I.analysed)
            want = {'ArraySize': n, 'ArrayMaxSize': n, 'AllElementsKnown': all(pat), 'AnyElementsKnown': any(pat)}[b]
            got = []
            for s, k, sig in rs:
                if sig:
                    got.append(sig[1])
                elif k is True:
                    got.append(ref_result(s))
            rep.check(got == [want], 'operation', label(c), '%s:%s: %s of an array with known-ness %r yields %s instead of %r' %
                      (f['file'], f['ln'], label(c), pat, got, want))


# ---------------------------------------------------------------- function objects
class FnI(OpI):
    fncls = None

    def dyn_class(self, st, addr, static):
        if addr == ('O', 'fn'):
            return self.fncls
        return None

    def on_call(self, st, ctx):
        if ctx.name == 'operator()' and (ctx.cls or '').startswith('PLEXIL::Operator'):
            st.ev('apply', ctx.this, tuple(ctx.args), ctx.key)
            return [(st, mk('applied'))]
        return None


def functions(P, rep):
    """Function::getValue/apply pass exactly the function's own arguments, in order"""
    rep.rule('function objects call their operator on the caller\'s result with their own argument expressions in order')
    n = 0
    fields_of = {}
    for c in sorted(P.subclasses('PLEXIL::Function')):
        sz = P.dispatch(c, 'PLEXIL::Function::size() const')
        fsz = P.fns.get(sz)
        if fsz is None:
            continue
        for name in ('getValue', 'apply'):
            for m in P.cls('PLEXIL::Function')['methods']:
                if not m['key'].startswith('PLEXIL::Function::%s(' % name) or not m.get('virt'):
                    continue
                k = P.dispatch(c, m['key'])
                f = P.fns.get(k)
                if f is None or not f['params']:
                    continue
                if 'Array' in f['params'][0]['t'] and name == 'getValue':
                    pass
                n += fncheck(P, rep, c, f, fsz)
    rep.floor('function evaluation members', n, 20)


def fncheck(P, rep, c, f, fsz):
    I = FnI(P)
    I.fncls = c
    st = State()
    this = Ptr((('O', 'fn'),))
    rsz = I.start(fsz, State(), this=this)
    size = rsz[0][1] if len(rsz) == 1 else None
    args = [mk('arg', p['n']) for p in f['params']]
    res = result_slot()
    ri = 0
    if f['n'] == 'apply':
        oper = Ptr((('O', 'oper'),))
        args[0] = oper
        args[1] = res
        ri = 1
    else:
        args[0] = res
    rs = I.start(f, st, this=this, args=args)
    rep.fn(f['key'])
    for s, v, sig in rs:
        ap = [e for e in s.trace if e[0] == 'apply']
        if not ap and sig:
            return 0                # this form is rejected
        if not ap:
            return 0
        want_op = (lambda o: o == Ptr((('O', 'oper'),))) if f['n'] == 'apply' else (lambda o: 'm_op' in repr(o))
        o, a = ap[0][1], ap[0][2]
        good = len(ap) == 1 and want_op(o) and a and a[0] == res and v == mk('applied')
        if good:
            rest = a[1:]
            if len(rest) == 1 and rest[0] == this:
                # the whole function: must be the Function overload, not the one-expression one
                good = 'PLEXIL::Function' in ap[0][3]
            else:
                good = isinstance(size, int) and len(rest) == size and \
                    all(x == mk('init', ('I', ('F', ('O', 'fn'), 'exprs'), i)) or isinst(x, i) for i, x in enumerate(rest))
        rep.check(good, 'arguments', f['key'], '%s:%s: %s (in %s) must apply the operator to its %s argument(s) in order, but '
                  'applies it to %s' % (f['file'], f['ln'], short(f['key']), label(c), size, a))
    return 1


def isinst(x, i):
    return isinstance(x, T) and x[0] == 'init' and x[1][0] == 'I' and x[1][2] == i and \
        (x[1][1][0] == 'F' and x[1][1][1] == ('O', 'fn'))


MIN_OBLIGATIONS = 500
