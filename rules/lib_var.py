"""Variables driven through their public interface: constructed, activated, written, saved and restored with
abstract operands, all by interpreting the members themselves. Observations are made with the variable's own
read members, so nothing here depends on how a variable stores its value."""
from lib_expr import ExprI, obj
from lib_value import ValueModel, VAL
from interp import State, T, Ptr, mk, ptr, addr_of, isconst, Broken
from facts import AnalysisBroken

L = ('O', 'listener')
TYPES = ('Boolean', 'Integer', 'Real', 'String')


class VarI(ValueModel, ExprI):
    """env: operand name -> see ExprI; or ('ary', address) for a known array operand.
    Every write of a symbolic value is the opaque term val(<operand>)."""
    concrete_bound = 40

    def recursion(self, key):
        return 4        # the same member runs nested on different objects (a reference and its array)

    def __init__(self, P):
        ExprI.__init__(self, P)
        self.env = {}
        self.W = {f['key'].split('(')[0].split('::')[-1]: f for f in P.fns.values() if f['key'].startswith('witness::')}
        if 'x_save' not in self.W:
            raise AnalysisBroken('variable witness was not compiled')

    def on_call(self, st, ctx):
        if not (isinstance(ctx.this, Ptr) and self.operand(ctx.this)):
            r = self.value_call(st, ctx)
            if r is not None:
                return r
        if isinstance(ctx.this, Ptr):
            if ctx.this.addr == L and ctx.name == 'notifyChanged':
                st.ev('notify')
                return [(st, None)]
            nm = self.operand(ctx.this)
            if nm and isinstance(self.env[nm], tuple) and self.env[nm][0] == 'ary':
                e = self.env[nm]
                if ctx.name == 'getValuePointer' and len(ctx.args) == 1:
                    st.mem[addr_of(ctx.args[0])] = ptr(e[1])
                    return [(st, True)]
                if ctx.name == 'isKnown':
                    return [(st, True)]
            if nm:
                if ctx.name in ('activate', 'deactivate', 'addListener', 'removeListener'):
                    st.ev(ctx.name, nm)
                    return [(st, None)]
                if ctx.name == 'isConstant':
                    return [(st, True if isconst(self.env[nm]) and self.env[nm] != 'U' else mk('constant', nm))]
                if ctx.name == 'isPropagationSource':
                    return [(st, True)]
                if ctx.name in ('getBaseExpression',):
                    return [(st, ctx.this)]
                if ctx.name == 'setUnknown':
                    raise Broken('operand written')
        return ExprI.on_call(self, st, ctx)

    def w(self, st, name, *args):
        """[(state, value, signal)] of a witness entry point"""
        if name not in self.W:
            raise AnalysisBroken('witness %s was not compiled' % name)
        s = st.fork()
        return self.start(self.W[name], s, None, list(args))

    def one(self, st, name, *args):
        r = [o for o in self.w(st, name, *args) if o[2] is None]
        if len(r) != 1:
            raise AnalysisBroken('%s has %d outcomes' % (name, len(r)))
        return r[0][0], r[0][1]

    # -------------------------------------------------------------- observation
    def read(self, st, x, kind):
        """[(state, known, value)] as a reader of the variable sees it; value of an array is a tuple"""
        out = []
        if kind.endswith('Array'):
            for s, v, sig in self.w(st, 'get_Array', x, ptr(('O', 'rd'))):
                if sig:
                    out.append((s, 'error', None))
                elif v is False or v == 0:
                    out.append((s, False, None))
                elif v is True or v == 1:
                    out += [(s2, True, c) for s2, c in self.array(s, s.mem[('O', 'rd')], kind[:-5])]
                else:
                    raise Broken('known-ness not decided: %s' % (v,))
            return out
        for s, v, sig in self.w(st, 'get_' + kind, x, ptr(('O', 'rd'))):
            if sig:
                out.append((s, 'error', None))
                continue
            for s2, k in self.truth(s, v):
                out.append((s2, k, s2.mem.get(('O', 'rd')) if k else None))
        return out

    def array(self, st, a, kind):
        s, n = self.one(st, 'ary_size', a)
        if not isinstance(n, int):
            raise Broken('array of undecided size')
        states = [(s, ())]
        for i in range(n):
            nxt = []
            for s, acc in states:
                for s2, v, sig in self.w(s, 'at_' + kind, a, i, ptr(('O', 'el%d' % i))):
                    if sig:
                        raise Broken('array element unreadable')
                    for s3, k in self.truth(s2, v):
                        nxt.append((s3, acc + (s3.mem.get(('O', 'el%d' % i)) if k else 'U',)))
            states = nxt
        return states

    def observe(self, st, x, kind):
        """as read, on a fork, with the reading's own effects removed; asserts isKnown agrees"""
        out = []
        for s, k, v in self.read(st, x, kind):
            s2 = s.fork()
            out.append((s2, k, v))
        return out

    def same(self, st, a, b):
        """do two observed values certainly agree on this path?"""
        if isinstance(a, tuple) and not isinstance(a, T):
            return isinstance(b, tuple) and not isinstance(b, T) and len(a) == len(b) and all(self.same(st, p, q) for p, q in zip(a, b))
        if a is b or (type(a) == type(b) and a == b) or (isconst(a) and isconst(b) and a == b):
            return True
        for t in (mk('==', a, b), mk('==', b, a)):
            if self.lookup(st, t) is True:
                return True
        return False

    # -------------------------------------------------------------- construction
    def make_array(self, st, kind, elems):
        """concrete array object; elems: 'U' or a value term"""
        s, a = self.one(st, 'ary_' + kind, len(elems))
        for i, e in enumerate(elems):
            if e != 'U':
                s.mem[('O', 'tmp')] = e
                s, _ = self.one(s, 'put_' + kind, a, i, ptr(('O', 'tmp')))
        return s, a

    def make(self, st, kind, size=None):
        """a freshly constructed variable of this kind"""
        args = []
        if kind.endswith('Array'):
            self.env['size'] = size
            args = [obj('size') if size is not None else 0]
        return self.one(st, 'new_' + kind, *args)


def clean(st):
    """drop dead locals, notes and counters between API calls (allocation counters stay: names of live objects)"""
    st.trace, st.cnt = (), {k: v for k, v in st.cnt.items() if k and k[0] == 'N'}
    for k in [k for k in st.mem if k[0] in ('L', 'TMP')]:
        del st.mem[k]
    return st


def root(a):
    while isinstance(a, tuple) and a and a[0] in ('F', 'I'):
        a = a[1]
    return a


def canon(st, *roots):
    """canonical form of the part of the store reachable from the given addresses, and the facts"""
    by = {}
    for k, v in st.mem.items():
        by.setdefault(root(k), []).append((k, v))
    num, order = {}, []

    def ref(a):
        r = root(a)
        if r not in num:
            num[r] = len(num)
            order.append(r)
        return num[r]

    def name(a):
        if isinstance(a, tuple) and a and a[0] in ('F', 'I') and not isinstance(a, T):
            return (a[0], name(a[1])) + tuple(a[2:])
        return ('#', ref(a)) if a in by or a in st.cls else a

    def val(v):
        if isinstance(v, Ptr):
            return ('ptr', name(v.addr))
        return v
    for r in roots:
        ref(r)
    out = []
    i = 0
    while i < len(order):
        r = order[i]
        i += 1
        for k, v in sorted(by.get(r, ()), key=lambda kv: repr(kv[0])):
            out.append((name(k), val(v)))
    return frozenset(out), frozenset(st.facts.items())
