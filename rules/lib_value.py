"""PLEXIL::Value as an abstract object: unknown, or one content term. The members of Value themselves are
decided by V01-V05; every other rule relies on them through this summary."""
from interp import T, Ptr, mk, ptr, addr_of, isconst, base_type, strip_ref, Broken

VAL = 'PLEXIL::Value'
U = 'U'


class ValueModel:
    """mixin; self.operand / known_states / value give the abstract operands of ExprI"""
    snap = 0

    def vraw(self, st, v):
        """raw content of the Value object denoted by v"""
        a = addr_of(v)
        if self.operand(ptr(a)):
            return mk('operand', self.operand(ptr(a)))
        if a[0] == 'O' and a[1] == 'unknown':
            return U
        x = st.mem.get(a)
        if isinstance(x, T) and ('F', a, '$val') not in st.mem and x[0] != 'init':
            return x                       # an opaque value as a whole
        return self.load(st, ('F', a, '$val'), 'value')

    def vset(self, st, a, raw, node=None):
        self.store(st, ('F', a, '$val'), raw, node)

    def vcontents(self, st, raw):
        """[(state, known, content)]"""
        if raw is U or raw == U and isinstance(raw, str):
            return [(st, False, None)]
        if isinstance(raw, T) and raw[0] == 'operand':
            return [(s, k, self.value(raw[1]) if k else None) for s, k in self.known_states(st, raw[1])]
        if isinstance(raw, T) and raw[0] in ('init', 'load', 'ret', 'm', 'f', 'anyvalue', 'init'):
            return [(s, k, mk('val', raw) if k else None) for s, k in self.truth(st, mk('known', raw))]
        return [(st, True, raw)]

    def vfrom(self, st, ctx, v, node):
        """raw content given to a constructor or assignment from v"""
        t = base_type(strip_ref(node.get('t', ''))) if node else ''
        if t == VAL:
            return self.vraw(st, v)
        if t.endswith('ValueType') or 'ValueType' in t:
            return U
        if isinstance(v, Ptr):
            if v.addr in st.mem and not (t.startswith('PLEXIL::') and 'Array' in t):
                return self.rd(st, v, t, ctx.node)
            if 'Array' in t:
                ValueModel.snap += 1
                d = ('O', 'snapshot%d' % st.count('snapshot'))
                self.copy_object(st, d, v.addr)
                if v.addr in st.cls:
                    st.cls[d] = st.cls[v.addr]
                return ptr(d)
            if 'vector' in t:
                return mk('vector', v)
            return self.rd(st, v, t, ctx.node)
        return v

    def value_call(self, st, ctx, construct=None):
        nm = ctx.name
        if ctx.key.startswith(('PLEXIL::operator==', 'PLEXIL::operator!=')) and 'PLEXIL::Value' in ctx.key and len(ctx.args) == 2:
            return self.vcompare(st, self.vraw(st, ctx.args[0]), self.vraw(st, ctx.args[1]), nm == 'operator!=')
        if ctx.cls != VAL or ctx.this is None:
            return None
        a = addr_of(ctx.this)
        if nm == 'Value':
            self.vset(st, a, self.vfrom(st, ctx, ctx.args[0], ctx.argnodes[0]) if ctx.args else U, ctx.node)
            return [(st, ctx.this)]
        if nm == '~Value':
            return [(st, None)]
        if nm == 'operator=':
            self.vset(st, a, self.vfrom(st, ctx, ctx.args[0], ctx.argnodes[0] if ctx.argnodes else None), ctx.node)
            return [(st, ctx.this)]
        if nm == 'setUnknown':
            self.vset(st, a, U, ctx.node)
            return [(st, None)]
        if nm == 'isKnown':
            return [(s, k) for s, k, c in self.vcontents(st, self.vraw(st, ctx.this))]
        if nm in ('getValue', 'getValuePointer'):
            out = []
            for s, k, c in self.vcontents(st, self.vraw(st, ctx.this)):
                if k:
                    d = addr_of(ctx.args[0])
                    if nm == 'getValuePointer' and not isinstance(c, Ptr):
                        box = ('O', 'box%d' % s.count('box'))
                        s.mem[box] = c
                        c = ptr(box)
                    self.store(s, d, c, ctx.node)
                out.append((s, k))
            return out
        if nm in ('operator==', 'operator!=', 'equals'):
            return self.vcompare(st, self.vraw(st, ctx.this), self.vraw(st, ctx.args[0]), nm == 'operator!=')
        if nm == 'valueType':
            return [(st, mk('vtype', ctx.this))]
        return None

    def vcompare(self, st, x, y, neg):
        out = []
        for s, k1, a in self.vcontents(st, x):
            for s2, k2, b in self.vcontents(s, y):
                if k1 != k2 or not k1:
                    out.append((s2, (k1 == k2) != neg))
                else:
                    out += [(s3, e != neg) for s3, e in self.truth(s2, self.compare(s2, '==', a, b))]
        return out
