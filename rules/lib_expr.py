"""Abstract operands for expression-level rules: an operand is an object ('O', name)
whose value is unknown, or known with a constant or a symbolic value."""
from interp import Interp, State, Ptr, T, mk, ptr, addr_of, isconst, short, qual, RefBind, Broken

GETTERS = ('getValue', 'getValuePointer')


def obj(name):
    return Ptr((('O', name),))


class ExprI(Interp):
    """env: operand name -> 'U' (unknown) | constant | None (undecided: fork, symbolic value)"""
    env = {}
    vtype = {}
    nargs = None          # number of arguments of the abstract Function object ('O','args')

    def operand(self, v):
        a = addr_of(v) if isinstance(v, (Ptr, T)) else None
        if a and a[0] == 'O' and (a[1] in self.env):
            return a[1]
        return None

    def known_states(self, st, name):
        e = self.env[name]
        if e == 'U':
            return [(st, False)]
        if e is not None:
            return [(st, True)]
        return self.truth(st, mk('known', name))

    def value(self, name, typ=''):
        e = self.env[name]
        return mk('val', name) if e is None else e

    def on_call(self, st, ctx):
        nm = self.operand(ctx.this) if ctx.this is not None else None
        if nm is None:
            if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'args'):
                if ctx.name == 'size':
                    if self.nargs is None:
                        return [(st, mk('nargs'))]
                    return [(st, self.nargs)]
                if ctx.name == 'operator[]':
                    i = ctx.args[0]
                    if isinstance(i, int):
                        if self.nargs is not None and not 0 <= i < self.nargs:
                            st.ev('badarg', i)
                            return [(st, None, ('thr', 'badarg', ctx.key))]
                        return [(st, obj('a%d' % i))]
                    raise Broken('symbolic argument index')
            return None
        if ctx.name in GETTERS and len(ctx.args) == 1:
            out = []
            for s, k in self.known_states(st, nm):
                s.ev('get', nm, k)
                if k:
                    a = addr_of(ctx.args[0])
                    v = self.value(nm)
                    if ctx.name == 'getValuePointer':
                        v = ptr(('O', '*' + nm))
                        s.mem[a] = v
                    else:
                        self.store(s, a, v, ctx.node)
                out.append((s, k))
            return out
        if ctx.name == 'isKnown':
            out = []
            for s, k in self.known_states(st, nm):
                s.ev('get', nm, k)
                out.append((s, k))
            return out
        if ctx.name == 'valueType':
            if nm in self.vtype:
                return [(st, self.vtype[nm])]
            return [(st, mk('vtype', nm))]
        return None

    def initial(self, st, addr, typ):
        if addr[0] == 'O' and addr[1].startswith('*'):
            return mk('val', addr[1][1:])
        return Interp.initial(self, st, addr, typ)


def result_slot():
    return Ptr((('O', 'result'),))


def ref_result(st):
    return st.mem.get(('O', 'result'))
