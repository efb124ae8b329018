"""The state cache and the lookup expressions, interpreted together over concrete values; the outside world (the
dispatcher) and the listeners of the lookups are recorded."""
from lib_var import *
from lib_value import U, VAL

STATE = 'PLEXIL::State'
SETTERS = ('lookupNow', 'setThresholds', 'clearThresholds')


class LkI(VarI):
    """states are names with parameters, values are constants; nothing is left undecided"""
    model_maps = True
    run_statics = 'objects'
    concrete_bound = 60

    def __init__(self, P):
        VarI.__init__(self, P)
        self.world = {}                    # state -> value the outside answers a lookup with (absent: no answer)
        self.vts = {i['n']: i['v'] for i in P.enum('ValueType')['vals']}

    def recursion(self, key):
        return 12

    # ---- states as keys
    def skey(self, st, a):
        a = addr_of(a)
        k = ('F', a, '$state')
        if k in st.mem:
            return st.mem[k]
        if a[0] == 'G':
            st.mem[k] = self.global_state(st, a[1])
            return st.mem[k]
        raise Broken('state of unknown content')

    def global_state(self, st, q):
        v = self.P.vars.get(q)
        n = (v or {}).get('init')
        while isinstance(n, dict) and n.get('k') == 'Cast':
            n = n['e']
        if not n or n.get('k') != 'Construct' or n.get('cls') != STATE:
            raise Broken('state constant %s not understood' % q)
        while n.get('a') and n['a'][0].get('cls') == STATE:
            n = n['a'][0]
            while n.get('k') == 'Cast':
                n = n['e']
        e = n['a'][0] if n.get('a') else None
        while isinstance(e, dict) and e.get('k') in ('Cast', 'Construct'):
            e = e['e'] if e['k'] == 'Cast' else e['a'][0]
        if not e or e.get('k') != 'Str':
            raise Broken('name of state constant %s not understood' % q)
        return (e['v'], ())

    def text(self, st, v):
        import models
        x = models.strval(self, st, v)
        if isinstance(x, T) and x[0] == 'lit':
            x = x[1]
        if not isinstance(x, str):
            raise Broken('state name not decided: %s' % (x,))
        return x

    def put_state(self, st, a, name, params=()):
        st.mem[('F', addr_of(a), '$state')] = (name, tuple(params))

    def raw(self, st, v):
        r = self.vraw(st, v)
        if isinstance(r, T):
            if r[0] == 'lit':
                return r[1]
            raise Broken('value not decided: %s' % (r,))
        if isinstance(r, Ptr):
            r = st.mem.get(r.addr, r)
        return r

    def map_key(self, st, v, kt):
        if base_name(kt) == STATE:
            return ('state', self.skey(st, v))
        return None

    def map_order(self, st, ks):
        return sorted(ks, key=repr) if ks and isinstance(ks[0], tuple) else None

    def on_delete(self, st, val, node):
        if isinstance(val, Ptr):
            st.aux['dead'] = st.aux.get('dead', frozenset()) | {val.addr}
        return VarI.on_delete(self, st, val, node)

    def on_call(self, st, ctx):
        nm, this, cls = ctx.name, ctx.this, ctx.cls
        if isinstance(this, Ptr) and this.addr in st.aux.get('dead', ()) and not nm.startswith('~'):
            st.ev('dead', ctx.key)
        if isinstance(this, Ptr) and this.addr[0] == 'O':
            who = this.addr[1]
            if who.startswith('ear') and nm == 'notifyChanged':
                st.ev('notify', who[3:])
                return self.heard(st, who)
            if who == 'outside':
                return self.outside(st, ctx)
        q = ctx.key.split('(')[0]
        if q.rsplit('::', 1)[-1] in ('fabs', 'abs') and len(ctx.args) == 1 and isinstance(ctx.args[0], (int, float)):
            return [(st, abs(ctx.args[0]))]
        if q in ('PLEXIL::operator==', 'PLEXIL::operator!=', 'PLEXIL::operator<') and ctx.key.count(STATE) >= 2:
            a, b = self.skey(st, ctx.args[0]), self.skey(st, ctx.args[1])
            r = a == b if q.endswith('==') else a != b if q.endswith('!=') else repr(a) < repr(b)
            return [(st, r)]
        if cls == STATE and this is not None:
            r = self.state_call(st, ctx)
            if r is not None:
                return r
        if cls == VAL and nm == 'valueType':
            r = self.raw(st, this)
            return [(st, self.vts[vtype_of(r)])]
        return VarI.on_call(self, st, ctx)

    def heard(self, st, who):
        return [(st, None)]

    def outside(self, st, ctx):
        nm = ctx.name
        if nm not in SETTERS:
            return None
        key = self.skey(st, ctx.args[0])
        if nm != 'lookupNow':
            st.ev('outside', nm, key, *ctx.args[1:])
            return [(st, None)]
        st.ev('outside', nm, key)
        v = self.world.get(key, 'none')
        if v == 'none':
            return [(st, None)]
        s, val = self.value_obj(st, v)
        out = []
        for s2, r, sig in self.start(self.W['rc_update'], s, None, [ctx.args[1], val]):
            out.append((s2, None) if sig is None else (s2, None, sig))
        return out

    def value_obj(self, st, v):
        n = st.count('valueobj')
        a = ('O', 'value%d' % n)
        st.cls[a] = VAL
        st.mem[('F', a, '$val')] = U if v is None else v
        return st, ptr(a)

    def state_call(self, st, ctx):
        nm, this, args = ctx.name, ctx.this, ctx.args
        a = ('F', addr_of(this), '$state')
        if nm == 'State':
            if not args:
                st.mem[a] = ('', ())
            elif self.ptype(ctx, 0) == STATE:
                st.mem[a] = self.skey(st, args[0])
            else:
                name = self.text(st, args[0])
                ps = []
                for i in range(1, len(args)):
                    if self.ptype(ctx, i) == VAL:
                        ps.append(self.raw(st, args[i]))
                    elif args[i]:
                        ps += [U] * args[i]
                st.mem[a] = (name, tuple(ps))
            return [(st, this)]
        if nm == '~State':
            return [(st, None)]
        if nm == 'operator=':
            st.mem[a] = self.skey(st, args[0])
            return [(st, this)]
        name, ps = self.skey(st, this)
        if nm == 'setName':
            st.mem[a] = (self.text(st, args[0]), ps)
            return [(st, None)]
        if nm == 'setParameterCount':
            st.mem[a] = (name, (ps + (U,) * args[0])[:args[0]])
            return [(st, None)]
        if nm == 'setParameter':
            i = args[0]
            if not isinstance(i, int) or not 0 <= i < len(ps):
                st.ev('badparam', i)
                return [(st, None, ('thr', 'badparam', None))]
            st.mem[a] = (name, ps[:i] + (self.raw(st, args[1]),) + ps[i + 1:])
            return [(st, None)]
        if nm == 'name':
            n = ('F', addr_of(this), '$name')
            st.mem[n] = name
            return [(st, ptr(n))]
        if nm == 'parameterCount':
            return [(st, len(ps))]
        if nm == 'parameter':
            i = args[0]
            if not isinstance(i, int) or not 0 <= i < len(ps):
                st.ev('badparam', i)
                return [(st, None, ('thr', 'badparam', None))]
            v = ('F', addr_of(this), '$param%d' % i)
            st.cls[v] = VAL
            st.mem[('F', v, '$val')] = ps[i]
            return [(st, ptr(v))]
        return None

    def ptype(self, ctx, i):
        m = ctx.key[ctx.key.index('(') + 1:]
        depth, cur, out = 0, '', []
        for ch in m:
            if ch in '<(':
                depth += 1
            elif ch == '>' or ch == ')' and depth:
                depth -= 1
            elif ch == ')':
                break
            if ch == ',' and not depth:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        out.append(cur)
        return base_name(out[i]) if i < len(out) else ''

    def initial(self, st, addr, typ):
        if addr[0] == 'G' and addr[1].endswith('g_dispatcher'):
            return ptr(('O', 'outside'))
        return VarI.initial(self, st, addr, typ)

    # ---- driving
    def setv(self, st, x, v):
        """assign a value to a variable"""
        s, val = self.value_obj(st, v)
        return self.do(s, 'x_set', x, val)

    def do(self, st, name, *args):
        """the one outcome of an operation that must not fail; (state, value, error)"""
        r = self.w(st, name, *args)
        if len(r) > 1 and all(x[2] for x in r):
            r = r[:1]                         # an error either way
        if len(r) != 1:
            raise Broken('%s has %d outcomes' % (name, len(r)))
        s, v, sig = r[0]
        return s, v, sig

    def variable(self, st, kind, v):
        """an active variable holding v"""
        s, x, _ = self.do(st, 'new_' + kind)
        s, _, _ = self.do(s, 'x_activate', x)
        if v is not None:
            s, _, _ = self.setv(s, x, v)
        return s, x


def base_name(t):
    return t.replace('const ', '').replace(' const', '').replace('&', '').strip()


def vtype_of(r):
    if isinstance(r, bool):
        return 'BOOLEAN_TYPE'
    if isinstance(r, int):
        return 'INTEGER_TYPE'
    if isinstance(r, float):
        return 'REAL_TYPE'
    if r == U:
        return 'UNKNOWN_TYPE'
    if isinstance(r, str):
        return 'STRING_TYPE'
    raise Broken('type of value not decided: %r' % (r,))
