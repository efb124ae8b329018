"""Path-sensitive abstract interpreter (property simulation) over the facts.

Values are constants, references/pointers to abstract locations (Ptr) and
Herbrand terms (T) naming what is unknown.  A state carries the abstract store,
the branch atoms decided so far, and a client-defined event trace / typestate.
Branches on undecided atoms split the state; states that become equal are
merged; symbolic loops are cut after `loop_bound` undecided iterations.
No solver and no execution of the program is involved."""
import re
import sys
sys.setrecursionlimit(20000)


class Broken(Exception):
    """analysis cannot decide (engine limitation or vanished anchor)"""


class T(tuple):
    """Herbrand term: T((op, arg, ...))"""
    __slots__ = ()

    def __repr__(self):
        return '%s(%s)' % (self[0], ', '.join(map(str, self[1:])))


def mk(op, *a):
    return T((op,) + a)


class Ptr(tuple):
    """pointer or reference to an abstract location"""
    __slots__ = ()

    @property
    def addr(self):
        return self[0]

    def __repr__(self):
        return '&' + showaddr(self[0])


def ptr(addr):
    if addr[0] == 'D':
        return addr[1]
    return Ptr((addr,))


def addr_of(v):
    if isinstance(v, Ptr):
        return v[0]
    return ('D', v)


class RefBind(tuple):
    __slots__ = ()


class Fn(tuple):
    """function pointer / bound method / closure: (key, captured)"""
    __slots__ = ()


def showaddr(a):
    k = a[0]
    if k == 'L':
        return a[3]
    if k == 'F':
        return showaddr(a[1]) + '.' + a[2]
    if k == 'I':
        return '%s[%s]' % (showaddr(a[1]), a[2])
    if k == 'D':
        return '*' + str(a[1])
    if k == 'O':
        return a[1]
    if k == 'G':
        return a[1]
    if k == 'N':
        return 'new@%s' % (a[2],)
    return str(a)


class State:
    __slots__ = ('mem', 'facts', 'trace', 'aux', 'cls', 'cnt')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.trace = ()
        self.aux = {}
        self.cls = {}
        self.cnt = {}

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.aux = dict(self.aux)
        s.cls = dict(self.cls)
        s.cnt = dict(self.cnt)
        return s

    def key(self, facts=True):
        return (frozenset(self.mem.items()), self.trace, frozenset(self.aux.items()),
                frozenset(self.facts.items()) if facts else None, frozenset(self.cls.items()))

    def ev(self, *e):
        self.trace = self.trace + (e,)

    def count(self, k):
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return n


SKIP_MACROS = {'debugMsg', 'condDebugMsg', 'debugStmt', 'condDebugStmt', 'warn', 'SHOW', 'MARK'}

ITER_PREFIX = ('__gnu_cxx::__normal_iterator<', 'std::_Rb_tree_iterator<', 'std::_Rb_tree_const_iterator<',
               'std::_List_iterator<', 'std::_List_const_iterator<', 'std::_Deque_iterator<', 'std::_Bit_iterator',
               'std::_Bit_const_iterator', 'std::_Fwd_list_iterator<', 'std::_Bit_reference', 'std::reverse_iterator<',
               'std::__detail::_Node_iterator<', 'std::__detail::_Node_const_iterator<')

INT_BITS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
            'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
            'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}


def base_type(t):
    t = t.strip()
    for q in ('const ', 'volatile '):
        while t.startswith(q):
            t = t[len(q):]
    while t.endswith((' const', ' volatile')):
        t = t.rsplit(' ', 1)[0]
    return t.strip()


def strip_ref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def pointee(t):
    t = base_type(strip_ref(t))
    if t.endswith('*const'):
        t = t[:-5]
    if t.endswith('*'):
        return base_type(t[:-1])
    return t


def rec_type(t):
    """class name denoted by a (reference to / pointer to) class type string"""
    t = base_type(strip_ref(t))
    if t.endswith('*const'):
        t = t[:-5].strip()
    while t.endswith('*'):
        t = base_type(t[:-1])
    return t


def wrap(v, t):
    t = base_type(t)
    if t == 'bool':
        return bool(v)
    if t in INT_BITS and isinstance(v, int):
        b, s = INT_BITS[t]
        v &= (1 << b) - 1
        if s and v >> (b - 1):
            v -= 1 << b
    return v


def isconst(v):
    return isinstance(v, (int, float, str, bool)) or v is None


def split_params(key):
    """parameter type strings of a function key"""
    depth = 0
    # find the parameter list: last top-level '('
    k = key[:-6] if key.endswith(' const') else key
    if not k.endswith(')'):
        return []
    i = len(k) - 1
    d = 0
    while i >= 0:
        c = k[i]
        if c == ')':
            d += 1
        elif c == '(':
            d -= 1
            if d == 0:
                break
        i -= 1
    s = k[i + 1:-1]
    out, cur, d = [], '', 0
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


_pcache = {}


def params_of(key):
    if key not in _pcache:
        _pcache[key] = split_params(key)
    return _pcache[key]


_qcache = {}


def qual(key):
    """function key without parameter list and without template arguments of the function"""
    r = _qcache.get(key)
    if r is None:
        k = key[:-6] if key.endswith(' const') else key
        i = len(k) - 1
        d = 0
        while i >= 0:
            c = k[i]
            if c == ')':
                d += 1
            elif c == '(':
                d -= 1
                if d == 0:
                    break
            i -= 1
        r = _qcache[key] = k[:i] if i > 0 else k
    return r


def notempl(q):
    """drop template argument lists from a qualified name"""
    out, d = '', 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d > 0 and not (q[:i].endswith('-')):
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


_ncache = {}


def short(key):
    r = _ncache.get(key)
    if r is None:
        r = _ncache[key] = notempl(qual(key))
    return r


class Ctx:
    """one call as seen by a client hook"""
    __slots__ = ('key', 'name', 'cls', 'this', 'args', 'node', 'virt', 'frame', 'dyn', 'argnodes')

    def __init__(s, **k):
        for n in Ctx.__slots__:
            setattr(s, n, k.get(n))


def _sys(*fs):
    return {'sys': True, 'fields': [{'n': n, 't': t} for n, t in fs]}


SYS_RECORDS = {                         # aggregates of the system headers that the sources initialise by a list
    'timespec': _sys(('tv_sec', 'long'), ('tv_nsec', 'long')),
    'timeval': _sys(('tv_sec', 'long'), ('tv_usec', 'long')),
    'itimerspec': _sys(('it_interval', 'timespec'), ('it_value', 'timespec')),
    'itimerval': _sys(('it_interval', 'timeval'), ('it_value', 'timeval')),
}


class Interp:
    sys_records = SYS_RECORDS
    loop_bound = 2          # undecided iterations of a symbolic loop
    construct_elements = False
    model_maps = False        # std::map / std::set with decided keys (stdmap.py)
    run_statics = False       # function-local static objects of plain types get their initial value when first reached
    concrete_bound = 70     # iterations of a loop with decided conditions
    max_depth = 40
    max_states = 20000
    budget = 4000000        # calls evaluated before giving up

    def __init__(self, prog):
        self.P = prog
        self.cuts = 0
        self.ncalls = 0
        self.nid = {}
        self.analysed = set()     # function keys interpreted
        self.opaque = {}          # opaque callees -> count
        self.nstates = 0
        self.callstack = []
        self.unknown_nodes = set()

    # ------------------------------------------------------------- hooks
    def inline(self, key, fn, ctx):
        return True

    def on_call(self, st, ctx):
        """return None, or list of (state, value)"""
        return None

    def on_opaque(self, st, ctx):
        """called for every call that is neither inlined nor modelled; may record events"""
        return None

    def initial(self, st, addr, typ):
        return mk('init', addr)

    def on_store(self, st, addr, val, node):
        pass

    def on_load(self, st, addr, val, node):
        return val

    def on_dtor(self, st, addr, cls):
        """scope exit of a local of class type; return None or list of states"""
        return None

    def on_delete(self, st, val, node):
        st.ev('delete', val)

    def on_cut(self, node):
        self.cuts += 1

    def dyn_class(self, st, addr, static_cls):
        """dynamic class of the object at addr, or None"""
        return st.cls.get(addr)

    # ------------------------------------------------------------- memory
    def fieldtype(self, cls, name):
        for c in [cls] + self.P.bases(cls):
            r = self.P.classes.get(c)
            if r:
                for f in r['fields']:
                    if f['n'] == name:
                        return f['t']
        return ''

    def load(self, st, addr, typ='', node=None):
        v = st.mem.get(addr)
        if v is None and addr not in st.mem:
            v = self._initial(st, addr, typ)
            if v is not None:
                st.mem[addr] = v
        return self.on_load(st, addr, v, node)

    def _initial(self, st, addr, typ):
        # object copied as a whole?
        a, path = addr, []
        while a[0] in ('F', 'I'):
            path.append(a)
            a = a[1]
            src = st.mem.get(('=', a))
            if src is not None:
                b = src
                for x in reversed(path):
                    b = (x[0], b, x[2])
                return self.load(st, b, typ)
        if addr[0] == 'G':
            v = self.P.vars.get(addr[1])
            if v and v.get('init') and (v.get('const') or v['t'].startswith('const ') or v['t'].endswith('const')):
                rs = self.ev(v['init'], st.fork(), ('g',), None)
                if len(rs) == 1 and rs[0][2] is None and isconst(rs[0][1]):
                    return rs[0][1]
                if len(rs) == 1 and rs[0][2] is None and isinstance(rs[0][1], Ptr) and \
                        isinstance(rs[0][0].mem.get(rs[0][1].addr), str):
                    return rs[0][0].mem[rs[0][1].addr]
                if len(rs) == 1 and rs[0][2] is None and isinstance(rs[0][1], Fn):
                    return rs[0][1]
        if addr[0] == 'I' and addr[1][0] == 'G' and isinstance(addr[2], int):
            v = self.P.vars.get(addr[1][1])
            if v and v.get('init') and v['init'] and v['init'].get('k') == 'InitList' and \
                    ('const' in v['t']):
                a = v['init']['a']
                if 0 <= addr[2] < len(a):
                    rs = self.ev(a[addr[2]], st.fork(), ('g',), None)
                    if len(rs) == 1 and rs[0][2] is None:
                        v = rs[0][1]
                        if isinstance(v, Ptr) and isinstance(rs[0][0].mem.get(v.addr), str):
                            return rs[0][0].mem[v.addr]
                        return v
        if addr[0] == 'F' and addr[1][0] == 'I' and addr[1][1][0] == 'G' and isinstance(addr[1][2], int):
            v = self.P.vars.get(addr[1][1][1])          # a row of a constant table of records
            if v and v.get('init') and v['init'].get('k') == 'InitList' and 'const' in v['t'] and 0 <= addr[1][2] < len(v['init']['a']):
                rs = self.ev(v['init']['a'][addr[1][2]], st.fork(), ('g',), None)
                if len(rs) == 1 and rs[0][2] is None and isinstance(rs[0][1], Ptr):
                    v = rs[0][0].mem.get(('F', rs[0][1].addr, addr[2]))
                    if v is not None and (isconst(v) or isinstance(v, Fn)):
                        return v
                    if isinstance(v, Ptr):
                        return rs[0][0].mem[v.addr] if isinstance(rs[0][0].mem.get(v.addr), str) else v
        return self.initial(st, addr, typ)

    def store(self, st, addr, val, node=None):
        st.mem[addr] = val
        self.on_store(st, addr, val, node)

    def copy_object(self, st, dst, src):
        if dst == src:
            return
        for k in [k for k in st.mem if self._under(k, dst)]:
            del st.mem[k]
        new = {}
        for k, v in st.mem.items():
            if self._under(k, src):
                new[self._rebase(k, src, dst)] = v
        root = self.origin(st, src)
        st.mem.update(new)
        if root == dst:
            st.mem.pop(('=', dst), None)
        else:
            st.mem[('=', dst)] = root
        if src in st.mem:
            st.mem[dst] = st.mem[src]
        if src in st.cls and dst not in st.cls:
            st.cls[dst] = st.cls[src]

    def origin(self, st, src):
        """where the not yet read parts of the object at src come from"""
        seen = set()
        while src not in seen:
            seen.add(src)
            a, path = src, []
            while ('=', a) not in st.mem and a[0] in ('F', 'I'):
                path.append(a)
                a = a[1]
            if ('=', a) not in st.mem:
                break
            b = st.mem[('=', a)]
            for x in reversed(path):
                b = (x[0], b, x[2])
            src = b
        return src

    def _under(self, k, base):
        if k[0] == '=':
            return False
        a = k
        while a[0] in ('F', 'I'):
            a = a[1]
            if a == base:
                return True
        return False

    def _rebase(self, k, src, dst):
        if k == src:
            return dst
        return (k[0], self._rebase(k[1], src, dst), k[2])

    # ------------------------------------------------------------- truth
    def lookup(self, st, t):
        """decided value of term t or None"""
        return st.facts.get(t)

    def truth(self, st, v):
        """-> list of (state, bool)"""
        if isinstance(v, Ptr) or isinstance(v, Fn):
            return [(st, True)]
        if isconst(v):
            return [(st, bool(v))]
        if isinstance(v, RefBind):
            return [(st, True)]
        op = v[0]
        if op == '!':
            return [(s, not b) for s, b in self.truth(st, v[1])]
        if op == '!=':
            return [(s, not b) for s, b in self.truth(st, mk('==', v[1], v[2]))]
        if op == '>':
            return self.truth(st, mk('<', v[2], v[1]))
        if op == '>=':
            return self.truth(st, mk('<=', v[2], v[1]))
        if op == '==':
            a, b = v[1], v[2]
            if isconst(a) and not isconst(b):
                a, b = b, a
            if a == b:
                return [(st, True)]
            if isconst(b) and not isconst(a):
                cur = st.facts.get(('=', a))
                if cur is not None:
                    return [(st, cur[0] == b)]
                ne = st.facts.get(('#', a), ())
                if b in ne:
                    return [(st, False)]
                if b is True and isinstance(a, T):
                    return self.truth(st, a)
                if b == 0 and isinstance(a, T):
                    # null / zero test: same atom as plain truth
                    return [(s, not x) for s, x in self.truth(st, a)]
                if st.facts.get(a) is False:
                    return [(st, False)]
                left = self.remaining(st, a)
                if left is not None:
                    if b not in left:
                        return [(st, False)]
                    if left == [b]:
                        return [(st, True)]
                s1, s2 = st.fork(), st.fork()
                s1.facts[('=', a)] = (b,)
                s2.facts[('#', a)] = tuple(sorted(set(ne) | {b}, key=repr))
                return [(s1, True), (s2, False)]
            if repr(a) > repr(b):
                a, b = b, a
            v = mk('==', a, b)
        if op == '<' or op == '<=':
            r = self.order(st, v)
            if r is not None:
                return [(st, r)]
        cur = st.facts.get(v)
        if cur is not None:
            return [(st, cur)]
        if op not in ('==', '<', '<='):
            eq = st.facts.get(('=', v))
            if eq is not None:
                return [(st, bool(eq[0]))]
            if 0 in st.facts.get(('#', v), ()):
                return [(st, True)]
            left = self.remaining(st, v)
            if left is not None:
                if 0 not in left:
                    return [(st, True)]
                if all(x == 0 for x in left):
                    return [(st, False)]
        d = self.decide(st, v)
        if d is not None:
            return [(st, d)]
        s1, s2 = st.fork(), st.fork()
        s1.facts[v] = True
        s2.facts[v] = False
        return [(s1, True), (s2, False)]

    def remaining(self, st, a):
        """constants the term may still be, or None"""
        dom = self.domain(st, a)
        if dom is None:
            return None
        ne = st.facts.get(('#', a), ())
        nz = st.facts.get(a) is True
        return [d for d in dom if d not in ne and not (nz and d == 0)]

    def order(self, st, v):
        a, b = v[1], v[2]
        if a == b and not self.may_nan(a):
            return v[0] == '<='
        # constants bounded by unsignedness
        return None

    def may_nan(self, t):
        return False

    def domain(self, st, term):
        """finite set of constants the term ranges over, if known"""
        return None

    def decide(self, st, term):
        return None

    # ------------------------------------------------------------- expressions
    # ev returns list of (state, value, signal)   signal: None or ('thr', ...)
    def node_id(self, n):
        i = id(n)
        r = self.nid.get(i)
        if r is None:
            r = self.nid[i] = len(self.nid)
        return r

    def ev(self, n, st, fr, this):
        if n is None:
            return [(st, None, None)]
        if 'cv' in n and n['k'] not in ('Cond',):
            v = n['cv']
            if isinstance(v, str):
                v = int(v)
            if n.get('t') == 'bool':
                v = bool(v)
            return [(st, v, None)]
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            self.unknown_nodes.add(n['k'])
            raise Broken('unsupported syntax %s at line %s' % (n['k'], n.get('ln')))
        return m(n, st, fr, this)

    def evs(self, nodes, st, fr, this):
        """evaluate a list left to right -> list of (state, [values], signal)"""
        outs = [(st, [], None)]
        for x in nodes:
            new = []
            for s, vs, sig in outs:
                if sig:
                    new.append((s, vs, sig))
                    continue
                for s2, v, sg in self.ev(x, s, fr, this):
                    new.append((s2, vs + [v], sg))
            outs = new
        return outs

    def e_Int(self, n, st, fr, this):
        v = n['v']
        return [(st, int(v) if isinstance(v, str) else v, None)]

    def e_Float(self, n, st, fr, this):
        return [(st, n['v'], None)]

    def e_Str(self, n, st, fr, this):
        return [(st, n['v'], None)]

    def e_Bool(self, n, st, fr, this):
        return [(st, bool(n['v']), None)]

    def e_Null(self, n, st, fr, this):
        return [(st, 0, None)]

    def e_Zero(self, n, st, fr, this):
        t = base_type(n['t'])
        if t == 'bool':
            return [(st, False, None)]
        if t in ('double', 'float'):
            return [(st, 0.0, None)]
        return [(st, 0, None)]

    def e_This(self, n, st, fr, this):
        return [(st, this, None)]

    def e_TypeId(self, n, st, fr, this):
        return [(st, mk('typeid', n.get('ln')), None)]

    def e_SizeOf(self, n, st, fr, this):
        return [(st, mk('sizeof', n['at']), None)]

    def e_Unk(self, n, st, fr, this):
        if n.get('n') == 'pseudodtor':
            return [(st, None, None)]
        self.unknown_nodes.add('Unk:' + str(n.get('n')))
        return [(st, mk('unk', self.node_id(n)), None)]

    def e_ArrayInitLoop(self, n, st, fr, this):
        return self.ev(n['e'], st, fr, this)

    def e_StmtExpr(self, n, st, fr, this):
        return [(s, None, sig) for s, sig in self.exec(n['b'], st, fr, this)]

    def e_Lambda(self, n, st, fr, this):
        caps = tuple((c.get('d', {}).get('n', 'this'),) for c in n['caps'])
        capd = []
        for c in n['caps']:
            if c.get('this'):
                capd.append(('this', this))
            elif 'd' in c and c['d'].get('dk') in ('var', 'parm'):
                a = ('L', fr, c['d']['id'], c['d']['n'])
                if c.get('byref'):
                    v = st.mem.get(a)
                    capd.append((c['d']['n'], v if isinstance(v, RefBind) else RefBind((ptr(a),))))
                else:
                    v = st.mem.get(a)
                    if isinstance(v, RefBind):
                        v = self.load(st, addr_of(v[0]))
                    capd.append((c['d']['n'], v))
        return [(st, Fn((n['f'], tuple(capd))), None)]

    def e_Ref(self, n, st, fr, this):
        d = n['d']
        dk = d['dk']
        if dk == 'enum':
            return [(st, d['v'], None)]
        if dk == 'fn':
            return [(st, Fn((d['f'], ())), None)]
        if dk in ('parm', 'var'):
            a = ('L', fr, d['id'], d['n'])
            if a not in st.mem:
                # captured variable of an enclosing lambda?
                c = st.mem.get(('CAP', fr))
                if c is not None:
                    for nm, v in c:
                        if nm == d['n']:
                            if isinstance(v, RefBind):
                                return [(st, v[0], None)]
                            st.mem[a] = v
                            break
            v = st.mem.get(a)
            if isinstance(v, RefBind):
                return [(st, v[0], None)]
            return [(st, ptr(a), None)]
        if dk == 'glob':
            a = ('G', d['q'])
            v = st.mem.get(a)
            if isinstance(v, RefBind):
                return [(st, v[0], None)]
            return [(st, ptr(a), None)]
        return [(st, mk('ref', d.get('n')), None)]

    def e_Member(self, n, st, fr, this):
        if n.get('mk') == 'fn':
            # bound method outside of a call
            out = []
            for s, b, sig in self.ev(n['b'], st, fr, this):
                out.append((s, Fn((n['f'], (('this', b),))), sig))
            return out
        if n.get('mk') == 'glob':
            return [(st, ptr(('G', n['q'])), None)]
        out = []
        for s, b, sig in self.ev(n['b'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            if n['n'] == '' and n.get('cls'):
                out.append((s, b, None))      # anonymous union/struct: its members belong to the enclosing object
                continue
            a = ('F', addr_of(b), n['n'])
            v = s.mem.get(a)
            if isinstance(v, RefBind):
                out.append((s, v[0], None))
                continue
            if v is None and n.get('cls'):
                ft = self.fieldtype(n['cls'], n['n'])
                if ft.endswith('&'):
                    t = self.initial(s, a, ft)
                    s.mem[a] = RefBind((t,))
                    out.append((s, t, None))
                    continue
            out.append((s, ptr(a), None))
        return out

    def e_Index(self, n, st, fr, this):
        out = []
        for s, vs, sig in self.evs([n['b'], n['i']], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            b, i = vs
            out.append((s, self.element(s, b, i), None))
        return out

    def element(self, st, b, i):
        if isinstance(b, str):
            if isinstance(i, int) and 0 <= i <= len(b):
                return ('CH', b, i) and mk('chr', b, i)
            return mk('chr', b, i)
        a = addr_of(b)
        if a[0] == 'I' and isinstance(a[2], int) and isinstance(i, int):
            return ptr(('I', a[1], a[2] + i))
        if a[0] == 'I':
            return ptr(('I', a[1], self.arith('+', a[2], i, 'long')))
        return ptr(('I', a, i))

    def rd(self, st, v, typ, node=None):
        """lvalue-to-rvalue"""
        if isinstance(v, str) and typ in ('char', 'const char'):
            return ord(v[0]) if v else 0
        if isinstance(v, T) and v[0] == 'chr' and isinstance(v[1], str) and isinstance(v[2], int):
            return ord(v[1][v[2]]) if v[2] < len(v[1]) else 0
        if isinstance(v, T) and v[0] == 'fcast':
            return v
        if isinstance(v, (Ptr, T)):
            a = addr_of(v)
            x = self.load(st, a, typ, node)
            if isinstance(x, RefBind):
                x = self.load(st, addr_of(x[0]), typ, node)
            return x
        return v

    def e_Cast(self, n, st, fr, this):
        ck = n['ck']
        out = []
        for s, v, sig in self.ev(n['e'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            if ck == 'LValueToRValue':
                out.append((s, self.rd(s, v, n['t'], n['e']), None))
            elif ck in ('NullToPointer', 'NullToMemberPointer'):
                out.append((s, 0, None))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                if isconst(v):
                    out.append((s, bool(v), None))
                elif isinstance(v, (Ptr, Fn)):
                    out.append((s, True, None))
                else:
                    d = s.facts.get(v)
                    if d is not None:
                        out.append((s, d, None))
                    else:
                        out.append((s, mk('!', mk('!', v)) if False else mk('bool', v), None))
            elif ck in ('IntegralCast', 'BooleanToSignedIntegral'):
                if isinstance(v, int):
                    out.append((s, wrap(int(v), n['t']), None))
                else:
                    out.append((s, self.castterm(s, v, n['e'].get('t', ''), n['t']), None))
            elif ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                if isinstance(v, (int, float)) and ck == 'IntegralToFloating':
                    out.append((s, float(v), None))
                elif isinstance(v, float) and ck == 'FloatingCast':
                    out.append((s, v, None))
                elif isinstance(v, float) and v == v and abs(v) < 2**62:
                    out.append((s, wrap(int(v), n['t']), None))
                else:
                    out.append((s, self.fcast(s, ck, v, n), None))
            elif ck == 'Dynamic':
                out += self.dyncast(s, v, n)
            elif ck == 'ToVoid':
                out.append((s, None, None))
            elif ck == 'ArrayToPointerDecay' and isinstance(v, Ptr) and v.addr[0] == 'G' and \
                    ((self.P.vars.get(v.addr[1]) or {}).get('init') or {}).get('k') == 'Str':
                out.append((s, self.P.vars[v.addr[1]]['init']['v'], None))
            elif ck == 'ArrayToPointerDecay':
                if isinstance(v, str):
                    out.append((s, v, None))
                else:
                    a = addr_of(v)
                    out.append((s, ptr(('I', a, 0)), None))
            else:
                # derived/base, bit, nop, function decay, user conversions, constructor conversions
                out.append((s, v, None))
        return out

    def castterm(self, st, v, tf, tt):
        tf, tt = base_type(tf), base_type(tt)
        if tf == tt or not isinstance(v, T):
            return v
        # nested widening casts: keep a single term
        return mk('cast', tt, v) if self.keep_casts else v

    keep_casts = False

    def fcast(self, st, ck, v, n):
        return mk('fcast', base_type(n['t']), v)

    def dyncast(self, st, v, n):
        tgt = pointee(n['t'])
        isref = not n['t'].rstrip().endswith('*')
        if isconst(v):
            return [(st, v, None)]
        out = []
        for s, nn in self.truth(st, v):
            if not nn:
                out.append((s, 0, None))
                continue
            c = self.dyn_class(s, addr_of(v), None)
            if c:
                out.append((s, v if self.P.is_a(c, tgt) else 0, None))
                continue
            t = mk('isa', v, tgt)
            for s2, b in self.truth(s, t):
                if b:
                    out.append((s2, v, None))
                elif isref:
                    out.append((s2, None, ('thr', 'std::bad_cast', None)))
                else:
                    out.append((s2, 0, None))
        return out

    def e_Un(self, n, st, fr, this):
        op = n['op']
        out = []
        for s, v, sig in self.ev(n['e'], st, fr, this):
            if sig:
                out.append((s, None, sig))
            elif op == '&' or op == '*':
                out.append((s, v, None))
            elif op == '!':
                if isconst(v):
                    out.append((s, not v, None))
                elif isinstance(v, (Ptr, Fn)):
                    out.append((s, False, None))
                else:
                    d = s.facts.get(v)
                    out.append((s, (not d) if d is not None else (v[1] if v[0] == '!' else mk('!', v)), None))
            elif op in ('++', '--'):
                a = addr_of(v)
                old = self.load(s, a, n['e'].get('t', ''), n)
                if isinstance(old, RefBind):
                    a = addr_of(old[0])
                    old = self.load(s, a, '', n)
                new = self.arith('+' if op == '++' else '-', old, 1, n['t'])
                self.store(s, a, new, n)
                out.append((s, old if n['post'] else v, None))
            elif op == '-':
                out.append((s, wrap(-v, n['t']) if isinstance(v, int) else -v if isinstance(v, float) else mk('neg', v), None))
            elif op == '~':
                out.append((s, wrap(~v, n['t']) if isinstance(v, int) else mk('~', v), None))
            elif op == '+':
                out.append((s, v, None))
            else:
                out.append((s, v, None))
        return out

    def arith(self, op, a, b, t):
        if isinstance(a, Ptr) and op in '+-' and isinstance(b, (int, T)):
            ad = a.addr
            if ad[0] == 'I':
                return ptr(('I', ad[1], self.arith(op, ad[2], b, 'long')))
            if op == '+':
                return ptr(('I', ad, b))
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr):
            p, q = a.addr, b.addr
            if p[0] == q[0] == 'I' and p[1] == q[1] and isinstance(p[2], int) and isinstance(q[2], int):
                return p[2] - q[2]
        num = isinstance(a, (int, float)) and isinstance(b, (int, float))
        if num:
            try:
                if op == '+':
                    r = a + b
                elif op == '-':
                    r = a - b
                elif op == '*':
                    r = a * b
                elif op == '/':
                    if isinstance(a, int) and isinstance(b, int):
                        r = abs(a) // abs(b)
                        r = r if (a < 0) == (b < 0) else -r
                    else:
                        r = a / b
                elif op == '%':
                    r = abs(a) % abs(b)
                    r = -r if a < 0 else r
                elif op == '<<':
                    r = a << b
                elif op == '>>':
                    r = a >> b
                elif op == '&':
                    r = a & b
                elif op == '|':
                    r = a | b
                elif op == '^':
                    r = a ^ b
                else:
                    return mk(op, a, b)
                return wrap(r, t) if isinstance(r, int) else r
            except ZeroDivisionError:
                return mk(op, a, b)
        if op == '-' and a == b and not isinstance(a, str):
            return 0
        if op in '+-' and b == 0 and not isinstance(a, str):
            return a
        if op == '-' and isinstance(b, int) and isinstance(a, T) and a[0] == '+' and isinstance(a[2], int):
            return self.arith('+', a[1], a[2] - b, t)
        if op == '+' and isinstance(b, int) and isinstance(a, T) and a[0] == '+' and isinstance(a[2], int):
            return mk('+', a[1], a[2] + b) if a[2] + b else a[1]
        if op == '-' and isinstance(b, int):
            return mk('+', a, -b)
        return mk(op, a, b)

    def compare(self, st, op, a, b):
        if isconst(a) and isconst(b) and type(a) in (int, float, bool) and type(b) in (int, float, bool):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if op in ('==', '!='):
            r = None
            if a == b and type(a) == type(b):
                r = True
            elif isinstance(a, (Ptr, Fn)) and isinstance(b, (Ptr, Fn)):
                r = self.ptr_eq(st, a, b)
            elif isinstance(a, (Ptr, Fn)) and isconst(b) and b == 0:
                r = False
            elif isinstance(b, (Ptr, Fn)) and isconst(a) and a == 0:
                r = False
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            if isinstance(r, T):
                return r if op == '==' else mk('!', r)
            if r is not None:
                return r if op == '==' else not r
        return mk(op, a, b)

    def ptr_eq(self, st, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.addr[0] == 'I' and b.addr[0] == 'I' \
                and a.addr[1] == b.addr[1]:
            if any(i == '$end' or type(i) is tuple for i in (a.addr[2], b.addr[2])):
                return a.addr[2] == b.addr[2]          # positions in a map
            r = self.compare(st, '==', a.addr[2], b.addr[2])
            return r
        return a == b

    def e_Bin(self, n, st, fr, this):
        op = n['op']
        if op == '&&' or op == '||':
            out = []
            for s, v, sig in self.ev(n['l'], st, fr, this):
                if sig:
                    out.append((s, None, sig))
                    continue
                for s2, b in self.truth(s, v):
                    if b == (op == '||'):
                        out.append((s2, b, None))
                    else:
                        for s3, w, sg in self.ev(n['r'], s2, fr, this):
                            if sg:
                                out.append((s3, None, sg))
                            elif isconst(w):
                                out.append((s3, bool(w), None))
                            else:
                                out += [(s4, b4, None) for s4, b4 in self.truth(s3, w)]
            return out
        if op == ',':
            out = []
            for s, v, sig in self.ev(n['l'], st, fr, this):
                if sig:
                    out.append((s, None, sig))
                else:
                    out += self.ev(n['r'], s, fr, this)
            return out
        out = []
        if op == '=':
            for s, vs, sig in self.evs([n['r'], n['l']], st, fr, this):
                if sig:
                    out.append((s, None, sig))
                    continue
                self.assign(s, addr_of(vs[1]), vs[0], n)
                out.append((s, vs[1], None))
            return out
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            for s, vs, sig in self.evs([n['r'], n['l']], st, fr, this):
                if sig:
                    out.append((s, None, sig))
                    continue
                a = addr_of(vs[1])
                old = self.rd(s, vs[1], n['l'].get('t', ''), n)
                new = self.on_arith(s, op[:-1], old, vs[0], n)
                if new is None:
                    new = self.arith(op[:-1], old, vs[0], n.get('t', ''))
                self.assign(s, a, new, n)
                out.append((s, vs[1], None))
            return out
        for s, vs, sig in self.evs([n['l'], n['r']], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            a, b = vs
            if op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((s, self.compare(s, op, a, b), None))
            else:
                r = self.on_arith(s, op, a, b, n)
                out.append((s, self.arith(op, a, b, n.get('t', '')) if r is None else r, None))
        return out

    def on_arith(self, st, op, a, b, n):
        return None

    def assign(self, st, a, v, node):
        cur = st.mem.get(a)
        if isinstance(cur, RefBind):
            a = addr_of(cur[0])
        self.store(st, a, v, node)

    def e_Cond(self, n, st, fr, this):
        out = []
        for s, v, sig in self.ev(n['c'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            for s2, b in self.truth(s, v):
                out += self.ev(n['a'] if b else n['b'], s2, fr, this)
        return out

    def fill_record(self, st, a, c, vs):
        """member-wise initialisation of an aggregate"""
        for i, f in enumerate(c['fields']):
            t, fa = f['t'], ('F', a, f['n'])
            if i >= len(vs):
                if 'sys' in c:
                    if base_type(t) in SYS_RECORDS:
                        self.fill_record(st, fa, SYS_RECORDS[base_type(t)], [])
                    else:
                        st.mem[fa] = 0
                continue
            v = vs[i]
            if t.endswith('&'):
                st.mem[fa] = RefBind((v,))
            elif base_type(t) in SYS_RECORDS and isinstance(v, Ptr):
                self.copy_object(st, fa, v.addr)
            else:
                st.mem[fa] = v

    def fill_array(self, st, a, t, vs):
        et = re.sub(r'\[\d*\]', '', t, count=1).strip()
        deep = et.endswith(']') or self.is_class(et)
        for i, v in enumerate(vs):
            if deep and isinstance(v, Ptr):
                self.copy_object(st, ('I', a, i), v.addr)
            else:
                st.mem[('I', a, i)] = v

    def e_InitList(self, n, st, fr, this):
        out = []
        for s, vs, sig in self.evs(n['a'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            t = base_type(n['t'])
            if len(vs) == 1 and (t in INT_BITS or t in ('double', 'bool', 'float') or t.endswith('*')):
                out.append((s, vs[0], None))
            elif not vs and (t in INT_BITS or t in ('bool',) or t.endswith('*')):
                out.append((s, 0, None))
            else:
                a = ('TMP', fr, self.node_id(n))
                c = self.P.classes.get(t) or SYS_RECORDS.get(t)
                if c and not t.startswith('std::'):
                    self.fill_record(s, a, c, vs)
                elif t.endswith(']'):
                    self.fill_array(s, a, t, vs)
                    s.mem[('F', a, '$len')] = len(vs)
                else:
                    for i, v in enumerate(vs):
                        s.mem[('I', a, i)] = v
                    s.mem[('F', a, '$len')] = len(vs)
                out.append((s, ptr(a), None))
        return out

    def e_Throw(self, n, st, fr, this):
        out = []
        for s, v, sig in self.ev(n.get('e'), st, fr, this):
            out.append((s, None, sig or ('thr', base_type((n.get('e') or {}).get('t', 'rethrow')), v)))
        return out

    def e_Delete(self, n, st, fr, this):
        out = []
        for s, v, sig in self.ev(n['e'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            r = self.on_delete(s, v, n)
            if r is None:
                out.append((s, None, None))
            else:
                out += [(x, None, None) for x in r]
        return out

    def e_New(self, n, st, fr, this):
        a = ('N', fr, self.node_id(n))
        c = st.count(a)
        if c:
            a = ('N', fr, self.node_id(n), c)
        outs = [(st, None)]
        if n.get('size'):
            outs = [(s, sig) for s, v, sig in self.ev(n['size'], st, fr, this)]
        res = []
        for s, sig in outs:
            if sig:
                res.append((s, None, sig))
                continue
            t = n['nt']
            if n.get('place'):
                for s2, vs, sg in self.evs(n['place'], s, fr, this):
                    if sg:
                        res.append((s2, None, sg))
                    else:
                        res += self.init_at(s2, addr_of(vs[0]), n.get('init'), t, fr, this)
                continue
            s.cls[a] = base_type(t)
            for x, _, sg in self.init_at(s, a, n.get('init'), t, fr, this):
                if sg is None:
                    self.on_new(x, a, base_type(t), n)
                res.append((x, ptr(a), sg))
        return res

    def on_new(self, st, addr, cls, node):
        pass

    def zero_array(self, st, a, typ):
        """value-initialise a built-in array of scalars"""
        m = re.search(r'^(.*?)\[(\d+)\]((?:\[\d+\])*)$', typ.strip())
        if not m or int(m.group(2)) > 256:
            return False
        et = (m.group(1).strip() + m.group(3)).strip()
        t = base_type(et)
        if not m.group(3) and (self.is_class(et) and not et.endswith('*')):
            return False
        for i in range(int(m.group(2))):
            if m.group(3):
                self.zero_array(st, ('I', a, i), et)
            else:
                st.mem[('I', a, i)] = False if t == 'bool' and not et.endswith('*') else 0.0 if t in ('double', 'float') and not et.endswith('*') else 0
        return True

    def init_at(self, st, a, init, typ, fr, this):
        """initialise the object at a from an initialiser expression"""
        if init is None:
            return [(st, ptr(a), None)]
        if init['k'] == 'Construct' and init['cls'].startswith(ITER_PREFIX):
            out = []
            for s, v, sig in self.ev(init, st, fr, this):
                s.mem[a] = v
                out.append((s, ptr(a), sig))
            return out
        if init['k'] == 'Construct':
            return [(s, ptr(a), sig) for s, sig in self.construct(init, st, fr, this, a)]
        if init['k'] == 'InitList':
            t = base_type(typ)
            c = self.P.classes.get(t) or SYS_RECORDS.get(t)
            out = []
            if c and not init['a']:
                if t in SYS_RECORDS:
                    self.fill_record(st, a, c, [])
                return [(st, ptr(a), None)]
            for s, vs, sig in self.evs(init['a'], st, fr, this):
                if sig is None:
                    if c:
                        self.fill_record(s, a, c, vs)
                    elif '[' in t:
                        self.fill_array(s, a, t, vs)
                    elif len(vs) == 1:
                        s.mem[a] = vs[0]
                    elif not vs:
                        s.mem[a] = 0
                    else:
                        for i, v in enumerate(vs):
                            s.mem[('I', a, i)] = v
                        s.mem[('F', a, '$len')] = len(vs)
                out.append((s, ptr(a), sig))
            return out
        if init['k'] == 'Zero' and self.zero_array(st, a, init.get('t') or typ):
            return [(st, ptr(a), None)]
        out = []
        for s, v, sig in self.ev(init, st, fr, this):
            if sig is None:
                if typ.endswith('&'):
                    s.mem[a] = RefBind((v,))
                elif isinstance(v, Ptr) and self.is_class(typ):
                    self.copy_object(s, a, v.addr)
                elif self.is_class(typ) and isinstance(v, T) and not typ.rstrip().endswith('*'):
                    s.mem[a] = v
                    s.mem[('=', a)] = ('D', v)
                else:
                    s.mem[a] = v
            out.append((s, ptr(a), sig))
        return out

    def is_class(self, typ):
        t = base_type(typ)
        if t.startswith(ITER_PREFIX):
            return False
        if t.endswith('*') or t.endswith('*const') or t in INT_BITS or t in ('bool', 'double', 'float', 'void'):
            return False
        if t in self.P.enums or '(*)' in t:
            return False
        return t in self.P.classes or t.startswith('std::') or '::' in t or t in SYS_RECORDS

    # ------------------------------------------------------------- construct
    def e_Construct(self, n, st, fr, this):
        if n['cls'].startswith(ITER_PREFIX):
            if not n['a']:
                return [(st, mk('iter0'), None)]
            import models
            return [(s, models.itval(self, s, v), sig) for s, v, sig in self.ev(n['a'][0], st, fr, this)]
        a = ('TMP', fr, self.node_id(n))
        # elidable copy of a prvalue: no copy
        if n.get('elide') and len(n['a']) == 1 and n.get('ck') in ('copy', 'move'):
            return self.ev(n['a'][0], st, fr, this)
        for k in [k for k in st.mem if self._under(k, a) or k == a or k == ('=', a)]:
            del st.mem[k]
        return [(s, ptr(a), sig) for s, sig in self.construct(n, st, fr, this, a)]

    def construct(self, n, st, fr, this, a):
        """run the constructor call n on the object at a -> list of (state, signal)"""
        if n['cls'].startswith('lambda@') and len(n['a']) == 1:      # a closure is its captures
            out = []
            for s, v, sig in self.ev(n['a'][0], st, fr, this):
                f = s.mem.get(v.addr) if isinstance(v, Ptr) else v
                if isinstance(f, Fn):
                    s.mem[a] = f
                out.append((s, sig))
            return out
        if n.get('elide') and len(n['a']) == 1 and n.get('ck') in ('copy', 'move'):
            inner = n['a'][0]
            while inner['k'] == 'Cast' and inner['ck'] in ('ConstructorConversion', 'NoOp', 'UserDefinedConversion'):
                inner = inner['e']
            if inner['k'] == 'Construct':
                return self.construct(inner, st, fr, this, a)
        out = []
        for s, vs, sig in self.evs(n['a'], st, fr, this):
            if sig:
                out.append((s, sig))
                continue
            if a not in s.cls:
                s.cls[a] = n['cls']
            ctx = Ctx(key=n['f'], name=n['cls'].rsplit('::', 1)[-1], cls=n['cls'], this=ptr(a), args=vs, node=n,
                      frame=fr, dyn=n['cls'], argnodes=n['a'])
            for s2, v, sg in self.call(s, ctx, construct=True):
                out.append((s2, sg))
        return out

    # ------------------------------------------------------------- calls
    def e_Call(self, n, st, fr, this):
        out = []
        if 'f' not in n:
            for s, vs, sig in self.evs([n['callee']] + n['a'], st, fr, this):
                if sig:
                    out.append((s, None, sig))
                    continue
                out += self.call_value(s, vs[0], vs[1:], n, fr)
            return out
        for s, vs, sig in self.evs(n['a'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            ctx = Ctx(key=n['f'], name=n['n'], cls=n.get('cls'), this=None, args=vs, node=n, frame=fr, argnodes=n['a'])
            out += self.call(s, ctx)
        return out

    def call_value(self, st, f, args, n, fr):
        if isinstance(f, Ptr):
            f2 = st.mem.get(f.addr)
            if isinstance(f2, Fn):
                f = f2
        if isinstance(f, Fn):
            key, caps = f[0], f[1]
            this = None
            for nm, v in caps:
                if nm == 'this':
                    this = v
            if key in self.P.fns and self.P.fns[key].get('lambda'):
                ctx = Ctx(key=key, name='operator()', cls=None, this=this, args=args, node=n, frame=fr, argnodes=n.get('a', []))
                return self.call(st, ctx, caps=caps)
            ctx = Ctx(key=key, name=short(key).rsplit('::', 1)[-1], cls=None, this=this, args=args, node=n, frame=fr, argnodes=n.get('a', []))
            return self.call(st, ctx)
        ctx = Ctx(key='(indirect)', name='(indirect)', cls=None, this=f, args=args, node=n, frame=fr, argnodes=n.get('a', []))
        return self.call(st, ctx)

    def e_MCall(self, n, st, fr, this):
        out = []
        if 'f' not in n:
            for s, vs, sig in self.evs([n['o']] + n['a'], st, fr, this):
                if sig:
                    out.append((s, None, sig))
                else:
                    out.append((s, mk('mptrcall', self.node_id(n)), None))
            return out
        for s, vs, sig in self.evs([n['o']] + n['a'], st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            out += self.mcall(s, n, vs[0], vs[1:], fr, n['a'])
        return out

    def mcall(self, st, n, obj, args, fr, argnodes):
        key = n['f']
        dyn = None
        if n.get('virt'):
            dyn = self.dyn_class(st, addr_of(obj), n.get('cls'))
            if dyn:
                k2 = self.P.dispatch(dyn, key)
                if k2:
                    key = k2
        ctx = Ctx(key=key, name=n['n'], cls=n.get('cls'), this=obj, args=args, node=n, virt=bool(n.get('virt')),
                  frame=fr, dyn=dyn, argnodes=argnodes)
        return self.call(st, ctx)

    def e_OpCall(self, n, st, fr, this):
        out = []
        op = n['op']
        if op == '<<' and base_type(strip_ref(n['t'])).startswith('std::basic_ostream'):
            # stream insertion: no effect on the analysed state
            r = self.on_stream(st, n, fr, this)
            if r is not None:
                return r
        order = list(n['a'])
        for s, vs, sig in self.evs(order, st, fr, this):
            if sig:
                out.append((s, None, sig))
                continue
            if 'f' not in n:
                out.append((s, mk('op', op) , None))
                continue
            if n.get('member'):
                if op == '()' and (isinstance(vs[0], Fn) or isinstance(vs[0], Ptr) and isinstance(s.mem.get(vs[0].addr), Fn)) \
                        and not (n.get('cls') or '').startswith('std::function'):
                    out += self.call_value(s, vs[0], vs[1:], n, fr)
                    continue
                out += self.mcall(s, n, vs[0], vs[1:], fr, n['a'][1:])
            else:
                ctx = Ctx(key=n['f'], name=n.get('n'), cls=None, this=None, args=vs, node=n, frame=fr, argnodes=n['a'])
                out += self.call(s, ctx)
        return out

    def on_stream(self, st, n, fr, this):
        return [(st, mk('ostream'), None)]

    def call(self, st, ctx, construct=False, caps=None):
        """-> list of (state, value, signal)"""
        self.ncalls += 1
        if self.ncalls > self.budget:
            raise Broken('call budget exhausted in ' + str(self.callstack[:1]))
        r = self.on_call(st, ctx)
        if r is not None:
            return [x if len(x) == 3 else (x[0], x[1], None) for x in r]
        r = self.model(st, ctx, construct)
        if r is not None:
            return [x if len(x) == 3 else (x[0], x[1], None) for x in r]
        fn = self.P.fns.get(ctx.key)
        if ctx.node is not None and ctx.node.get('noret') or (fn and fn.get('noret')):
            return [(st, None, ('thr', 'noreturn:' + ctx.name, ctx.key))]
        if fn and not (ctx.virt and not ctx.dyn and self.virtual_opaque(st, ctx)):
            depth = len(self.callstack)
            if self.callstack.count(ctx.key) < self.recursion(ctx.key) and depth < self.max_depth and self.inline(ctx.key, fn, ctx):
                return self.run(fn, st, ctx, caps)
        return self.opaque_call(st, ctx, construct)

    def recursion(self, key):
        return 1

    def virtual_opaque(self, st, ctx):
        """a virtual call on an object of unknown class: opaque unless the method has a single implementation"""
        impls = self.impls(ctx.key)
        return len(impls) != 1 or ctx.key not in impls

    def impls(self, key):
        c = getattr(self, '_impls', None)
        if c is None:
            c = self._impls = {}
        if key not in c:
            r = set()
            m = self.P._methods.get(key)
            if m:
                if not m[1].get('pure'):
                    r.add(key)
                for sub in self.P.subclasses(m[0]['n']):
                    k = self.P.dispatch(sub, key)
                    if k and k in self.P.fns:
                        r.add(k)
            c[key] = r
        return c[key]

    def opaque_call(self, st, ctx, construct=False):
        self.opaque[ctx.key] = self.opaque.get(ctx.key, 0) + 1
        r = self.on_opaque(st, ctx)
        if r is not None:
            return [x if len(x) == 3 else (x[0], x[1], None) for x in r]
        argsig = tuple(a if not isinstance(a, Ptr) else a for a in ctx.args)
        const = ctx.key.endswith(' const')
        base = ('call', ctx.key, ctx.this, argsig)
        n = st.count(base)
        # out parameters
        for i, (p, a) in enumerate(zip(params_of(ctx.key), ctx.args)):
            if isinstance(a, Ptr) and self.mutable_param(p):
                self.havoc(st, a.addr, mk('out', ctx.key, ctx.this, i, n))
        if construct:
            return [(st, ctx.this, None)]
        t = mk('ret', ctx.key, ctx.this, argsig, n)
        return [(st, t, None)]

    def mutable_param(self, p):
        p = p.strip()
        if p.endswith('&&'):
            return False
        if p.endswith('&'):
            return not (p.startswith('const ') or p[:-1].rstrip().endswith('const'))
        if p.endswith('*'):
            return not p.startswith('const ')
        return False

    def havoc(self, st, addr, term):
        for k in [k for k in st.mem if self._under(k, addr)]:
            del st.mem[k]
        st.mem.pop(('=', addr), None)
        st.mem[addr] = term

    def run(self, fn, st, ctx, caps=None):
        """inline fn"""
        self.analysed.add(fn['key'])
        fr = (ctx.frame, self.node_id(ctx.node) if ctx.node is not None else 0, len(self.callstack))
        s = st
        # pass arguments
        for i, p in enumerate(fn['params']):
            a = ('L', fr, p['id'], p['n'])
            self._clear(s, a)
            if i < len(ctx.args):
                v = ctx.args[i]
                if p['t'].endswith('&'):
                    s.mem[a] = RefBind((v,))
                elif isinstance(v, Ptr) and self.is_class(p['t']):
                    self.copy_object(s, a, v.addr)
                else:
                    s.mem[a] = v
        if caps is not None:
            s.mem[('CAP', fr)] = caps
        this = ctx.this
        self.callstack.append(fn['key'])
        try:
            outs = [(s, None)]
            if 'inits' in fn:
                outs = self.run_inits(fn, s, fr, this)
            res = []
            for s1, sig in outs:
                if sig:
                    res.append((s1, None, sig))
                    continue
                for s2, sg in self.exec(fn['body'], s1, fr, this):
                    if sg is None:
                        res.append((s2, None, None))
                    elif sg[0] == 'ret':
                        res.append((s2, sg[1], None))
                    elif sg[0] == 'thr':
                        res.append((s2, None, sg))
                    else:
                        raise Broken('stray ' + sg[0])
            if 'inits' in fn:
                res = [(s, this if sig is None else None, sig) for s, v, sig in res]
        finally:
            self.callstack.pop()
        out, seen = [], set()
        for s2, v, sg in res:
            self.leave(s2, fr, v)
            k = (s2.key(), v, sg)
            if k not in seen:
                seen.add(k)
                out.append((s2, v, sg))
        if len(out) > self.max_states:
            raise Broken('state explosion in ' + fn['key'])
        self.nstates += len(out)
        return out

    def leave(self, st, fr, v):
        """forget the frame's scalar locals (unless the result refers to them)"""
        keep = addr_of(v) if isinstance(v, Ptr) else None
        esc = set()
        for k in list(st.mem):
            if k[0] == 'CAP' and k[1] == fr:
                del st.mem[k]
            elif k[0] == 'L' and k[1] == fr and k != keep:
                x = st.mem[k]
                del st.mem[k]
            elif k[0] in ('F', 'I', '='):
                b = k[1]
                while b[0] in ('F', 'I'):
                    b = b[1]
                if b[0] == 'L' and b[1] == fr and b != keep:
                    del st.mem[k]

    def _clear(self, st, a):
        if a in st.mem:
            del st.mem[a]
        for k in [k for k in st.mem if (k[0] in ('F', 'I') and self._under(k, a))]:
            del st.mem[k]
        st.mem.pop(('=', a), None)
        st.cls.pop(a, None)

    def run_inits(self, fn, st, fr, this):
        outs = [(st, None)]
        base = addr_of(this)
        for it in fn['inits']:
            new = []
            for s, sig in outs:
                if sig:
                    new.append((s, sig))
                    continue
                if 'e' not in it:
                    new.append((s, None))
                    continue
                e = it['e']
                if 'field' in it:
                    a = ('F', base, it['field'])
                    ft = self.fieldtype(fn['cls'], it['field'])
                    for s2, _, sg in self.init_at(s, a, e, ft or e.get('t', ''), fr, this):
                        if sg is None:
                            self.on_store(s2, a, s2.mem.get(a), e)
                        new.append((s2, sg))
                else:
                    if e['k'] == 'Construct':
                        new += self.construct(e, s, fr, this, base)
                    else:
                        new += [(s2, sg) for s2, _, sg in self.ev(e, s, fr, this)]
            outs = new
        return outs

    # ------------------------------------------------------------- library models
    def model(self, st, ctx, construct):
        import models
        return models.model(self, st, ctx, construct)

    # ------------------------------------------------------------- statements
    # exec returns list of (state, signal)
    def exec(self, n, st, fr, this):
        if n is None:
            return [(st, None)]
        if n.get('m') in SKIP_MACROS:
            return [(st, None)]
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            r = m(n, st, fr, this)
            return r
        return [(s, sig) for s, v, sig in self.full_expr(n, st, fr, this)]

    def full_expr(self, n, st, fr, this):
        return self.ev(n, st, fr, this)

    def dedupe(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for o in outs:
            s = o[0]
            groups.setdefault((frozenset(s.facts.items()), len(s.trace), o[1]), []).append(o)
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            seen = set()
            for s, sig in g:
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    res.append((s, sig))
        if len(res) > self.max_states:
            raise Broken('state explosion (%d) in %s' % (len(res), self.callstack[-3:]))
        return res

    def s_Nop(self, n, st, fr, this):
        return [(st, None)]

    def s_Break(self, n, st, fr, this):
        return [(st, ('brk',))]

    def s_Continue(self, n, st, fr, this):
        return [(st, ('cont',))]

    def s_Return(self, n, st, fr, this):
        if not n.get('e'):
            return [(st, ('ret', None))]
        return [(s, sig or ('ret', v)) for s, v, sig in self.ev(n['e'], st, fr, this)]

    def s_Block(self, n, st, fr, this):
        return self.block(n['c'], st, fr, this)

    def block(self, stmts, st, fr, this):
        outs = [(st, None)]
        done = []
        locs = []
        for x in stmts:
            if x is None:
                continue
            new = []
            for s, sig in outs:
                if sig:
                    done.append((s, sig))
                else:
                    new += self.exec(x, s, fr, this)
            outs = self.dedupe(new)
            if x['k'] == 'Decl':
                for d in x['ds']:
                    if 'id' in d and d.get('rec') and not d['t'].endswith('&'):
                        locs.append((('L', fr, d['id'], d['n']), d['rec']))
            if not outs:
                break
        outs = done + outs
        if locs:
            outs = self.scope_exit(outs, locs)
        return self.dedupe(outs)

    def scope_exit(self, outs, locs):
        for a, rec in reversed(locs):
            new = []
            for s, sig in outs:
                if a not in s.mem and not any(self._under(k, a) for k in s.mem) and a not in s.cls:
                    new.append((s, sig))   # declaration not reached
                    continue
                r = self.on_dtor(s, a, rec)
                if r is None:
                    import models
                    r = models.dtor(self, s, a, rec)
                if r is None:
                    new.append((s, sig))
                else:
                    new += [(x, sig) for x in r]
            outs = new
        return outs

    def s_Decl(self, n, st, fr, this):
        outs = [(st, None)]
        for d in n['ds']:
            new = []
            for s, sig in outs:
                if sig:
                    new.append((s, sig))
                    continue
                new += self.declare(d, s, fr, this)
            outs = new
        return outs

    def declare(self, d, s, fr, this):
        if d.get('static'):
            a = ('G', d.get('q'))
            if d.get('init') and d['init'].get('k') == 'InitList' and d['t'].startswith('const ') and \
                    d['t'].endswith(']') and ('*' not in d['t'] or '*const[' in d['t']):     # a constant table
                if any(k[0] in 'FI' and (k[1] == ('I', a, 0) or k[1:] == (a, 0)) for k in s.mem):
                    return [(s, None)]
                return [(x, sig) for x, v, sig in self.init_at(s, a, d['init'], d['t'], fr, this)]
            if not self.run_statics or d.get('rec') and self.run_statics != 'objects' or not d.get('init') or d['t'].endswith('&') or s.aux.get(('static', a)):
                return [(s, None)]
            s.aux[('static', a)] = True
            return [(x, sig) for x, v, sig in self.init_at(s, a, d['init'], d['t'], fr, this)]
        a = ('L', fr, d['id'], d['n'])
        self._clear(s, a)
        s.cnt.pop(('N',), None)
        t = d['t']
        if d.get('rec') and not t.endswith('&'):
            s.cls[a] = d['rec']
            s.mem[a] = mk('object', d['rec'])
        if not d.get('init'):
            return [(s, None)]
        return [(x, sig) for x, v, sig in self.init_at(s, a, d['init'], t, fr, this)]

    def s_If(self, n, st, fr, this):
        outs = [(st, None)]
        if n.get('init'):
            outs = self.exec(n['init'], st, fr, this)
        if n.get('cvar'):
            new = []
            for s, sig in outs:
                new += [(s, sig)] if sig else self.declare(n['cvar'], s, fr, this)
            outs = new
        res = []
        for s, sig in outs:
            if sig:
                res.append((s, sig))
                continue
            pre = s
            sub = []
            for s2, v, sg in self.ev(n['c'], s, fr, this):
                if sg:
                    sub.append((s2, sg))
                    continue
                for s3, b in self.truth(s2, v):
                    if b:
                        sub += self.exec(n['a'], s3, fr, this)
                    elif n.get('b'):
                        sub += self.exec(n['b'], s3, fr, this)
                    else:
                        sub.append((s3, None))
            res += sub
        return self.dedupe(res)

    def s_Switch(self, n, st, fr, this):
        outs = [(st, None)]
        if n.get('init'):
            outs = self.exec(n['init'], st, fr, this)
        body = n['b']['c'] if n['b'] and n['b']['k'] == 'Block' else [n['b']]
        # flatten case labels: list of (labels, stmt)
        flat = []
        for x in body:
            labs = []
            while x is not None and x['k'] in ('Case', 'Default'):
                if x['k'] == 'Case':
                    labs.append((self.const_of(x['v']), self.const_of(x['v2']) if x.get('v2') else None))
                else:
                    labs.append('default')
                x = x['s']
            flat.append((labs, x))
        cases = []
        for i, (labs, x) in enumerate(flat):
            for l in labs:
                cases.append((l, i))
        consts = [(l, i) for l, i in cases if l != 'default']
        deflt = [i for l, i in cases if l == 'default']
        res = []
        for s, sig in outs:
            if sig:
                res.append((s, sig))
                continue
            for s2, v, sg in self.ev(n['c'], s, fr, this):
                if sg:
                    res.append((s2, sg))
                    continue
                pend = [s2]
                starts = []
                for (lo, hi), i in consts:
                    nxt = []
                    for p in pend:
                        if hi is not None:
                            if isinstance(v, int):
                                (starts.append((p, i)) if lo <= v <= hi else nxt.append(p))
                            else:
                                starts.append((p.fork(), i))
                                nxt.append(p)
                            continue
                        for p2, b in self.truth(p, self.compare(p, '==', v, lo)):
                            if b:
                                starts.append((p2, i))
                            else:
                                nxt.append(p2)
                    pend = nxt
                for p in pend:
                    if self.switch_default_feasible(p, v, n):
                        starts.append((p, deflt[0] if deflt else None))
                for p, i in starts:
                    if i is None:
                        res.append((p, None))
                        continue
                    for s3, sg3 in self.block([x for _, x in flat[i:]], p, fr, this):
                        res.append((s3, None if sg3 == ('brk',) else sg3))
        return self.dedupe(res)

    def switch_default_feasible(self, st, v, n):
        if isinstance(v, T):
            left = self.remaining(st, v)
            if left is not None:
                return bool(left)
        return True

    def const_of(self, n):
        if 'cv' in n:
            return n['cv']
        if n['k'] == 'Int':
            return n['v']
        if n['k'] == 'Ref' and n['d']['dk'] == 'enum':
            return n['d']['v']
        if n['k'] == 'Cast':
            return self.const_of(n['e'])
        if n['k'] == 'Bool':
            return n['v']
        raise Broken('non-constant case label')

    def loop(self, n, st, fr, this, cond, body, inc, cond_first=True, cvar=None):
        """generic loop; cond/body/inc are nodes"""
        res = []
        work = [(st, 0, 0, not cond_first)]
        seen = set()
        while work:
            s, und, it, skip = work.pop()
            k = (s.key(), und, skip)
            if k in seen:
                continue
            seen.add(k)
            if it > self.concrete_bound:
                self.on_cut(n)
                continue
            if skip:
                ents = [(s, und, None)]
            else:
                ents = []
                pre = [(s, None)]
                if cvar:
                    pre = self.declare(cvar, s, fr, this)
                for s0, sg0 in pre:
                    if sg0:
                        res.append((s0, sg0))
                        continue
                    for s2, v, sg in (self.ev(cond, s0, fr, this) if cond else [(s0, True, None)]):
                        if sg:
                            res.append((s2, sg))
                            continue
                        rs = self.truth(s2, v)
                        forked = len(rs) > 1 or not isconst(v) or len(s2.facts) > len(s0.facts) or cond is None
                        # a decided-by-fork condition counts as undecided
                        nf = len(s2.facts) != len(s.facts)
                        for s3, b in rs:
                            if b:
                                u = und + (1 if (forked or nf) else 0)
                                if u > self.loop_bound:
                                    self.on_cut(n)
                                    continue
                                ents.append((s3, u, None))
                            else:
                                res.append((s3, None))
            for s3, u, _ in ents:
                for s4, sg in self.exec(body, s3, fr, this):
                    if sg is None or sg == ('cont',):
                        if inc:
                            for s5, v, sg5 in self.ev(inc, s4, fr, this):
                                if sg5:
                                    res.append((s5, sg5))
                                else:
                                    work.append((s5, u, it + 1, False))
                        else:
                            work.append((s4, u, it + 1, False))
                    elif sg == ('brk',):
                        res.append((s4, None))
                    else:
                        res.append((s4, sg))
            if len(res) + len(work) > self.max_states:
                raise Broken('state explosion in loop at line %s of %s' % (n.get('ln'), self.callstack[-1:]))
        return self.dedupe(res)

    def s_While(self, n, st, fr, this):
        return self.loop(n, st, fr, this, n['c'], n['b'], None, cvar=n.get('cvar'))

    def s_Do(self, n, st, fr, this):
        return self.loop(n, st, fr, this, n['c'], n['b'], None, cond_first=False)

    def s_For(self, n, st, fr, this):
        outs = self.exec(n['init'], st, fr, this) if n.get('init') else [(st, None)]
        res = []
        for s, sig in outs:
            if sig:
                res.append((s, sig))
            else:
                res += self.loop(n, s, fr, this, n.get('c'), n['b'], n.get('inc'))
        return res

    def s_RangeFor(self, n, st, fr, this):
        res = []
        for s, r, sig in self.ev(n['range'], st, fr, this):
            if sig:
                res.append((s, sig))
                continue
            res += self.range_loop(n, s, r, fr, this)
        return self.dedupe(res)

    def array_elements(self, n, rng):
        """the elements of a range that is a built-in array"""
        m = re.search(r'[^\]]\[(\d+)\]$', (n['range'] or {}).get('t') or '')
        if not m or int(m.group(1)) > 64:
            return None
        return [ptr(('I', addr_of(rng), i)) for i in range(int(m.group(1)))]

    def range_elements(self, st, rng):
        """concrete list of element pointers, or None if unknown"""
        a = addr_of(rng)
        ln = st.mem.get(('F', a, '$len'))
        if isinstance(ln, int):
            return [ptr(('I', a, i)) for i in range(ln)]
        ks = st.mem.get(('F', a, '$keys'))
        if ks is not None:
            return [ptr(('I', a, ('key', k))) for k in ks]
        return None

    def range_loop(self, n, st, rng, fr, this):
        elems = self.range_elements(st, rng)
        if elems is None:
            elems = self.array_elements(n, rng)
        a = addr_of(rng)
        d = n['var']
        va = ('L', fr, d['id'], d['n'])
        res = []
        work = [(st, 0)]
        seen = set()
        while work:
            s, i = work.pop()
            k = (s.key(), i)
            if k in seen:
                continue
            seen.add(k)
            if elems is not None:
                if i and isinstance(s.mem.get(('F', a, '$len')), int) and s.mem[('F', a, '$len')] != len(elems):
                    s.ev('modified while iterated', a)
                if i >= len(elems):
                    res.append((s, None))
                    continue
                s2, e = s, elems[i]
            else:
                if i >= self.loop_bound:
                    self.on_cut(n)
                    # only the exit continues
                    s.facts[mk('more', a, i)] = False
                    res.append((s, None))
                    continue
                brs = self.truth(s, mk('more', a, i))
                for s3, b in brs:
                    if not b:
                        res.append((s3, None))
                s2 = [s3 for s3, b in brs if b]
                if not s2:
                    continue
                s2 = s2[0]
                e = ptr(('I', a, i))
            self._clear(s2, va)
            if d['t'].endswith('&'):
                s2.mem[va] = RefBind((e,))
                starts = [(s2, None)]
            elif self.is_class(d['t']):
                self.copy_object(s2, va, addr_of(e))
                starts = [(s2, None)]
            else:
                s2.mem[va] = self.load(s2, addr_of(e), d['t'])
                starts = [(s2, None)]
            for b in d.get('bind', []):
                pass
            for s3, sg3 in starts:
                for s4, sg in self.exec(n['b'], s3, fr, this):
                    if sg is None or sg == ('cont',):
                        work.append((s4, i + 1))
                    elif sg == ('brk',):
                        res.append((s4, None))
                    else:
                        res.append((s4, sg))
        return res

    def s_Try(self, n, st, fr, this):
        res = []
        for s, sig in self.exec(n['b'], st, fr, this):
            if sig and sig[0] == 'thr':
                handled = False
                for h in n['h']:
                    m = self.catches(h, sig)
                    if m:
                        s2 = s.fork() if m == 'maybe' else s
                        if h.get('var') and 'id' in h['var']:
                            s2.mem[('L', fr, h['var']['id'], h['var']['n'])] = mk('exception', sig[1])
                        for s3, sg in self.exec(h['b'], s2, fr, this):
                            if sg and sg[0] == 'thr' and sg[1] == 'rethrow':
                                sg = sig
                            res.append((s3, sg))
                        if m is True:
                            handled = True
                            break
                if not handled:
                    res.append((s, sig))
            else:
                res.append((s, sig))
        return self.dedupe(res)

    NORET_TYPES = {'handleAssert': 'PLEXIL::Error'}

    def catches(self, h, sig):
        if h.get('all'):
            return True
        t = base_type(strip_ref(h['t']))
        e = sig[1]
        if e.startswith('noreturn:'):
            k = sig[2]
            c = short(k).rsplit('::', 1)[0] if isinstance(k, str) else ''
            e = c
        if e == t or self.P.is_a(e, t):
            return True
        if t == 'std::exception' and (e.startswith('std::') or e in self.P.classes):
            return True
        return False

    def s_Label(self, n, st, fr, this):
        return self.exec(n['s'], st, fr, this)

    def s_Case(self, n, st, fr, this):
        return self.exec(n['s'], st, fr, this)

    def s_Default(self, n, st, fr, this):
        return self.exec(n['s'], st, fr, this)

    # ------------------------------------------------------------- entry
    def start(self, fn, st, this=None, args=None, cls=None):
        """analyse fn from the given state -> list of (state, value, signal)"""
        args = args or []
        if len(args) < len(fn['params']):
            for p in fn['params'][len(args):]:
                args = args + [mk('arg', p['n'])]
        ctx = Ctx(key=fn['key'], name=fn['n'], cls=fn.get('cls'), this=this, args=args, node=None, frame=(), argnodes=[])
        return self.run(fn, st, ctx)
