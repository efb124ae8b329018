"""V05: the cached value of a state changes exactly when a different value arrives."""
from lib_var import *

MIN_OBLIGATIONS = 300
SCAL = ('Boolean', 'Integer', 'Real', 'String')
VT = {'Boolean': 'BOOLEAN_TYPE', 'Integer': 'INTEGER_TYPE', 'Real': 'REAL_TYPE', 'String': 'STRING_TYPE',
      'BooleanArray': 'BOOLEAN_ARRAY_TYPE', 'IntegerArray': 'INTEGER_ARRAY_TYPE', 'RealArray': 'REAL_ARRAY_TYPE',
      'StringArray': 'STRING_ARRAY_TYPE'}


class ConcI(VarI):
    """PLEXIL::Value is interpreted member by member"""
    construct_elements = True

    def value_call(self, st, ctx, construct=None):
        return None


class Cache:
    """a cached value of one declared type, driven through the CachedValue interface"""
    def __init__(self, P, I, vtype, kind, rep):
        self.P, self.I, self.kind, self.rep, self.vtype = P, I, kind, rep, vtype
        st = State()
        self.vals = {}
        ary = bool(kind) and kind.endswith('Array')
        el = kind[:-5] if ary else kind
        if kind and ary:
            for nm, els in (('x', [mk('val', 'p'), 'U']), ('y', [mk('val', 'q')]), ('z', [mk('val', 'r'), 'U'])):
                st, a = I.make_array(st, el, els)
                self.vals[nm] = (a, tuple(els))
        elif kind == 'Boolean':
            self.vals = {'x': (True, True), 'y': (False, False)}
        elif kind:
            self.vals = {n: (mk('val', n), mk('val', n)) for n in ('x', 'y')}
        st, self.c = I.one(st, 'cv_new', P.enum('ValueType')['vals'] and {i['n']: i['v'] for i in P.enum('ValueType')['vals']}[vtype])
        self.V = {}
        # generic values: of this type, of another type, unknown
        if kind:
            for nm, (a, _) in self.vals.items():
                st, v = I.one(st, 'v_from_' + kind, self.arg(st, a, 'mk' + nm) if (ary or kind == 'String') else a)
                self.V[nm] = v
            if kind == 'Real':
                st, v = I.one(st, 'v_from_Integer', mk('val', 'int'))
                self.V['int'] = v
                self.vals['int'] = (mk('val', 'int'), mk('fcast', 'double', mk('val', 'int')))
            st, self.V['other'] = I.one(st, 'v_from_Integer' if kind == 'Boolean' else 'v_from_Boolean', 1 if kind == 'Boolean' else True)
        else:
            st, self.V['other'] = I.one(st, 'v_from_Boolean', True)
        st, self.V['unknown'] = I.one(st, 'v_new')
        st, self.V['unknown of type'] = I.one(st, 'v_unk', {i['n']: i['v'] for i in P.enum('ValueType')['vals']}[vtype])
        self.st0 = st

    def arg(self, st, v, nm='arg'):
        if isinstance(v, Ptr):
            return v
        a = ('O', nm)
        st.mem[a] = v
        return ptr(a)

    def ops(self):
        o = [('setUnknown', None), ('update(unknown Value)', None), ('update(unknown Value of this type)', None), ('update(Value of another type)', None)]
        for nm in self.vals:
            if nm != 'int':
                o.append(('updatePtr' if self.kind.endswith('Array') else 'update', nm))
                if self.kind == 'String':
                    o.append(('updatePtr', nm))
            else:
                o.append(('update integer', nm))
            o.append(('update(Value)', nm))
        return o

    def apply(self, st, op):
        I, (w, nm) = self.I, op
        st = clean(st.fork())
        if w == 'setUnknown':
            return I.w(st, 'cv_setUnknown', self.c, 7)
        if w.startswith('update('):
            v = self.V[{'update(unknown Value)': 'unknown', 'update(unknown Value of this type)': 'unknown of type',
                        'update(Value of another type)': 'other'}.get(w, nm)]
            return I.w(st, 'cv_updateValue', self.c, 7, v)
        x = self.vals[nm][0]
        if w == 'updatePtr':
            return I.w(st, 'cv_updatePtr_' + self.kind, self.c, 7, self.arg(st, x))
        if w == 'update integer':
            return I.w(st, 'cv_update_Integer', self.c, 7, self.arg(st, x))
        return I.w(st, 'cv_update_' + self.kind, self.c, 7, self.arg(st, x))

    def wanted(self, op):
        """content after the operation: 'U' or the content"""
        w, nm = op
        return 'U' if nm is None else self.vals[nm][1]

    def read(self, st):
        """[(state, 'U' or content)] as readers see it; also checks that the readers agree with each other"""
        I, out = self.I, []
        for s, k, sig in I.w(st, 'cv_known', self.c):
            if sig:
                out.append((s, 'error'))
                continue
            if not isinstance(k, (int, bool)):
                raise Broken('known-ness not decided')
            if not k:
                out.append((s, 'U'))
                continue
            if self.kind.endswith('Array'):
                for s2, v, sig in I.w(s, 'cv_ptr_' + self.kind, self.c, ptr(('O', 'rd'))):
                    out += [(s3, c) for s3, c in I.array(s2, s2.mem[('O', 'rd')], self.kind[:-5])] if v and not sig else [(s2, 'unreadable')]
            else:
                for s2, v, sig in I.w(s, 'cv_get_' + self.kind, self.c, ptr(('O', 'rd'))):
                    out.append((s2, s2.mem.get(('O', 'rd'))) if v and not sig else (s2, 'unreadable'))
        return out


def eq(I, st, a, b):
    """True / False / None: are two contents equal on this path?"""
    if a == 'U' or b == 'U':
        return (a == 'U') == (b == 'U') if isinstance(a, str) or isinstance(b, str) else None
    if isinstance(a, tuple) and not isinstance(a, T):
        if len(a) != len(b):
            return False
        r = [eq(I, st, p, q) for p, q in zip(a, b)]
        return False if False in r else None if None in r else True
    x, y = [v[2] if isinstance(v, T) and v[0] in ('cast', 'conv') and len(v) > 2 else v for v in (a, b)]
    for p, q in ((a, b), (x, y)):
        if isconst(p) and isconst(q):
            return p == q
        if p == q:
            return True
        for t in (mk('==', p, q), mk('==', q, p)):
            d = I.lookup(st, t)
            if d is not None:
                return d
    return None


def run(P, rep):
    rep.rule('each cached-value class driven through every update operation in every reachable state (unknown / known value, value and '
             'array contents symbolic), abstractly interpreted: the change report is true exactly on the paths where content or '
             'known-ness differ, and reading afterwards yields the new content')
    I = ConcI(P)
    V = {i['n']: i['v'] for i in P.enum('ValueType')['vals']}
    types = [(VT[k], k) for k in VT] + [('DATE_TYPE', 'Real'), ('DURATION_TYPE', 'Real')]
    n = 0
    for vt, kind in types:
        C = Cache(P, I, vt, kind, rep)
        s0, t, _ = I.w(C.st0, 'cv_type', C.c)[0]
        rep.check(t == V[VT[kind]], 'type', vt, 'the cached value made for %s calls itself type %r' % (vt, t))
        todo, seen = [(C.st0, 'U', 'fresh', 0)], set()
        while todo:
            st, old, lab, d = todo.pop(0)
            k = (canon(st, addr_of(C.c), *[addr_of(v) for v in C.V.values()]), old)
            if k in seen:
                continue
            seen.add(k)
            for op in C.ops():
                want = C.wanted(op)
                for s, r, sig in C.apply(st, op):
                    n += 1
                    what = '%s: %s when %s' % (vt, ' '.join(x for x in op if x), lab)
                    key = '%s|%s' % (vt, op[0])
                    if op[0] == 'update(Value of another type)' and sig:
                        # a mistyped value is rejected with an error: the cached one must survive it
                        for s2, got in C.read(clean(s.fork())):
                            rep.check(eq(I, s2, got, old) is True, 'content', key + '|rejected', '%s is rejected but changes the cached value' % what)
                        continue
                    if not rep.check(sig is None, 'update', key + '|error', '%s raises an error' % what):
                        continue
                    for s1, b in I.truth(s, r):
                        same = eq(I, s1, old, want)
                        rep.check(same is (not b), 'change', key,
                                  '%s reports %s although the value %s' % (what, 'a change' if b else 'no change',
                                                                           'is the same' if same else 'is different' if same is False else 'may be either'),
                                  {'type': vt, 'operation': what})
                        for s2, got in C.read(clean(s1.fork())):
                            e = eq(I, s2, got, want) if got not in ('error', 'unreadable') else False
                            rep.check(e is True, 'content', key, '%s: reading afterwards gives %s, not %s' % (what, short_(got), short_(want)))
                            if vt == VT.get(kind) and e and d < 2:
                                todo.append((clean(s2), got, 'it holds ' + (op[1] or 'unknown') if d == 0 else
                                             lab + ', then ' + (op[1] or 'unknown'), d + 1))
    # the value of an untyped state is always unknown: no update changes it
    C = Cache(P, I, 'UNKNOWN_TYPE', '', rep)
    for op in C.ops():
        for s, r, sig in C.apply(C.st0, op):
            n += 1
            if sig:
                continue
            rep.check(r is False or r == 0, 'change', 'UNKNOWN_TYPE|' + op[0], 'untyped: %s reports a change although it was and stays unknown' % op[0])
            rep.check([k for _, k, _ in I.w(s, 'cv_known', C.c)] in ([False], [0]), 'content', 'UNKNOWN_TYPE|' + op[0],
                      'untyped: %s makes it known' % op[0])
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.count('update operations analysed', n)
    rep.floor('operations', n, 200)


def short_(v):
    return 'unknown' if v == 'U' else str(v)[:60]
