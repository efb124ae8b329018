"""E08: array accesses stay inside the elements the array currently has, whatever the index."""
import itertools
from lib_var import *
from interp import Interp, base_type, INT_BITS
from v05 import ConcI
from facts import AnalysisBroken

MIN_OBLIGATIONS = 4000
HUGE = (1 << 64) - 1


def cls(lo, hi):
    """every integer of a range, as one abstract index"""
    return mk('idx', lo, hi)


def isidx(v):
    return isinstance(v, T) and v[0] == 'idx'


class BndI(ConcI):
    """abstract indices are ranges; every element access of a vector of known length is checked against that length"""
    def compare(self, st, op, a, b):
        if isidx(a) and isinstance(b, int) or isidx(b) and isinstance(a, int):
            x, c, o = (a, int(b), op) if isidx(a) else (b, int(a), {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))
            lo, hi = x[1], x[2]
            r = {'<': (hi < c, lo >= c), '<=': (hi <= c, lo > c), '>': (lo > c, hi <= c), '>=': (lo >= c, hi < c),
                 '==': (lo == hi == c, c < lo or c > hi), '!=': (c < lo or c > hi, lo == hi == c)}[o]
            if r[0] or r[1]:
                return r[0]
        return Interp.compare(self, st, op, a, b)

    def castterm(self, st, v, tf, tt):
        if isidx(v):
            b = INT_BITS.get(base_type(tt))
            if b:
                m, lo, hi = 1 << b[0], v[1], v[2]
                mn, mx = (-(m >> 1), (m >> 1) - 1) if b[1] else (0, m - 1)
                k = -((lo - mn) // m) * m
                return cls(lo + k, hi + k) if hi + k <= mx else cls(mn, mx)
        return ConcI.castterm(self, st, v, tf, tt)

    def on_arith(self, st, op, a, b, n):
        if op in '+-' and (isidx(a) and isinstance(b, int) or isidx(b) and isinstance(a, int) and op == '+'):
            x, c = (a, b if op == '+' else -b) if isidx(a) else (b, a)
            bits = INT_BITS.get(base_type(n.get('t', '')))
            if bits:
                mn, mx = (-(1 << bits[0] - 1), (1 << bits[0] - 1) - 1) if bits[1] else (0, (1 << bits[0]) - 1)
                r = cls(x[1] + c, x[2] + c)
                return r if mn <= r[1] and r[2] <= mx else self.castterm(st, r, '', n.get('t', ''))
        return ConcI.on_arith(self, st, op, a, b, n)

    def touch(self, st, a, i):
        n = st.mem.get(('F', a, '$len'))
        if not isinstance(n, int):
            return
        if isinstance(i, bool) or not isinstance(i, int):
            st.ev('bad', 'an element at %s of %d' % ('an index from %d up' % i[1] if isidx(i) else 'an index not shown to be in range', n))
        elif not 0 <= i < n:
            st.ev('bad', 'element %d of %d' % (i, n))

    def on_load(self, st, addr, val, node):
        if addr[0] == 'I':
            self.touch(st, addr[1], addr[2])
        return ConcI.on_load(self, st, addr, val, node)

    def on_store(self, st, addr, val, node):
        if addr[0] == 'I':
            self.touch(st, addr[1], addr[2])
        return ConcI.on_store(self, st, addr, val, node)

    def vector_at(self, st, ctx, a, i, size):
        if isinstance(size, int) and (not isinstance(i, int) or not 0 <= i < size):
            return [(st, None, ('thr', 'std::out_of_range', None))]
        return [(st, ptr(('I', a, i)))]

    def on_call(self, st, ctx):
        if isinstance(ctx.this, Ptr) and (ctx.cls or '').startswith('std::vector<'):
            a = ctx.this.addr
            n = st.mem.get(('F', a, '$len'))
            if ctx.name == 'operator[]':
                self.touch(st, a, ctx.args[0])
            elif ctx.name in ('front', 'back', 'pop_back') and n == 0:
                st.ev('bad', 'the %s element of none' % ctx.name)
        return ConcI.on_call(self, st, ctx)


KINDS = ('Boolean', 'Integer', 'Real', 'String')


def run(P, rep):
    rep.rule('array members interpreted on arrays of 0..3 elements with every known/unknown pattern and on indices partitioned into every '
             'element, the one past the last, and all others as one range: known results only from known elements in range, writes change '
             'only the element in range, every vector access (operator[], at, front, back, iterator) within the length at that moment; '
             'array references likewise over unknown, negative, in-range and over-range indices')
    I = BndI(P)
    big = 4 if rep.tier == 'thorough' else 3
    quiet = set()

    def bad(s, key, what):
        for e in s.trace:
            if e[0] == 'bad':
                rep.violation('in-bounds', key, '%s: accesses %s' % (what, e[1]))
        rep.ok('in-bounds')

    def steps(st, key, what, w, *args):
        r = I.w(st, w, *args)
        for s, v, sig in r:
            bad(s, key, what)
        if not r:
            raise AnalysisBroken('%s has no outcome' % w)
        return r

    def boolean(v):
        return bool(v) if isinstance(v, (bool, int)) else 'undecided'

    def size(st, a):
        return I.one(clean(st.fork()), 'arr_size', a)[1]

    def reads(st, kind, a, ref, key, what):
        """every reader of the array at every index, against the reference contents; ref None: any contents, in bounds only"""
        n = size(st, a)
        if ref is not None:
            rep.check(n == len(ref), 'size', key, '%s: has %s elements, not %d' % (what, n, len(ref)))
        if not isinstance(n, int):
            return
        if ref is not None and n != len(ref):
            return
        for i in list(range(n)) + [n, cls(n + 1, HUGE)]:
            el = ref[i] if ref is not None and isinstance(i, int) and i < n else 'U'
            at = 'element %s of %d' % (i if isinstance(i, int) else 'index beyond', n)
            w = '%s, then reading %s' % (what, at)
            for nm in ('arr_get_' + kind,) + (('arr_getp_String',) if kind == 'String' else ()):
                base = clean(st.fork())
                for s, v, sig in steps(base, key, w, nm, a, i, ptr(('O', 'rd'))):
                    if ref is None:
                        continue
                    if sig:
                        rep.check(el == 'U' and not (isinstance(i, int) and i < n), 'read', key, w + ' is an error')
                        continue
                    got = boolean(v)
                    x = s.mem.get(('O', 'rd'))
                    if got is True and nm == 'arr_getp_String':
                        x = I.load(s, x.addr, 'std::string') if isinstance(x, Ptr) else x
                    rep.check(got is (el != 'U') and (el == 'U' or I.same(s, x, el)), 'read', key,
                              '%s gives %s, not %s' % (w, x if got is True else 'unknown' if got is False else got, 'unknown' if el == 'U' else el),
                              {'kind': kind, 'index': str(i), 'size': n})
            for s, v, sig in steps(clean(st.fork()), key, w, 'arr_known', a, i):
                if ref is not None and not (sig and not (isinstance(i, int) and i < n)):
                    rep.check(not sig and boolean(v) is (el != 'U'), 'read', key, '%s: elementKnown is %s' % (w, 'an error' if sig else v))
            for s, v, sig in steps(clean(st.fork()), key, w, 'arr_getv', a, i):
                if ref is None or sig and not (isinstance(i, int) and i < n):
                    continue
                if sig:
                    rep.check(False, 'read', key, w + ' is an error')
                    continue
                for s2, k, sig2 in I.w(clean(s.fork()), 'v_known', v):
                    ok = not sig2 and boolean(k) is (el != 'U')
                    if ok and el != 'U':
                        g = I.w(s2, 'v_get_' + kind, v, ptr(('O', 'rd')))
                        ok = all(not x[2] and I.same(x[0], x[0].mem.get(('O', 'rd')), el) for x in g) and g != []
                    rep.check(ok, 'read', key, '%s as a generic value: not %s' % (w, 'unknown' if el == 'U' else el))
        for nm, want in (('arr_all', None if ref is None else 'U' not in ref), ('arr_any', None if ref is None else any(x != 'U' for x in ref))):
            for s, v, sig in steps(clean(st.fork()), key, what, nm, a):
                if ref is not None:
                    rep.check(not sig and boolean(v) is want, 'read', key, '%s: %s is %s' % (what, nm[4:] + 'ElementsKnown', v))
        steps(clean(st.fork()), key, what + ', then printed', 'arr_print', a, ptr(('O', 'stream')))

    def build(st, kind, pat, tag=''):
        st, a = I.one(st, 'arr_new_' + kind, len(pat))
        ref = []
        for i, p in enumerate(pat):
            v = (i % 2 == 0) if kind == 'Boolean' else mk('val', 'e%d%s' % (i, tag))
            st.mem[('O', 'tmpel')] = v
            st, _ = I.one(st, 'arr_set_' + kind, a, i, ptr(('O', 'tmpel')))
            if not p:
                st, _ = I.one(st, 'arr_unk', a, i)
            ref.append(v if p else 'U')
        return clean(st), a, tuple(ref)

    def writes(st, kind, a, ref, key, what):
        n = len(ref)
        new = True if kind == 'Boolean' else mk('val', 'new')
        for i in list(range(n)) + [n, cls(n + 1, HUGE)]:
            inr = isinstance(i, int) and i < n
            at = 'element %s of %d' % (i if isinstance(i, int) else 'index beyond', n)
            for op in ('set', 'setv', 'setv unknown', 'unk'):
                s0 = clean(st.fork())
                if op == 'set':
                    s0.mem[('O', 'new')] = new
                    args = ('arr_set_' + kind, a, i, ptr(('O', 'new')))
                elif op == 'unk':
                    args = ('arr_unk', a, i)
                else:
                    if op == 'setv':
                        x = new
                        if kind == 'String':
                            s0.mem[('O', 'new')] = new
                            x = ptr(('O', 'new'))
                        s0, v = I.one(s0, 'v_from_' + kind, x)
                    else:
                        s0, v = I.one(s0, 'v_new')
                    args = ('arr_setv', a, i, v)
                w = '%s, then %s of %s' % (what, op, at)
                outs = steps(s0, key, w, *args)
                for s, _, sig in outs:
                    want = list(ref)
                    if inr:
                        rep.check(not sig, 'write', key, w + ' is an error')
                        want[i] = new if op in ('set', 'setv') else 'U'
                    r = contents(s, kind, a)
                    rep.check(r is not None and len(r) == len(want) and all(I.same(s, x, y) for x, y in zip(r, want)), 'write', key,
                              '%s: the array is %s, not %s' % (w, r, tuple(want)), {'kind': kind, 'index': str(i), 'op': op})

    def contents(st, kind, a):
        r = []
        n = size(st, a)
        for i in range(n if isinstance(n, int) else 0):
            o = I.w(clean(st.fork()), 'arr_get_' + kind, a, i, ptr(('O', 'rd')))
            if len(o) != 1 or o[0][2] or not isinstance(o[0][1], (bool, int)):
                return None
            r.append(o[0][0].mem.get(('O', 'rd')) if o[0][1] else 'U')
        return tuple(r)

    for kind in KINDS:
        pats = [p for n in range(big + 1) for p in itertools.product((True, False), repeat=n)]
        fam = kind + 'Array'
        for pat in pats:
            st, a, ref = build(State(), kind, pat)
            what = '%s of %d (%s)' % (fam, len(pat), ' '.join('known' if p else 'unknown' for p in pat))
            reads(st, kind, a, ref, fam + '|plain', what)
            writes(st, kind, a, ref, fam + '|plain', what)
        some = [(), (True,), (False, True), (True, False, True)]
        for pat in some:
            st, a, ref = build(State(), kind, pat)
            what = '%s of %d' % (fam, len(pat))
            for m in (0, 1, 2, 4):
                for s, _, sig in steps(clean(st.fork()), fam + '|resize', '%s resized to %d' % (what, m), 'arr_resize', a, m):
                    r2 = (ref + ('U',) * m)[:m]
                    w = '%s resized to %d' % (what, m)
                    reads(clean(s), kind, a, r2, fam + '|resize', w)
                    writes(clean(s), kind, a, r2, fam + '|resize', w)
            for s, _, sig in steps(clean(st.fork()), fam + '|reset', what + ' reset', 'arr_reset', a):
                reads(clean(s), kind, a, ('U',) * len(ref), fam + '|reset', what + ' reset')
            for nm in ('copy_' + kind, 'move_' + kind, 'clone'):
                key = fam + '|' + nm.split('_')[0]
                w = '%s made by %s' % (what, nm.split('_')[0])
                for s, b, sig in steps(clean(st.fork()), key, w, 'arr_' + nm, a):
                    reads(clean(s.fork()), kind, b, ref, key, w)
                    writes(clean(s.fork()), kind, b, ref, key, w)
                    reads(clean(s.fork()), kind, a, None if 'move' in nm else ref, key + '|source', what + ', source of ' + nm.split('_')[0])
                    # the source must stay usable: set one element if it has any
                    n = size(s, a)
                    if isinstance(n, int) and n:
                        s.mem[('O', 'new')] = True if kind == 'Boolean' else mk('val', 'new')
                        steps(clean(s.fork()), key + '|source', what + ', source of ' + nm.split('_')[0] + ', written', 'arr_set_' + kind, a, n - 1, ptr(('O', 'new')))
            for pat2 in some:
                s0, b, ref2 = build(st.fork(), kind, pat2, 'b')
                for nm in ('assign_' + kind, 'massign_' + kind, 'vassign', 'vmassign'):
                    key = fam + '|' + nm.split('_')[0]
                    w = '%s assigned (%s) one of %d' % (what, nm.split('_')[0], len(pat2))
                    for s, _, sig in steps(clean(s0.fork()), key, w, 'arr_' + nm, a, b):
                        rep.check(not sig, 'write', key, w + ' is an error')
                        reads(clean(s.fork()), kind, a, ref2, key, w)
                        writes(clean(s.fork()), kind, a, ref2, key, w)
                        reads(clean(s.fork()), kind, b, None if 'mas' in nm else ref2, key + '|source', w + ', source')
                        n = size(s, b)
                        if isinstance(n, int) and n:
                            s.mem[('O', 'new')] = True if kind == 'Boolean' else mk('val', 'new')
                            steps(clean(s.fork()), key + '|source', w + ', source written', 'arr_set_' + kind, b, n - 1, ptr(('O', 'new')))
        rep.count('array families')
    seen = set(I.analysed)
    references(P, rep, seen)
    rep.fn(*[k for k in seen if not k.startswith('witness::')])


def references(P, rep, seen):
    """elements of an array variable named through references with every class of index"""
    for kind in KINDS:
        for what, n, arr, var in [('inactive array variable', None, 'off', True), ('unknown array variable', None, 'U', True)] + \
                [('array variable of %d' % n, n, 'on', True) for n in (0, 1, 2, 3)] + [('array expression of 2', 2, 'on', False)]:
            els = [] if n is None else [('U' if i == 1 else True if kind == 'Boolean' else mk('val', 'e%d' % i)) for i in range(n)]
            m = n or 0
            idxs = [('unknown', 'U'), ('negative', cls(-1 << 31, -1)), ('past the end', m), ('far past the end', cls(m + 1, (1 << 31) - 1))] + \
                [('element %d' % i, i) for i in range(m)]
            for mut in ((False, True) if var else (False,)):
                for lab, idx in idxs:
                    I = BndI(P)
                    st = State()
                    I.env = {'idx': idx, 'init': 'U', 'v1': ('U')}
                    if n is not None:
                        st, ary = I.make_array(st, kind, els)
                        I.env['v1'] = ('ary', addr_of(ary))
                    if var:
                        st, x = I.make(st, kind + 'Array')
                        if arr != 'off':
                            st, _ = I.one(st, 'x_activate', x)
                            if n is not None:
                                st, v = I.one(st, 'v_from_%sArray' % kind, ary)
                                st, _ = I.one(st, 'x_set', x, v)
                    else:
                        x = obj('v1')
                    outs = [o for o in I.w(clean(st), 'new_Element' if mut else 'new_ArrayRef', x, obj('idx')) if o[2] is None]
                    if len(outs) != 1:
                        raise AnalysisBroken('array reference cannot be built')
                    st, r = clean(outs[0][0]), outs[0][1]
                    el = els[idx] if isinstance(idx, int) and idx < m else 'U'
                    inr = isinstance(idx, int) and idx < m
                    w0 = '%s %s, index %s' % ('element' if mut else 'reference into', kind + ' ' + what, lab)
                    key = '%s|%s|%s' % ('element' if mut else 'reference', kind, lab.split()[0])

                    def steps(s, w, *args):
                        o = I.w(clean(s.fork()), *args)
                        for s2, _, _ in o:
                            for e in s2.trace:
                                if e[0] == 'bad':
                                    rep.violation('in-bounds', key, '%s, %s: accesses %s' % (w0, w, e[1]))
                            rep.ok('in-bounds')
                        if not o:
                            raise AnalysisBroken(args[0] + ' has no outcome')
                        return o

                    def dec(v):
                        return bool(v) if isinstance(v, (bool, int)) else 'undecided'
                    gs = ['get_' + kind] + (['get_Real'] if kind == 'Integer' else []) + (['get_StringPtr'] if kind == 'String' else [])
                    for g in gs:
                        for s, v, sig in steps(st, 'read', g, r, ptr(('O', 'rd'))):
                            if sig:
                                rep.check(el == 'U' and lab != 'unknown', 'read', key, '%s: reading is an error' % w0)
                                continue
                            y = s.mem.get(('O', 'rd'))
                            if g == 'get_StringPtr' and isinstance(y, Ptr):
                                y = I.load(s, y.addr, 'std::string')
                            if g == 'get_Real' and isinstance(y, T) and y[0] == 'fcast':
                                y = y[-1]
                            rep.check(dec(v) is (el != 'U') and (el == 'U' or I.same(s, y, el)), 'read', key,
                                      '%s: reads as %s, not %s' % (w0, y if dec(v) is True else dec(v) or 'unknown', 'unknown' if el == 'U' else el),
                                      {'reference': w0})
                    for s, v, sig in steps(st, 'known?', 'x_known', r):
                        rep.check(el == 'U' and lab != 'unknown' if sig else dec(v) is (el != 'U'), 'read', key, '%s: isKnown is %s' % (w0, 'an error' if sig else v))
                    for s, v, sig in steps(st, 'as a value', 'x_valuep', r):
                        if sig:
                            rep.check(el == 'U' and lab != 'unknown', 'read', key, '%s: taking its value is an error' % w0)
                            continue
                        for s2, k, _ in I.w(clean(s), 'v_known', v):
                            rep.check(dec(k) is (el != 'U'), 'read', key, '%s: its value is %s' % (w0, 'known' if k else 'unknown'))
                    steps(st, 'printed', 'x_print', r, ptr(('O', 'stream')))
                    if not mut:
                        continue
                    new = True if kind == 'Boolean' else mk('val', 'new')
                    sv = clean(st.fork())
                    sv.mem[('O', 'new')] = new
                    sv, nv = I.one(sv, 'v_from_' + kind, ptr(('O', 'new')) if kind == 'String' else new)
                    sv, uv = I.one(sv, 'v_new')
                    for op in ('set', 'set unknown value', 'setUnknown', 'save', 'save, set, restore'):
                        args = {'set': [('x_set', r, nv)], 'set unknown value': [('x_set', r, uv)], 'setUnknown': [('x_setUnknown', r)],
                                'save': [('x_save', r)]}.get(op, [('x_save', r), ('x_set', r, nv), ('x_restore', r)])
                        states = [(sv, None)]
                        for a in args:
                            states = [(s2, sig or g) for s, g in states for s2, _, sig in steps(s, op, *a)]
                        want = list(els)
                        if inr and op.startswith('set'):
                            want[idx] = new if op == 'set' else 'U'
                        for s, sig in states:
                            if sig:
                                rep.check(not inr and lab != 'unknown', 'write', key, '%s: %s is an error' % (w0, op))
                            if n is None:
                                for s2, k, g in I.w(clean(s.fork()), 'x_known', x):
                                    rep.check(not g and dec(k) is False, 'write', key, '%s: %s makes the array known' % (w0, op))
                                continue
                            for s2, k, c in I.read(clean(s.fork()), x, kind + 'Array'):
                                rep.check(k is True and len(c) == len(want) and all(I.same(s2, p, q) for p, q in zip(c, want)), 'write', key,
                                          '%s: after %s the array is %s, not %s' % (w0, op, c, tuple(want)), {'reference': w0, 'op': op})
                    seen.update(I.analysed)
        rep.count('reference families')
