"""V01: copying, moving, assigning, reading, printing and releasing a generic value does so for its own type."""
from lib_var import *
from interp import Interp, Ctx, Fn
from models import strval
from v05 import ConcI
from v04 import EN

MIN_OBLIGATIONS = 3000
VAL = 'PLEXIL::Value'
KINDS = {'Boolean': 'BOOLEAN_TYPE', 'Integer': 'INTEGER_TYPE', 'Real': 'REAL_TYPE', 'String': 'STRING_TYPE', 'chars': 'STRING_TYPE',
         'BooleanArray': 'BOOLEAN_ARRAY_TYPE', 'IntegerArray': 'INTEGER_ARRAY_TYPE', 'RealArray': 'REAL_ARRAY_TYPE',
         'StringArray': 'STRING_ARRAY_TYPE', 'NodeState': 'NODE_STATE_TYPE', 'NodeOutcome': 'OUTCOME_TYPE',
         'FailureType': 'FAILURE_TYPE', 'CommandHandleValue': 'COMMAND_HANDLE_TYPE'}
SIMPLE = ('Boolean', 'Integer', 'Real', 'NodeState', 'NodeOutcome', 'FailureType', 'CommandHandleValue')


class LifeI(ConcI):
    """tracks the heap objects a value owns: allocated, released, released twice, null or wild dereference"""
    def on_new(self, st, addr, cls, node):
        if cls != VAL and not cls.startswith('std::basic_ostringstream'):
            st.aux['live'] = st.aux.get('live', frozenset()) | {addr}
            st.aux['ever'] = st.aux.get('ever', frozenset()) | {addr}

    def on_delete(self, st, val, node):
        if not isinstance(val, Ptr):
            st.ev('bad', 'releases something that is not an object it owns (%s)' % str(val)[:50])
            return [st]
        a = val.addr
        if st.cls.get(a) == VAL:
            key = VAL + '::~Value()'
            c = Ctx(key=key, name='~Value', cls=VAL, this=val, args=[], node={'k': 'Call', 'f': key, 'ln': 0}, frame=('del', a), dyn=VAL, argnodes=[])
            st.aux['dead'] = st.aux.get('dead', frozenset()) | {a}
            return [s for s, v, sig in self.call(st, c)]
        if a in st.aux.get('live', ()):
            st.aux['live'] = st.aux['live'] - {a}
        elif a in st.aux.get('ever', ()):
            st.ev('bad', 'releases the same storage twice')
        else:
            st.ev('bad', 'releases storage it does not own')
        return [st]

    def initial(self, st, a, t):
        # bytes of an all-zero union are a null pointer
        if a[0] == 'F' and a[2] == '$p' and a[1][0] == 'F' and a[1][2] in ('stringValue', 'arrayValue'):
            u = a[1][1]
            if st.mem.get(('F', u, 'realValue')) in (0, 0.0) or \
                    st.mem.get(('F', ('F', u, 'arrayValue' if a[1][2] == 'stringValue' else 'stringValue'), '$p'), 1) == 0:
                return 0
        return Interp.initial(self, st, a, t)

    def on_stream(self, st, n, fr, this):
        return None

    def on_call(self, st, ctx):
        if ctx.name in ('operator<<', '<<'):
            v = ctx.args[-1] if ctx.args else None
            if ctx.key.startswith('std::'):
                x = v
                for _ in range(3):
                    if isinstance(x, Ptr):
                        x = strval(self, st, x)
                st.ev('out', x)
                return [(st, ctx.this if ctx.this is not None else ctx.args[0])]
        if ctx.name == 'print' and (ctx.cls or '').startswith('PLEXIL::Array') and ctx.this is not None:
            st.ev('out', ctx.this)
            return [(st, None)]
        return ConcI.on_call(self, st, ctx)


class World:
    def __init__(self, P, I):
        self.P, self.I = P, I
        self.TV = {i['n']: i['v'] for i in P.enum('ValueType')['vals']}
        self.TN = {v: k for k, v in self.TV.items()}
        self.EV = {e: {i['n']: i['v'] for i in P.enum(e)['vals']} for e in EN}
        st = State()
        self.arr = {}
        for t in ('Boolean', 'Integer', 'Real', 'String'):
            for nm, els in (('a', [mk('val', 'p'), 'U']), ('b', [mk('val', 'q')])):
                st, x = I.make_array(st, t, els)
                self.arr[t + 'Array', nm] = (x, tuple(els))
        st = clean(st)
        st.aux = {}
        self.st0 = st

    def source(self, st, kind, nm):
        """(argument, content) for constructing or assigning a value of this kind"""
        if kind.endswith('Array'):
            return self.arr[kind, nm]
        if kind in EN:
            v = self.EV[kind][EN[kind].split()[nm == 'b']]
            return v, v
        if kind == 'Boolean':
            return nm == 'a', nm == 'a'
        v = mk('val', kind + nm)
        if kind == 'String':
            a = ('O', 'src' + nm)
            st.mem[a] = v
            return ptr(a), v
        return v, v

    def make(self, st, kind, nm):
        """(state, value, (type name, known, content))"""
        if kind.startswith('unknown'):
            t = kind.split()[1]
            st, v = self.I.one(st, 'v_unk', self.TV[t])
            return st, v, (t, False, None)
        x, c = self.source(st, kind, nm)
        st, v = self.I.one(st, 'v_from_' + kind, x)
        return st, v, (KINDS[kind], True, c)

    def read(self, st, v):
        """[(state, (type, known, content) | text)] as readers see the value; content through every reader of its type"""
        I, out = self.I, []
        for s, k, sig in I.w(st, 'v_known', v):
            t = I.w(s, 'v_type', v)[0][1]
            tn = self.TN.get(t, '?') if isinstance(t, int) else '?'
            if sig or not isinstance(k, (bool, int)):
                out.append((s, 'unreadable'))
                continue
            if not k:
                out.append((s, (tn, False, None)))
                continue
            kinds = [x for x, y in KINDS.items() if y == tn and x != 'chars']
            if not kinds:
                out.append((s, 'known, but of type %s' % tn))
                continue
            kind = kinds[0]
            got = []
            rs = []
            if kind in SIMPLE or kind == 'String':
                rs.append(('v_get_' + kind, 'val'))
            if kind == 'String':
                rs.append(('v_ptr_String', 'ptr'))
            if kind.endswith('Array'):
                rs += [('v_ptr_' + kind, 'ary'), ('v_ptr_Array', 'ary')]
            for w, how in rs:
                for s2, r, sig in I.w(s, w, v, ptr(('O', 'rd'))):
                    if sig or r not in (True, 1):
                        got.append('error' if sig else 'unreadable')
                        continue
                    x = s2.mem.get(('O', 'rd'))
                    if how == 'val':
                        got.append(x)
                    elif not isinstance(x, Ptr) or x.addr in s2.aux.get('ever', ()) and x.addr not in s2.aux.get('live', ()):
                        got.append('released or null storage')
                    elif how == 'ptr':
                        y = s2.mem.get(x.addr)
                        got.append(y)
                    else:
                        try:
                            got += [c for _, c in I.array(s2, x, kind[:-5])]
                        except Broken:
                            got.append('unreadable')
            out.append((s, (tn, True, got[0]) if got and all(g == got[0] for g in got) else 'readers disagree: %s' % (got,)))
        return out


def run(P, rep):
    rep.rule('members of Value interpreted on every pair of value kinds with symbolic contents and a heap-ownership typestate: contents, '
             'type and known-ness as read through every reader, source unaffected, owned storage released exactly once, no null or '
             'foreign storage touched')
    I = LifeI(P)
    W = World(P, I)
    n = 0
    unk = ['unknown ' + t for t in ('UNKNOWN_TYPE', 'BOOLEAN_TYPE', 'STRING_TYPE', 'REAL_ARRAY_TYPE', 'REAL_TYPE', 'STRING_ARRAY_TYPE')]
    kinds = list(KINDS) + unk

    def expect(st, v, ref, key, what, moved=False):
        for s, got in W.read(st.fork(), v):
            if moved and isinstance(got, tuple) and not got[1]:
                rep.ok('ownership')
                continue
            ok = isinstance(got, tuple) and got[1] == ref[1] and (not ref[1] or got[0] == ref[0] and I.same(s, got[2], ref[2]))
            rep.check(ok, 'content', key, '%s: reads as %s, not %s' % (what, show(got), show(ref)), {'operation': what})

    def bad(s, key, what):
        for e in s.trace:
            if e[0] == 'bad':
                rep.violation('ownership', key, '%s: %s' % (what, e[1]))
        rep.ok('ownership')

    def finish(s, vs, key, what):
        """destroy the values: everything allocated must be gone"""
        states = [s.fork()]
        for v in vs:
            nxt = []
            for x in states:
                nxt += [y for y, _, sig in I.w(x, 'v_destroy', v) if not sig]
            states = nxt
        for x in states:
            for e in x.trace:
                if e[0] == 'bad':
                    rep.violation('ownership', key, '%s, then destroyed: %s' % (what, e[1]))
            rep.check(not x.aux.get('live'), 'leak', key, '%s: %d owned object(s) never released' % (what, len(x.aux.get('live', ()))))
        rep.check(states != [], 'ownership', key + '|destroy', '%s: cannot be destroyed' % what)

    def steps(st, w, *args):
        nonlocal n
        r = I.w(st, w, *args)
        n += len(r)
        return r
    for k in kinds:
        st, v, ref = W.make(W.st0.fork(), k, 'a')
        expect(st, v, ref, 'make|' + k, 'a value made from %s' % k)
        finish(st, [v], 'make|' + k, 'a value made from %s' % k)
        for op in ('copy', 'move'):
            key, what = '%s|%s' % (op, k), '%s of a %s value' % (op, k)
            for s, w, sig in steps(st, 'v_' + op, v):
                if not rep.check(sig is None, 'error', key, what + ' raises an error'):
                    continue
                bad(s, key, what)
                expect(s, w, ref, key, what)
                expect(s, v, ref, key + '|source', what + ' (the source)', moved=op == 'move')
                finish(s, [w, v], key, what)
                for s2, _, sig in steps(s, 'v_setUnknown', v):
                    rep.check(sig is None, 'error', key + '|setUnknown', what + ': making the source unknown raises an error')
                    expect(s2, w, ref, key + '|independent', what + ' after the source was made unknown')
                    finish(s2, [v, w], key + '|setUnknown', what + ', source made unknown')
        for s, _, sig in steps(st, 'v_setUnknown', v):
            expect(s, v, ('?', False, None), 'setUnknown|' + k, 'setUnknown of a %s value' % k)
            bad(s, 'setUnknown|' + k, 'setUnknown of a %s value' % k)
            finish(s, [v], 'setUnknown|' + k, 'setUnknown of a %s value' % k)
        for op in ('assign', 'moveassign'):
            key, what = '%s|self|%s' % (op, k), 'self-%s of a %s value' % (op, k)
            for s, _, sig in steps(st, 'v_' + op, v, v):
                rep.check(sig is None, 'error', key, what + ' raises an error')
                expect(s, v, ref, key, what)
                finish(s, [v], key, what)
        # print: exactly the contents (or the unknown marker) go to the stream
        for s, _, sig in steps(st, 'v_print', v, ptr(('O', 'stream'))):
            key, what = 'print|' + k, 'printing a %s value' % k
            if not rep.check(sig is None, 'error', key, what + ' raises an error'):
                continue
            o = [e[1] for e in s.trace if e[0] == 'out' and not (isinstance(e[1], (Fn, str)) and 'boolalpha' in str(e[1]))]
            if not ref[1]:
                rep.check(len(o) == 1 and isinstance(o[0], str), 'print', key, what + ' writes ' + str(o)[:80])
            elif k in EN:
                rep.check(len(o) == 1 and isinstance(o[0], str) and o[0] not in ('', '[unknown_value]'), 'print', key, what + ' writes ' + str(o)[:80])
            elif k.endswith('Array'):
                good = len([x for x in o if isinstance(x, Ptr)]) == 1
                rep.check(good, 'print', key, what + ' writes ' + str(o)[:80])
                for x in o:
                    if isinstance(x, Ptr):
                        rep.check(all(I.same(s2, c, ref[2]) for s2, c in I.array(s.fork(), x, k[:-5])), 'print', key, what + ' writes another array')
            else:
                rep.check(any(I.same(s, x, ref[2]) and type(x) == type(ref[2]) for x in o), 'print', key, what + ' writes %s' % str(o)[:80])
    # every pair: destination of one kind receives a value of another, twice over
    for d in kinds:
        for k in kinds:
            for op in ('assign', 'moveassign'):
                st, v, vref = W.make(W.st0.fork(), d, 'b')
                st, w, ref = W.make(clean(st), k, 'a')
                key, what = '%s|%s|%s' % (op, d, k), '%s to a %s value from a %s value' % (op, d, k)
                for s, _, sig in steps(clean(st), 'v_' + op, v, w):
                    if not rep.check(sig is None, 'error', key, what + ' raises an error'):
                        continue
                    bad(s, key, what)
                    expect(s, v, ref, key, what)
                    expect(s, w, ref, key + '|source', what + ' (the source)', moved=op == 'moveassign')
                    finish(s, [v, w], key, what)
                    if op == 'assign':
                        for s2, _, sig in steps(s, 'v_setUnknown', w):
                            expect(s2, v, ref, key + '|independent', what + ' after the source was made unknown')
        for k in list(KINDS):
            st, v, vref = W.make(W.st0.fork(), d, 'b')
            x, c = W.source(st, k, 'a')
            key, what = 'set|%s|%s' % (d, k), 'assigning %s to a %s value' % (k, d)
            for s, _, sig in steps(clean(st), 'v_set_' + k, v, x):
                if not rep.check(sig is None, 'error', key, what + ' raises an error'):
                    continue
                bad(s, key, what)
                expect(s, v, (KINDS[k], True, c), key, what)
                finish(s, [v], key, what)
    # an array given as a base-class reference keeps its element type
    for k in ('BooleanArray', 'IntegerArray', 'RealArray', 'StringArray'):
        x, c = W.arr[k, 'a']
        for s, v, sig in steps(W.st0.fork(), 'v_from_Array', x):
            if rep.check(sig is None, 'error', 'from Array|' + k, 'a value made from an Array that is a %s raises an error' % k):
                expect(s, v, (KINDS[k], True, c), 'from Array|' + k, 'a value made from an Array that is a ' + k)
                finish(s, [v], 'from Array|' + k, 'a value made from an Array that is a ' + k)
    # reading with the reader of another type never yields that type's value (integers may be read as reals)
    for k in KINDS:
        if k == 'chars':
            continue
        st, v, ref = W.make(W.st0.fork(), k, 'a')
        for r in [x for x in KINDS if x != 'chars' and x != k]:
            w = ('v_get_' if r in SIMPLE else 'v_ptr_') + r
            for s, g, sig in steps(st, w, v, ptr(('O', 'rd'))):
                ok = sig is not None or g in (False, 0)
                if k == 'Integer' and r == 'Real':
                    x = s.mem.get(('O', 'rd'))
                    ok = sig is None and g in (True, 1) and x == mk('fcast', 'double', ref[2])
                rep.check(ok, 'wrong reader', '%s|%s' % (k, r), 'a %s value read as %s gives %s' % (k, r, str(s.mem.get(('O', 'rd')))[:50]))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.count('operations analysed', n)
    rep.floor('operations', n, 1000)


def show(x):
    if isinstance(x, tuple) and len(x) == 3 and not isinstance(x, T):
        return '%s %s' % (x[0], str(x[2])[:70]) if x[1] else 'unknown'
    return str(x)[:120]
