"""V02: the byte form of a value, array or state reads back to an equal object, byte for byte."""
import itertools
import struct
from lib_var import *
from lib_bytes import *
from interp import Interp, Ctx
from models import strval
from v01 import LifeI, World, KINDS
from v04 import EN

MIN_OBLIGATIONS = 1500
BUF = ('O', 'buffer')
SCAL = ('Boolean', 'Integer', 'Real', 'String')
TOOBIG = 1 << 24
SWAPS = {n: w for w, ns in {2: 'htons ntohs bswap_16 builtin_bswap16', 4: 'htonl ntohl bswap_32 builtin_bswap32',
                           8: 'bswap_64 builtin_bswap64 htobe64 be64toh'}.items() for n in ns.split()}


def pun(v, t):
    """the bits of v read as type t"""
    if isinstance(v, float) and base_type(t) != 'double':
        return wrap(struct.unpack('<Q', struct.pack('<d', v))[0], t)
    if isinstance(v, int) and base_type(t) == 'double':
        return struct.unpack('<d', struct.pack('<Q', v & (1 << 64) - 1))[0]
    return v


class SerI(BytesMixin, LifeI):
    concrete_bound = 600

    def __init__(self, P):
        LifeI.__init__(self, P)
        self.unions = [{f['n']: f['t'] for f in c['fields']} for c in P.classes.values() if c.get('union') and len(c['fields']) > 1]
        self.lens = {}          # symbolic string -> its length

    def length(self, v):
        return len(v) if isinstance(v, str) else self.lens.get(v, mk('strlen', v))

    def null(self, st, addr, what):
        if not isinstance(addr, tuple) or addr[0] == 'D' and isinstance(addr[1], int) or \
                addr[0] in 'FI' and isinstance(addr[1], tuple) and addr[1][:1] == ('D',) and isinstance(addr[1][1], int):
            st.ev('bad', '%s a null pointer' % what)

    def on_load(self, st, addr, val, node):
        self.null(st, addr, 'reads through')
        return super().on_load(st, addr, val, node)

    def on_store(self, st, addr, val, node):
        self.null(st, addr, 'writes through')
        if addr[0] == 'F' and addr[1][0] == 'L':
            # the members of a union share their storage
            for u in self.unions:
                if addr[2] in u:
                    for m in u:
                        st.mem[('F', addr[1], m)] = pun(val, u[m])
        return super().on_store(st, addr, val, node)

    def chars(self, st, p):
        """string whose characters p points at, or None"""
        if isinstance(p, (str, T)) and not (isinstance(p, T) and p[0] in ('by', 'lin')):
            return p[1] if isinstance(p, T) and p[0] == 'str_begin' else p
        return None

    def blob(self, st, p, n):
        """the string formed by n characters at p"""
        if n == 0 and isinstance(n, int):
            return ''
        b = st.mem.get(p.addr) if isinstance(p, Ptr) else None
        if isinstance(b, T) and b[0] == 'blob' and b[2] == n:
            return b[1]
        s = self.chars(st, p)
        if s is not None and self.length(s) == n:
            return s
        return mk('junk', st.count('junk'))

    def put(self, st, dst, s, n, node):
        if isinstance(dst, Ptr) and self.length(s) == n:
            if n != 0:
                self.store(st, dst.addr, mk('blob', s, n), node)
        else:
            self.store(st, addr_of(dst), mk('junk', st.count('junk')), node)

    def on_call(self, st, ctx):
        nm, args = ctx.name, ctx.args
        if ctx.this is not None and (ctx.cls or '').startswith('std::basic_string<'):
            a = addr_of(ctx.this)
            if nm in ('size', 'length', 'empty'):
                v = strval(self, st, ctx.this)
                n = self.length(v)
                return [(st, n if nm != 'empty' else self.compare(st, '==', n, 0))]
            r = None
            if nm == 'replace' and len(args) == 4 and isinstance(args[0], T) and isinstance(args[1], T):
                v = strval(self, st, ctx.this)
                r = (args[2], args[3]) if args[0] == mk('str_begin', v) and args[1] == mk('str_end', v) or v == '' else None
            elif nm in ('assign', 'basic_string') and len(args) in (2, 3) and isinstance(args[0], Ptr) and not isinstance(args[1], Ptr):
                r = (args[0], args[1])
            elif nm in ('assign', 'basic_string') and len(args) in (2, 3) and isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and \
                    args[0].addr[0] == 'I' and args[1].addr[0] == 'I' and args[0].addr[1] == args[1].addr[1]:
                r = (args[0], self.arith('-', args[1].addr[2], args[0].addr[2], 'long'))
            if r:
                st.mem[a] = self.blob(st, *r)
                self.on_store(st, a, st.mem[a], ctx.node)
                return [(st, ctx.this)]
        if nm == 'resize' and (ctx.cls or '').startswith('std::vector<') and isinstance(args[0], int) and args[0] > TOOBIG:
            st.ev('bad', 'makes room for %d elements' % args[0])
            return [(st, None, ('thr', 'std::length_error', None))]
        if ctx.this is None and nm.lstrip('_') in SWAPS and len(args) == 1:
            bs = to_bytes(args[0], SWAPS[nm.lstrip('_')])
            if bs:
                return [(st, from_bytes(bs[::-1], {2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[len(bs)]))]
        if ctx.this is None and nm == 'strlen' and len(args) == 1:
            v = strval(self, st, args[0])
            return [(st, self.length(v))]
        if ctx.this is None and nm in ('memcpy', 'memmove') and len(args) == 3:
            s = self.chars(st, args[1])
            if s is not None:
                self.put(st, args[0], s, args[2], ctx.node)
            elif isinstance(args[1], Ptr) and isinstance(args[0], Ptr):
                m = args[2] if isinstance(args[2], int) and args[2] <= 16 else 0
                bs = [st.mem.get(('I', args[1].addr[1], self.arith('+', args[1].addr[2], i, 'long'))) for i in range(m)] if args[1].addr[0] == 'I' else []
                bs = [to_bytes(b, 1) for b in bs]
                if bs and None not in bs and args[0].addr[0] != 'I':
                    self.store(st, args[0].addr, from_bytes([b[0] for b in bs], {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int'}.get(m, 'unsigned long')), ctx.node)
                    return [(st, args[0])]
                v = self.load(st, args[1].addr, '')
                v = pun(v, 'unsigned long') if isinstance(v, float) else v
                bs = to_bytes(v, m) if m else None
                if bs and args[0].addr[0] == 'I':
                    for i, b in enumerate(bs):
                        self.store(st, ('I', args[0].addr[1], self.arith('+', args[0].addr[2], i, 'long')), from_bytes([b], 'char'), ctx.node)
                else:
                    self.store(st, args[0].addr, v, ctx.node)
            else:
                self.put(st, args[0], mk('junk', st.count('junk')), args[2], ctx.node)
            return [(st, args[0])]
        if ctx.this is None and nm in ('copy', 'copy_n') and len(args) == 3 and isinstance(args[0], T) and args[0][0] == 'str_begin' and \
                isinstance(args[2], Ptr):
            s = args[0][1]
            n = self.length(s) if nm == 'copy' else args[1]
            self.put(st, args[2], s, n, ctx.node)
            return [(st, ptr(('I', args[2].addr[1], self.arith('+', args[2].addr[2], n, 'long'))))]
        return super().on_call(st, ctx)


class Bytes(World):
    """sources with symbolic contents of every length and bit pattern"""
    def __init__(self, P, I):
        World.__init__(self, P, I)
        st = self.st0
        for t in SCAL:
            for nm, els in (('a', [self.content(t, 'p'), 'U', self.content(t, 'q')]), ('b', [self.content(t, 'r')])):
                st, x = I.make_array(st, t, els)
                self.arr[t + 'Array', nm] = (x, tuple(els))
        self.st0 = clean(st)

    def content(self, t, nm):
        if t == 'Boolean':
            return nm in ('a', 'p', 'r')
        if t == 'Integer':
            return sym('int' + nm, 4)
        if t == 'Real':
            return sym('real' + nm, 8)
        v = mk('val', 'text' + nm)
        self.I.lens[v] = small('len' + nm, 3, 8)
        return v

    def source(self, st, kind, nm):
        if kind in SCAL or kind == 'chars':
            v = self.content(kind, nm)
            if kind in ('String', 'chars'):
                a = ('O', 'src' + nm)
                st.mem[a] = v
                return (ptr(a) if kind == 'String' else v), v
            return v, v
        return World.source(self, st, kind, nm)


def run(P, rep):
    rep.rule('writer, size and reader interpreted on symbolic contents in a byte domain (every number is its symbolic bytes; strings have '
             'symbolic text and a symbolic length below 2^24): returned end = announced size, nothing written beyond it, reader returns the '
             'same end and the object then reads as the original, whatever the target held before; oversized text is refused without any access '
             'through a null pointer')
    I = SerI(P)
    W = Bytes(P, I)
    n = 0

    def bad(s, key, what):
        for e in s.trace:
            if e[0] == 'bad':
                rep.violation('storage', key, '%s: %s' % (what, e[1]))
        rep.ok('storage')

    def trip(st, key, what, ser, size, deser, obj, targets, read, refuse=None):
        """refuse: True = must be refused, None = must round-trip, 'may' = either"""
        nonlocal n
        n += 1
        sz = I.w(clean(st.fork()), size, obj)
        for s, v, sig in sz:
            bad(s, key, what + ', measuring')
        outs = I.w(clean(st.fork()), ser, obj, ptr(('I', BUF, 0)))
        if not outs or not sz:
            raise AnalysisBroken('%s has no outcome' % ser)
        for s, e, sig in outs:
            bad(s, key, what + ', writing')
            if sig:
                rep.check(False, 'write', key, '%s: writing raises an error' % what)
                continue
            if not isinstance(e, Ptr):
                rep.check(refuse is not None and e == 0, 'write', key, '%s: writing %s' % (what, 'is refused' if e == 0 else 'ends nowhere definite'))
                continue
            if not rep.check(refuse is not True, 'write', key, '%s: writing is not refused' % what):
                continue
            if not rep.check(e.addr[0] == 'I' and e.addr[1] == BUF, 'write', key, '%s: writing ends outside the buffer' % what):
                continue
            end = e.addr[2]
            for _, v, sg in sz:
                rep.check(not sg and v == end and type(v) == type(end), 'size', key, '%s: announced size is %s, but %s bytes are written' % (what, show(v), show(end)),
                          {'object': what})
            for k in [k for k in s.mem if k[:2] == ('I', BUF)]:
                d = I.arith('-', k[2], end, 'long') if not (isinstance(k[2], int) and isinstance(end, int)) else k[2] - end
                rep.check(not isinstance(d, int) or d < 0, 'size', key, '%s: writes at byte %s, beyond its end %s' % (what, show(k[2]), show(end)))
            for lab, mkt in targets:
                for s2, t in mkt(clean(s.fork())):
                    w = '%s read into %s' % (what, lab)
                    rs = I.w(clean(s2), deser, t, ptr(('I', BUF, 0)))
                    if not rs:
                        raise AnalysisBroken('%s has no outcome' % deser)
                    for s3, e2, sg in rs:
                        bad(s3, key, w)
                        if not rep.check(not sg and e2 == e, 'read', key, '%s: reader %s' % (w, 'raises an error' if sg else 'ends at %s, writer at %s' % (
                                show(e2.addr[2]) if isinstance(e2, Ptr) and e2.addr[0] == 'I' else e2, show(end))), {'object': w}):
                            continue
                        msg = read(clean(s3), t)
                        rep.check(msg is None, 'read', key, '%s: %s' % (w, msg), {'object': w})

    # ---- single values
    for t in SCAL + ('CommandHandleValue', 'chars'):
        cases = [('any', None)]
        if t == 'Boolean':
            cases = [('true', True), ('false', False)]
        elif t == 'CommandHandleValue':
            cases = [(k, v) for k, v in W.EV[t].items() if k not in ('NO_COMMAND_HANDLE', 'COMMAND_HANDLE_MAX')]
        elif t in ('String', 'chars'):
            big = mk('val', 'bigtext')
            I.lens[big] = TOOBIG
            cases = [('any text', W.content('String', 'x')), ('empty', ''), ('text of 2^24 characters', big)]
        else:
            cases = [('any', W.content(t, 'x'))]
            if t == 'Integer':
                cases += [('%d' % v, v) for v in (0, 1, -1, 127, 128, 255, 256, -128, -129, -256, 65535, 65536, -65536, 2 ** 31 - 1, -2 ** 31)]
        for lab, v in cases:
            st = clean(W.st0.fork())
            st.mem[('O', 'v')] = v
            obj = ptr(('O', 'v')) if t != 'chars' else v

            def target(s, t=t):
                s.mem[('O', 'w')] = {'Boolean': not v, 'String': 'old', 'chars': 'old'}.get(t, 0)
                return [(s, ptr(('O', 'w')))]

            def read(s, p, v=v):
                x = s.mem.get(p.addr)
                return None if I.same(s, x, v) and isinstance(x, bool) == isinstance(v, bool) else 'reads %s, not %s' % (show(x), show(v))
            trip(st, '%s' % t, '%s (%s)' % (t, lab), 'fs_ser_' + t, 'fs_size_' + t, 'fs_deser_' + ('String' if t == 'chars' else t),
                 obj, [('a variable', target)], read, True if '2^24' in lab else None)

    # ---- arrays
    def aread(kind, ref):
        def f(s, a):
            for s2, got in I.array(s, a, kind):
                if len(got) != len(ref):
                    return 'has %d elements, not %d' % (len(got), len(ref))
                for i, (x, y) in enumerate(zip(got, ref)):
                    if not I.same(s2, x, y):
                        return 'element %d is %s, not %s' % (i, show(x), show(y))
            return None
        return f
    big = (17, 24, 127, 128, 129, 255, 256, 257, 300) if rep.tier == 'thorough' else (17, 128, 256)
    for kind in SCAL:
        for size in tuple(range(0, 11)) + (big if rep.tier == 'thorough' or kind in ('Boolean', 'Integer') else big[1:2]):
            pats = itertools.product((True, False), repeat=size) if size <= 3 else \
                [[True] * size, [False] * size] + ([[(i == j) != neg for i in range(size)] for j in range(size) for neg in (0, 1)] if size <= 10 and (kind == 'Boolean' or rep.tier == 'thorough') else
                                                   [[i == size - 1 for i in range(size)]] if size <= 10 else
                                                   [[i % 3 == 0 for i in range(size)]])
            for pat in pats:
                st = clean(W.st0.fork())
                els = []
                for i, p in enumerate(pat):
                    v = W.content(kind, 'e%d' % i) if kind != 'Boolean' else (i * 7 + size) % 5 < 2
                    els.append(v if p else 'U')
                if kind == 'Boolean' and 3 < size <= 10:
                    j = pat.index(not pat[0]) if (not pat[0]) in pat else 0
                    els = [(i == j) != (sum(pat) > 1) if p else 'U' for i, p in enumerate(pat)]
                st, a = I.make_array(st, kind, els)
                st = clean(st)

                def fresh(s, kind=kind):
                    return [I.one(s, 'arr_new0_' + kind)]

                def older(m):
                    def f(s, kind=kind):
                        return [I.make_array(s, kind, [('U' if i % 2 else W.content(kind, 'old%d' % i)) for i in range(m)])]
                    return f
                tg = [('a new array', fresh)]
                if size <= 4:
                    tg += [('an array of 1', older(1)), ('an array of 4', older(4))]
                what = '%sArray of %d (%s)' % (kind, size, ''.join('k' if p else '-' for p in pat[:12]))
                trip(st, kind + 'Array', what, 'arr_ser', 'arr_sersize', 'arr_deser', a, tg, aread(kind, els))
            if size == 2:
                trip(st, kind + 'Array typed', what + ' by its own type', 'fs_ser_%sArray' % kind, 'fs_size_%sArray' % kind, 'fs_deser_%sArray' % kind,
                     a, tg, aread(kind, els))
        rep.count('array families')
    st = clean(W.st0.fork())
    big = mk('val', 'bigtext')
    st, a = I.make_array(st, 'String', ['x', big])
    trip(clean(st), 'StringArray', 'StringArray with a text of 2^24 characters', 'arr_ser', 'arr_sersize', 'arr_deser', a, [], None, True)

    # ---- generic values
    unk = ['unknown ' + t for t in ('UNKNOWN_TYPE', 'BOOLEAN_TYPE', 'STRING_TYPE', 'REAL_ARRAY_TYPE')]

    def vread(ref):
        def f(s, v):
            for s2, got in W.read(s, v):
                if not (isinstance(got, tuple) and got[1] == ref[1] and (not ref[1] or got[0] == ref[0] and I.same(s2, got[2], ref[2]))):
                    return 'is %s, not %s' % (show(got), show(ref))
            return None
        return f

    def other(k):
        def f(s):
            s, v, _ = W.make(s, k, 'b')
            return [(s, v)]
        return f
    for k in list(KINDS) + unk:
        st, v, ref = W.make(W.st0.fork(), k, 'a')
        trip(clean(st), 'Value|' + k, '%s value' % k, 'v_ser', 'v_sersize', 'v_deser', v,
             [('a %s value' % d, other(d)) for d in list(KINDS) + unk], vread(ref),
             'may' if k in ('NodeState', 'NodeOutcome', 'FailureType') else None)
    # ---- states
    pk = [k for k in KINDS if k not in ('NodeState', 'NodeOutcome', 'FailureType', 'chars')] + ['unknown REAL_TYPE']

    def state(s, name, params):
        s, x = I.one(s, 's_new', name, len(params))
        refs = []
        for i, (k, nm) in enumerate(params):
            s, v, ref = W.make(s, k, nm)
            s, _ = I.one(s, 's_setParam', x, i, v)
            refs.append(ref)
        return clean(s), x, refs

    def sread(name, refs):
        def f(s, x):
            s1, p = I.one(s.fork(), 's_name', x)
            if not I.same(s1, strval(I, s1, p), name):
                return 'is named %s, not %s' % (show(strval(I, s1, p)), show(name))
            s1, c = I.one(s1, 's_count', x)
            if c != len(refs):
                return 'has %s parameters, not %d' % (c, len(refs))
            for i, ref in enumerate(refs):
                s2, p = I.one(s1.fork(), 's_param', x, i)
                m = vread(ref)(clean(s2), p)
                if m:
                    return 'parameter %d %s' % (i, m)
            return None
        return f
    lists = [[]] + [[(k, 'a')] for k in pk] + [[(k, 'a'), (m, 'b')] for k, m in zip(pk, pk[3:] + pk[:3])] + \
        [[('Integer', 'a'), ('unknown REAL_TYPE', 'a'), ('String', 'b')]] + [[('Boolean', 'ab'[i % 2]) for i in range(m)] for m in (128, 256)[:1 + (rep.tier == 'thorough')]]
    for name in (W.content('String', 'n'), ''):
        for params in lists if name else lists[:2]:
            st, x, refs = state(clean(W.st0.fork()), name, params)

            def tgt(ps):
                def f(s):
                    s, y, _ = state(s, 'old', ps)
                    return [(s, y)]
                return f
            trip(st, 'State', 'state of %s with parameters %s' % (show(name), ', '.join(k for k, _ in params[:4])), 's_ser', 's_sersize', 's_deser', x,
                 [('a new state', tgt([])), ('a state of two', tgt([('Real', 'b'), ('StringArray', 'b')]))] if len(params) < 4 else [('a new state', tgt([]))],
                 sread(name, refs))
    st, x, refs = state(clean(W.st0.fork()), big, [('Integer', 'a')])
    trip(st, 'State', 'state with a name of 2^24 characters', 's_ser', 's_sersize', 's_deser', x, [], None, True)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.count('objects', n)
    rep.floor('objects', n, 150)


def show(x):
    if isinstance(x, tuple) and len(x) == 3 and not isinstance(x, T):
        return '%s %s' % (x[0], str(x[2])[:70]) if x[1] else 'unknown'
    return str(x)[:120]
