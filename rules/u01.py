"""U01: datagrams are laid out as their definition says, inside a buffer of the declared size, and decode to what was encoded."""
import re
import struct
import par
from itertools import product
from lib_xml import *
from lib_value import U, VAL
from interp import INT_BITS, base_type, wrap, RefBind, Fn
from models import strval

MIN_OBLIGATIONS = 1500
UDP = 'PLEXIL::UdpAdapter'
SWAPS = {n: w for w, ns in {2: 'htons ntohs bswap_16 builtin_bswap16', 4: 'htonl ntohl bswap_32 builtin_bswap32'}.items() for n in ns.split()}
SIZES = {'int': (2, 4), 'float': (4,), 'bool': (1, 2, 4), 'string': (1, 3, 5)}
VT = {'int': 'INTEGER', 'float': 'REAL', 'bool': 'BOOLEAN', 'string': 'STRING'}
CPP = {'int': 'int', 'bool': 'bool', 'float': 'double', 'string': STR if 'STR' in globals() else 'std::string'}
ARR = {'int': 'PLEXIL::ArrayImpl<int>', 'float': 'PLEXIL::ArrayImpl<double>', 'bool': 'PLEXIL::ArrayImpl<bool>',
       'string': 'PLEXIL::ArrayImpl<std::basic_string<char, std::char_traits<char>, std::allocator<char>>>'}


def size_of(t):
    t = base_type(t)
    return INT_BITS[t][0] // 8 if t in INT_BITS else {'float': 4, 'double': 8}.get(t)


def as_bytes(v, n):
    if isinstance(v, bool) or isinstance(v, int):
        return [(int(v) >> 8 * i) & 255 for i in range(n)]
    if isinstance(v, float):
        return list(struct.pack('<d' if n == 8 else '<f', v))
    return None


def of_bytes(bs, t):
    t = base_type(t)
    if t in ('float', 'double'):
        return struct.unpack('<f' if t == 'float' else '<d', bytes(bs))[0]
    return wrap(sum(b << 8 * i for i, b in enumerate(bs)), t)


class UdpI(XI):
    """byte buffers are cells of known number; scalars can be reached byte by byte"""
    concrete_bound = 400
    run_statics = False

    def __init__(self, P):
        XI.__init__(self, P)
        self.vts = {v['n']: v['v'] for v in P.enum('ValueType')['vals']}
        self.vnames = {v: k for k, v in self.vts.items()}

    # ------------------------------------------------------------ bytes
    def cap(self, st, a):
        return st.mem.get(('F', a, '$cap')) if isinstance(a, tuple) else None

    def spot(self, p):
        """(object, offset) a byte pointer denotes"""
        a = addr_of(p)
        if a[0] == 'I' and isinstance(a[2], int):
            return a[1], a[2]
        return a, 0

    def inside(self, st, a, write):
        if a[0] == 'I' and self.cap(st, a[1]) is not None:
            if not (isinstance(a[2], int) and 0 <= a[2] < self.cap(st, a[1])):
                st.ev('bad', '%s byte %s of a buffer of %d' % ('writes' if write else 'reads', a[2], self.cap(st, a[1])))
                return False
        return True

    def getb(self, st, base, k):
        a = ('I', base, k)
        if self.cap(st, base) is not None:
            return self.load(st, a, 'unsigned char')
        if a in st.mem:
            return st.mem[a] & 255 if isinstance(st.mem[a], int) else None
        v = st.mem.get(base)
        if isinstance(v, RefBind):
            b, o = self.spot(v[0])
            return self.getb(st, b, o + k)
        bs = as_bytes(v, 8 if k > 3 else 4)
        return bs[k] if bs else None

    def setb(self, st, base, k, b, node=None):
        if b is None:
            b = mk('junk', st.count('junk'))
        self.store(st, ('I', base, k), b, node)

    def move(self, st, d, s, n, node=None):
        if not isinstance(n, int):
            raise Broken('a copy of an undecided number of bytes')
        if isinstance(s, str) and not isinstance(s, T):
            bs = [ord(c) & 255 for c in s[:n]] + [0] * (n - len(s) if n > len(s) else 0)
            if n > len(s) + 1:
                st.ev('bad', 'copies %d characters of a string of %d' % (n, len(s)))
        else:
            b, k = self.spot(s)
            bs = [self.getb(st, b, k + i) for i in range(n)]
        b, k = self.spot(d)
        for i, x in enumerate(bs):
            self.setb(st, b, k + i, x, node)

    def on_store(self, st, addr, val, node):
        if addr[0] == 'I' and self.cap(st, addr[1]) is not None:
            if self.inside(st, addr, True) and isinstance(val, int):
                st.mem[addr] = int(val) & 255
        elif addr[0] != 'I':
            for i in range(8):
                st.mem.pop(('I', addr, i), None)
        XI.on_store(self, st, addr, val, node)

    def on_load(self, st, addr, val, node):
        t = base_type((node or {}).get('t', ''))
        if addr[0] == 'I' and self.cap(st, addr[1]) is not None:
            if not self.inside(st, addr, False):
                return 0
            if not isinstance(val, int):
                st.ev('bad', 'uses byte %s, which was never set' % (addr[2],))
                return 0
            w = size_of(t) if t in INT_BITS else 1
            if w == 1:
                return wrap(val, t) if t in INT_BITS else val
            return of_bytes([self.getb(st, addr[1], addr[2] + i) for i in range(w)], t)
        if ('I', addr, 0) in st.mem and size_of(t) and addr[0] == 'L':
            bs = [st.mem.get(('I', addr, i)) for i in range(size_of(t))]
            if all(isinstance(b, int) for b in bs):
                return of_bytes([b & 255 for b in bs], t)
        if isinstance(val, float) and t in INT_BITS and t != 'bool':
            return of_bytes(as_bytes(val, size_of(t)), t)
        if isinstance(val, int) and not isinstance(val, bool) and t in ('float', 'double'):
            return of_bytes(as_bytes(val, size_of(t)), t)
        return XI.on_load(self, st, addr, val, node)

    def e_New(self, n, st, fr, this):
        k = None
        if n.get('size'):
            rs = self.ev(n['size'], st.fork(), fr, this)
            k = rs[0][1] if len(rs) == 1 else None
        out = XI.e_New(self, n, st, fr, this)
        if isinstance(k, int):
            for s, v, g in out:
                if isinstance(v, Ptr) and g is None:
                    if k < 0:
                        s.ev('bad', 'makes a buffer of %d bytes' % k)
                    s.mem[('F', v.addr, '$cap')] = k
                    s.ev('buffer', v, k)
        return out

    # ------------------------------------------------------------ calls
    def attr_call(self, st, ctx, p):
        nm = ctx.name
        if nm in ('as_uint', 'as_int'):
            if p is None:
                return [(st, ctx.args[0] if ctx.args else 0)]
            m = re.match(r'[ \t\n]*([-+]?)(?:0[xX]([0-9a-fA-F]+)|(\d+))', p[2])
            v = (int(m.group(2), 16) if m.group(2) else int(m.group(3))) if m else 0
            v = -v if m and m.group(1) == '-' else v
            lo, hi = (0, 2 ** 32 - 1) if nm == 'as_uint' else (-2 ** 31, 2 ** 31 - 1)
            return [(st, max(lo, min(hi, v)))]
        if nm == 'as_string' and p is None and ctx.args:
            return [(st, ctx.args[0])]
        return XI.attr_call(self, st, ctx, p)

    def on_call(self, st, ctx):
        nm, this, args, cls = ctx.name, ctx.this, ctx.args, ctx.cls or ''
        if not cls and nm.lstrip('_') in SWAPS and len(args) == 1 and isinstance(args[0], int):
            w = SWAPS[nm.lstrip('_')]
            return [(st, of_bytes(as_bytes(args[0], w)[::-1], {2: 'unsigned short', 4: 'unsigned int'}[w]))]
        if this is None and nm in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove') and len(args) == 3:
            self.move(st, *args, ctx.node)
            return [(st, args[0])]
        if this is None and nm in ('memset', 'bzero', '__builtin_memset'):
            n = args[-1]
            if isinstance(n, int):
                b, k = self.spot(args[0])
                for i in range(min(n, 70000)):
                    self.setb(st, b, k + i, args[1] & 255 if nm != 'bzero' else 0, ctx.node)
                return [(st, args[0])]
        if this is None and nm in ('copy', 'copy_n') and len(args) == 3 and isinstance(args[0], T) and args[0][0] == 'str_begin' and isinstance(args[0][1], str):
            n = len(args[0][1]) if nm == 'copy' else args[1]
            self.move(st, args[2], args[0][1], n, ctx.node)
            b, k = self.spot(args[2])
            return [(st, ptr(('I', b, k + n)))]
        if cls.startswith('std::basic_string<') and this is not None:
            v = strval(self, st, this)
            xs = [strval(self, st, x) for x in args] if nm in ('compare', 'find', 'rfind') else []
            if nm in ('find', 'rfind') and xs and isinstance(xs[0], int) and isinstance(v, str):
                xs[0] = chr(xs[0] & 255)
            if nm == 'resize' and isinstance(v, str) and isinstance(args[0], int):
                self.store(st, addr_of(this), v[:args[0]] + (chr(args[1] & 255) if len(args) > 1 and isinstance(args[1], int) else chr(0)) * (args[0] - len(v)), ctx.node)
                return [(st, None)]
            if nm in ('substr', 'erase') and isinstance(v, str) and args and all(isinstance(x, int) for x in args):
                a, n = args[0], args[1] if len(args) > 1 else 2 ** 63
                if nm == 'substr':
                    return [(st, v[a:a + n])]
                self.store(st, addr_of(this), v[:a] + v[a + n:], ctx.node)
                return [(st, this)]
            if isinstance(v, str) and xs and isinstance(xs[0], str) and not isinstance(xs[0], T):
                if nm == 'compare' and len(xs) == 1:
                    return [(st, (v > xs[0]) - (v < xs[0]))]
                if nm in ('find', 'rfind') and len(xs) <= 2 and (len(xs) < 2 or isinstance(xs[1], int)):
                    i = getattr(v, nm)(xs[0], *([xs[1]] if len(xs) == 2 and nm == 'find' else []))
                    return [(st, i if i >= 0 else 2 ** 64 - 1)]
            if nm == 'copy' and isinstance(v, str):
                pos = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
                n = max(0, min(args[1], len(v) - pos))
                self.move(st, args[0], v[pos:pos + n], n, ctx.node)
                return [(st, n)]
            if nm in ('operator+=', 'push_back') and len(args) == 1 and isinstance(args[0], int) and isinstance(v, str):
                self.store(st, addr_of(this), v + chr(args[0] & 255), ctx.node)
                return [(st, this)]
            if (nm in ('append', 'assign') or (ctx.node or {}).get('k') == 'Construct') and len(args) >= 2 and isinstance(args[0], Ptr) and isinstance(args[1], int) and not isinstance(st.mem.get(args[0].addr), str):
                b, k = self.spot(args[0])
                bs = [self.getb(st, b, k + i) for i in range(args[1])]
                self.store(st, addr_of(this), (v if nm == 'append' and isinstance(v, str) else '') + ''.join(chr(x or 0) for x in bs), ctx.node)
                return [(st, this)]
        if this is None and nm in ('strnlen', 'strlen', 'memchr') and args and isinstance(args[0], Ptr):
            b, k = self.spot(args[0])
            n = args[-1] if nm != 'strlen' else 10 ** 6
            i = 0
            while i < n:
                x = self.getb(st, b, k + i)
                if x == (args[1] & 255 if nm == 'memchr' else 0) or st.trace and st.trace[-1][0] == 'bad':
                    break
                i += 1
            if nm == 'memchr':
                return [(st, ptr(('I', b, k + i)) if i < n else 0)]
            return [(st, i)]
        if cls == VAL and isinstance(this, Ptr):
            if nm == 'valueType' and ('F', this.addr, '$vt') in st.mem:
                return [(st, st.mem[('F', this.addr, '$vt')])]
            if nm == 'Value' and len(args) == 1:
                t = base_type((ctx.argnodes[0] or {}).get('t', '').replace('&', '')) if ctx.argnodes else ''
                a = args[0].addr if isinstance(args[0], Ptr) else None
                if t == VAL:
                    vt = st.mem.get(('F', a, '$vt'))
                else:
                    vt = next((self.vts[VT[k] + '_TYPE'] for k in CPP if t == CPP[k] or k == 'string' and 'basic_string' in t and 'Array' not in t), None)
                    vt = next((self.vts[VT[k] + '_ARRAY_TYPE'] for k in ARR if t == ARR[k]), vt)
                r = XI.on_call(self, st, ctx)
                if vt is not None:
                    st.mem[('F', addr_of(this), '$vt')] = vt
                return r
        if cls == 'PLEXIL::MessageQueueMap':
            if nm == 'addMessage' and len(args) == 2:
                v = self.vraw(st, args[1])
                st.ev('value', strval(self, st, args[0]), st.mem.get(('F', addr_of(args[1]), '$vt')), v)
            else:
                st.ev('queue', nm)
            return [(st, None)]
        if nm == 'send_message_connect' and not cls:
            b, k = self.spot(args[2])
            n = args[3]
            st.ev('send', strval(self, st, args[0]), args[1], tuple(self.getb(st, b, k + i) for i in range(n)) if isinstance(n, int) and n <= 70000 else n)
            return [(st, n)]
        if isinstance(this, Ptr) and this.addr[0] == 'O' and this.addr[1] == 'intf':
            st.ev('intf', nm, *[a for a in args if isinstance(a, int)])
            return [(st, None)]
        if isinstance(this, Ptr) and this.addr == ('O', 'cmd'):
            return [(st, ptr(('O', 'vals')) if nm == 'getArgValues' else ptr(('O', 'cname')))]
        if isinstance(this, Ptr) and this.addr == ('O', 'loop'):
            st.ev('loop', nm, *args)
            return [(st, True)]
        if nm in ('lock', 'unlock', 'lock_guard', '~lock_guard', 'unique_lock'):
            return [(st, this)]
        if this is None and nm == 'recvfrom':
            b, k = self.spot(args[1])
            st.ev('recv', args[1], args[2], self.cap(st, b) if k == 0 else None)
            return [(st, st.aux.get('received', 1))]
        return XI.on_call(self, st, ctx)

    def on_delete(self, st, val, node):
        st.ev('delete', val)


CHR = 'unsigned char'
THIS = ptr(('O', 'udp'))


def defn(name, params, **attrs):
    a = dict(name=name, peer='there', local_port='1000', peer_port='2000')
    a.update(attrs)
    return E('Message', *[E('Parameter', **p) for p in params], **a)


def param(t, size, n=None):
    d = dict(type=t + ('-array' if n is not None else ''), bytes=str(size))
    if n is not None:
        d['elements'] = str(n)
    return d


class W:
    """one adapter with one message definition"""
    def __init__(self, I):
        self.I, P = I, I.P
        fs = {n: [f for f in P.fns.values() if f.get('cls') == UDP and f['n'] == n and f.get('body') is not None] for n in
              ('parseMessageDefinition', 'buildUdpBuffer', 'handleUdpMessage', 'executeDefaultCommand', 'startUdpMessageReceiver')}
        for n, l in fs.items():
            if len(l) != 1:
                raise AnalysisBroken('%d definitions of %s::%s' % (len(l), UDP, n))
        self.f = {n: l[0] for n, l in fs.items()}
        self.map = [f for c, f in P.all_fields(UDP)]
        self.aget = {}

    def fresh(self):
        st = State()
        st.cls[THIS.addr] = UDP
        for f in self.map:
            a = ('F', THIS.addr, f['n'])
            if f['t'].startswith('bool') or f['t'] in ('unsigned int', 'unsigned short', 'in_port_t', 'int'):
                st.mem[a] = 0
            elif f['t'].startswith('std::string') or 'basic_string' in f['t'].split('<')[0]:
                st.mem[a] = ''
            elif 'MessageMap' in f['t'] or f['t'].startswith('std::map<'):
                st.mem[('F', a, '$keys')] = ()
            elif 'unique_ptr' in f['t'] and 'EventLoop' in f['t'] or 'EventLoopPtr' in f['t']:
                st.mem[('F', a, '$p')] = ptr(('O', 'loop'))
        st.mem[('O', 'cname')] = 'm'
        return st

    def define(self, d):
        """(state, message) or None when refused"""
        I = self.I
        I.doc = (d,)
        st = self.fresh()
        outs = I.start(self.f['parseMessageDefinition'], st, THIS, [I.doc_node(st, (0,))])
        if len(outs) != 1:
            raise AnalysisBroken('the outcome of a message definition is not decided: %d' % len(outs))
        s, v, g = outs[0]
        if g is not None or not v:
            return s, None
        ks = [k[1] for k, x in s.mem.items() if k[0] == 'F' and k[2] == '$keys' and x == ('m',)]
        if len(ks) != 1:
            raise AnalysisBroken('the message definition was not recorded')
        e = ('I', ks[0], ('key', 'm'))
        m = ('F', e, 'second')
        return clean(s), ptr(m if any(k[0] == 'F' and k[1] == m for k in s.mem) else e)

    def args(self, st, a, vals):
        """values (kind, count or None, content) as a vector at a"""
        I = self.I
        st.mem[('F', a, '$len')] = len(vals)
        for i, (k, n, v) in enumerate(vals):
            e = ('I', a, i)
            st.mem[('F', e, '$vt')] = I.vts[VT[k] + ('_ARRAY' if n is not None else '') + '_TYPE']
            if v is U:
                I.vset(st, e, U)
            elif n is None:
                I.vset(st, e, v)
            else:
                b = ('O', 'array', i)
                st.cls[b] = ARR[k]
                fs = {f['n']: f['t'] for c, f in I.P.all_fields(ARR[k])}
                for fn in fs:
                    c = ('F', b, fn)
                    st.mem[('F', c, '$len')] = len(v)
                    for j, x in enumerate(v):
                        st.mem[('I', c, j)] = (x is not U) if 'nown' in fn else ({'int': 0, 'float': 0.0, 'bool': False, 'string': ''}[k] if x is U else x)
                I.vset(st, e, ptr(b))
        return ptr(a)

    def contents(self, st, k, v):
        """elements of the array object v, U for unknown ones"""
        b = addr_of(v)
        out = []
        fs = {('nown' in f['n']): ('F', b, f['n']) for c, f in self.I.P.all_fields(ARR[k])}
        n = st.mem.get(('F', fs[False], '$len'))
        for j in range(n if isinstance(n, int) else 0):
            kn = self.I.load(st, ('I', fs[True], j), 'bool')
            out.append(self.I.load(st, ('I', fs[False], j), CPP[k]) if kn is True or kn == 1 else U)
        return out


def clean(st):
    st.trace = ()
    return st


def wire(k, size, v):
    if k == 'string':
        return [ord(c) for c in v] + [0] * (size - len(v))
    if k == 'float':
        return list(struct.pack('>f', v))
    return [(int(v) >> 8 * i) & 255 for i in reversed(range(size))]


def trip(v, k):
    return struct.unpack('>f', struct.pack('>f', v))[0] if k == 'float' else v


def same(a, b, k):
    if isinstance(a, str) or isinstance(b, str):
        return a is not U and b is not U and a == b
    return isinstance(a, (int, float)) and a == b and (k != 'float' or isinstance(a, float))


VALS = {('int', 2): (0, 1, -1, 258, 32767, -32768), ('int', 4): (0, 1, -2, 16909060, 2147483647, -2147483648),
        ('float', 4): (0.0, 1.0, -2.5, 0.1, 3.4028234663852886e+38, 1e-40), 'bool': (True, False), 'string': ('', 'a', '\xe9')}


def values(k, size):
    v = VALS.get((k, size)) or VALS[k]
    return tuple(v) + (tuple(x for x in ('a' * size, 'b' * (size - 1))) if k == 'string' else ())


def describe(ps):
    return ' + '.join('%s%d%s' % (k, s, '' if n is None else '[%d]' % n) for k, s, n in ps)


def roundtrip(w, rep, ps, vals, send=False):
    """one message definition, one list of values"""
    I = w.I
    lab = describe(ps)
    st, m = w.define(defn('m', [param(*p) for p in ps]))
    if not rep.check(m is not None, 'defined', lab, 'the message definition %s is refused' % lab):
        return
    length = sum(s * (1 if n is None else n) for k, s, n in ps)
    want = []
    for (k, s, n), v in zip(ps, vals):
        for x in ([v] if n is None else v):
            want += wire(k, s, x)
    args = w.args(st, ('O', 'vals'), [(k, n, v) for (k, s, n), v in zip(ps, vals)])
    if send:
        outs = I.start(w.f['executeDefaultCommand'], st, THIS, [ptr(('O', 'cmd')), ptr(('O', 'intf'))])
        for s, v, g in outs:
            sent = [e for e in s.trace if e[0] == 'send']
            bufs = [e[1] for e in s.trace if e[0] == 'buffer']
            dels = [e[1] for e in s.trace if e[0] == 'delete']
            rep.check(g is None and len(sent) == 1 and sent[0][3] == tuple(want) and sent[0][1:3] == ('there', 2000), 'sent', lab,
                      'sending %s with %s sends %s, not %s' % (lab, vals, [e[1:] for e in sent], want))
            rep.check(sorted(map(repr, bufs)) == sorted(map(repr, dels)), 'sent', 'buffer', 'the buffer of %s is not released exactly once' % lab)
            bad(rep, s, 'sent', lab, vals)
        return
    buf = ('O', 'buf')
    st.mem[('F', buf, '$cap')] = length
    for i in range(length):
        st.mem[('I', buf, i)] = 0
    outs = I.start(w.f['buildUdpBuffer'], st, THIS, [ptr(buf), m, args, 0, 0])
    for s, v, g in outs:
        got = [s.mem.get(('I', buf, i)) for i in range(length)]
        rep.check(g is None and isinstance(v, int) and v >= 0 and got == want, 'layout', lab, 'encoding %s of %s gives %s instead of %s (returns %s)' % (vals, lab, got, want, v))
        bad(rep, s, 'layout', lab, vals)
    # decode the expected bytes
    st, m = w.define(defn('m', [param(*p) for p in ps]))
    st.mem[('F', buf, '$cap')] = length
    for i, b in enumerate(want):
        st.mem[('I', buf, i)] = b
    outs = I.start(w.f['handleUdpMessage'], st, THIS, [m, ptr(buf), length])
    for s, v, g in outs:
        got = [(e[2], e[3]) for e in s.trace if e[0] == 'value']
        # the first is the label under which the parameters are asked for
        ok = g is None and v == 0 and len(got) == len(ps) + 1 and got[0][0] == I.vts['STRING_TYPE']
        got = got[1:]
        for (k, sz, n), x, (vt, y) in zip(ps, vals, got):
            name = VT[k] + ('_ARRAY' if n is not None else '') + '_TYPE'
            ok = ok and vt == I.vts[name]
            if n is None:
                ok = ok and same(y, trip(x, k), k)
            else:
                c = w.contents(s, k, y) if isinstance(y, Ptr) else []
                got = c
                ok = ok and len(c) == n and all(same(a, trip(b, k), k) for a, b in zip(c, x))
        rep.check(ok, 'decoded', lab, 'decoding %s of %s gives %s %s' % (vals, lab, got, g or ''))
        bad(rep, s, 'decoded', lab, vals)


def bad(rep, s, rule, lab, vals):
    b = [e[1] for e in s.trace if e[0] == 'bad']
    rep.check(not b, rule, 'bounds|' + lab.split(' ')[0], '%s of %s: %s' % (lab, vals, b[:1]))


def kinds():
    for k in SIZES:
        for s in SIZES[k]:
            yield k, s, None
            for n in (1, 2, 3):
                yield k, s, n


def some(k, s, n, i=0):
    v = values(k, s)
    if n is None:
        return v[i % len(v)]
    return tuple(v[(i + j) % len(v)] for j in range(n))


def singles(I, rep, k):
    I.part = 'single'
    w = W(I)
    for p in kinds():
        if p[0] == k:
            for i in range(len(values(*p[:2]))):
                roundtrip(w, rep, [p], [some(*p, i)])


def pairs(I, rep, k, deep):
    w = W(I)
    ks = [p for p in kinds() if deep or p[2] in (None, 2)]
    for p, q in product([p for p in ks if p[0] == k], ks):
        ps = [p, q, ('bool', 1, None)]
        roundtrip(w, rep, ps, [some(*p, 1), some(*q, 2), True])


def sends(I, rep):
    w = W(I)
    head = ('string', 4, None)
    for p in kinds():
        roundtrip(w, rep, [head, p, head], ['id', some(*p, 1), 'x'], send=True)
    # what can not be encoded is not sent
    for p, v, why in refusals():
        st, m = w.define(defn('m', [param(*head), param(*p)]))
        if m is None:
            continue
        w.args(st, ('O', 'vals'), [('string', None, 'id'), v])
        for s, r, g in I.start(w.f['executeDefaultCommand'], st, THIS, [ptr(('O', 'cmd')), ptr(('O', 'intf'))]):
            rep.check(g is None and not any(e[0] == 'send' for e in s.trace), 'refused', 'sent ' + why, 'a datagram of %s is sent although its value is %s' % (describe([p]), why))
            bufs = [e[1] for e in s.trace if e[0] == 'buffer']
            dels = [e[1] for e in s.trace if e[0] == 'delete']
            rep.check(sorted(map(repr, bufs)) == sorted(map(repr, dels)), 'refused', 'buffer', 'the buffer of %s, whose value is %s, is not released exactly once' % (describe([p]), why))
            bad(rep, s, 'refused', describe([p]), why)


def refusals():
    for p in kinds():
        k, s, n = p
        yield p, (k, n, U), 'unknown'
        for o in SIZES:
            if o != k:
                yield p, (o, n, some(o, 4 if o in ('int', 'float') else SIZES[o][0], n)), 'of another type'
        yield p, (k, 2 if n is None else None, some(k, s, 2 if n is None else None)), 'an array instead of a scalar or the reverse'
        if n is not None:
            for d in (-1, 1, 2):
                if n + d >= 0:
                    yield p, (k, n + d, some(k, s, n + d)), 'an array of another size'
            for i in range(n):
                v = list(some(k, s, n))
                v[i] = U
                yield p, (k, n, tuple(v)), 'partly unknown'
        big = {'string': ['c' * (s + 1), 'c' * (s + 9)], 'float': [1e39, -1e39, float('inf')], 'int': [32768, -32769, 65536, 2 ** 31 - 1, -2 ** 31] if s == 2 else []}.get(k, [])
        for b in big:
            if n is None:
                yield p, (k, None, b), 'too big'
            else:
                for i in range(n):
                    v = list(some(k, s, n))
                    v[i] = b
                    yield p, (k, n, tuple(v)), 'too big'


def refuse(I, rep):
    """nothing is written outside the buffer, and encoding fails, for values the definition has no room for"""
    w = W(I)
    cache = {}
    for p, v, why in refusals():
        lab = describe([p])
        st, m = w.define(defn('m', [param(*p)]))
        if not rep.check(m is not None, 'defined', lab, 'the message definition %s is refused' % lab):
            continue
        length = p[1] * (1 if p[2] is None else p[2])
        buf = ('O', 'buf')
        st.mem[('F', buf, '$cap')] = length
        for s, r, g in I.start(w.f['buildUdpBuffer'], st, THIS, [ptr(buf), m, w.args(st, ('O', 'vals'), [v]), 0, 0]):
            rep.check(g is None and isinstance(r, int) and r < 0, 'refused', '%s|%s' % (p[0], why), 'a value for %s that is %s is encoded: %s' % (lab, why, v[2]))
            bad(rep, s, 'refused', lab, v[2])
    # datagrams that are not all there
    for ps in ([('int', 4, None)], [('bool', 1, None), ('string', 5, None)], [('int', 2, 3)], [('string', 3, 2), ('float', 4, None)], [('float', 4, 2)], [('bool', 2, 2)]):
        length = sum(s * (n or 1) for k, s, n in ps)
        for part in range(length):
            st, m = w.define(defn('m', [param(*p) for p in ps]))
            buf = ('O', 'buf')
            st.mem[('F', buf, '$cap')] = length
            for i in range(part):
                st.mem[('I', buf, i)] = 65
            for s, r, g in I.start(w.f['handleUdpMessage'], st, THIS, [m, ptr(buf), part]):
                rep.check(g is None and not any(e[0] in ('value', 'queue') for e in s.trace), 'refused', 'short', '%d of the %d bytes of %s are passed on as a message' % (part, length, describe(ps)))
                bad(rep, s, 'refused', describe(ps), '%d bytes' % part)
    # number of arguments
    for nd, na in product(range(0, 4), repeat=2):
        if nd == na:
            continue
        st, m = w.define(defn('m', [param('int', 4)] * nd))
        buf = ('O', 'buf')
        st.mem[('F', buf, '$cap')] = 4 * nd
        for s, r, g in I.start(w.f['buildUdpBuffer'], st, THIS, [ptr(buf), m, w.args(st, ('O', 'vals'), [('int', None, 7)] * na), 0, 0]):
            rep.check(g is None and isinstance(r, int) and r < 0, 'refused', 'count', '%d values are encoded for %d parameters' % (na, nd))
            bad(rep, s, 'refused', 'count', na)


def definitions(I, rep):
    """definitions no datagram can follow are refused, and accepted ones have the length of their parts"""
    w = W(I)
    ok = param('int', 4)

    def no(what, d):
        s, m = w.define(d)
        rep.check(m is None, 'definitions', what, 'a message definition with %s is accepted' % what)
    for k in list(SIZES) + ['date', '']:
        for a, b in product(('', '-array'), ('0', '1', '2', '3', '4', '8', '-4', 'x', None)):
            n = int(b) if b and b.isdigit() else 0
            fits = k in SIZES and n > 0 and (k == 'string' or n in {'int': (2, 4), 'float': (2, 4), 'bool': (1, 2, 4)}[k])
            p = {'type': k + a}
            if b is not None:
                p['bytes'] = b
            if a:
                p['elements'] = '2'
            if not fits:
                no('%s of %s bytes' % (k + a or 'an empty type', b), defn('m', [ok, p]))
    for e in ('0', '-1', 'x', None):
        p = param('int', 4, 1)
        p.pop('elements') if e is None else p.update(elements=e)
        no('an array of %s elements' % e, defn('m', [p]))
    no('elements of a scalar', defn('m', [dict(param('int', 4), elements='2')]))
    p = dict(param('int', 4))
    p.pop('type')
    no('a parameter without type', defn('m', [p]))
    # more than any buffer: the total must not wrap around
    for ps in ([('string', 65536, 65536)], [('int', 4, None), ('string', 65536, 65536)], [('int', 4, 2 ** 30)], [('int', 4, None), ('int', 4, 2 ** 30)],
               [('string', 2 ** 32 - 4, None), ('int', 4, None)], [('string', 2 ** 31, None), ('string', 2 ** 31, None)], [('string', 2 ** 31, None), ('string', 2 ** 31 - 1, None), ('int', 4, None)]):
        st, m = w.define(defn('m', [param(*p) for p in ps]))
        if m is not None:
            got = receiver(w, rep, st)
            want = sum(s * (n or 1) for k, s, n in ps)
            rep.check(got == want, 'definitions', 'total', 'messages of %s, %d bytes, get a buffer of %s' % (describe(ps), want, got))
    for r in range(1, 4):
        for i in range(6):
            ps = [list(kinds())[(7 * i + 5 * j + r) % 36 % len(list(kinds()))] for j in range(r)]
            st, m = w.define(defn('m', [param(*p) for p in ps]))
            if rep.check(m is not None, 'defined', describe(ps), 'the message definition %s is refused' % describe(ps)):
                got = receiver(w, rep, st)
                want = sum(s * (n or 1) for k, s, n in ps)
                rep.check(got == want, 'definitions', 'buffer', 'messages of %s, %d bytes, get a buffer of %s' % (describe(ps), want, got))


def receiver(w, rep, st):
    """size of the buffer the listener of the message gets"""
    I = w.I
    st.mem[('O', 'nm')] = 'm'
    outs = I.start(w.f['startUdpMessageReceiver'], st, THIS, [ptr(('O', 'nm')), ptr(('O', 'cmd'))])
    ls = [e for s, v, g in outs for e in s.trace if e[0] == 'loop' and e[1] == 'openListener']
    if len(outs) != 1 or len(ls) != 1:
        raise AnalysisBroken('a receiver opens %d listeners' % len(ls))
    return ls[0][3]


def listeners(I, rep):
    """what is received goes into a buffer that holds what may be received"""
    P = I.P
    c = [f for k, f in P.fns.items() if (f.get('cls') or '').endswith('Listener') and 'Udp' in f['file'] and f['n'] == 'Listener' and len(f['params']) == 4]
    h = [f for k, f in P.fns.items() if f['n'] == 'handleFDReady' and f.get('body') is not None]
    if len(c) != 1 or len(h) != 1:
        raise AnalysisBroken('%d listeners, %d receive functions' % (len(c), len(h)))
    for n in (1, 3, 4, 100):
        st = State()
        a = ('O', 'listener')
        st.cls[a] = c[0]['cls']
        outs = I.start(c[0], st, ptr(a), [5, 1000, n, ptr(('O', 'fn'))])
        for s, v, g in outs:
            for s2, v2, g2 in I.start(h[0], s, ptr(('O', 'impl')), [5, ptr(a)]):
                r = [e for e in s2.trace if e[0] == 'recv']
                rep.check(g2 is None and len(r) == 1 and isinstance(r[0][2], int) and isinstance(r[0][3], int) and n <= r[0][2] <= r[0][3], 'receive', 'buffer',
                          'messages of %d bytes are received as up to %s bytes into a buffer of %s' % (n, r[0][2] if r else '?', r[0][3] if r else '?'))


def run(P, rep):
    I = UdpI(P)
    rep.rule('layout: each parameter is encoded in network byte order at the sum of the sizes before it')
    rep.rule('decoded: those bytes decode to the values, with the types of the definition')
    rep.rule('sent: a command sends exactly these bytes, from a buffer that is released once')
    rep.rule('refused: what the definition has no room for is not encoded; nothing outside the buffer is touched')
    rep.rule('definitions, receive: accepted definitions have the length of their parts, and so have the buffers for them')
    deep = rep.tier == 'thorough'
    jobs = [lambda r, k=k: singles(I, r, k) for k in SIZES] + [lambda r, k=k: pairs(I, r, k, deep) for k in SIZES]
    jobs += [lambda r: sends(I, r), lambda r: refuse(I, r), lambda r: definitions(I, r), lambda r: listeners(I, r)]
    par.each(rep, I, jobs)
    rep.fn(*I.analysed)
