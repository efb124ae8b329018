"""The resource arbiter and real commands, interpreted together; resource files are given as text."""
import re
from lib_lookup import *

SPACE = ' \t\n\r\v\f'
NUM = re.compile(r'[ \t\n\r\v\f]*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)')


class RaI(LkI):
    concrete_bound = 400
    construct_elements = True

    def map_key(self, st, v, kt):
        kt = base_name(kt)
        c = self.P.classes.get(kt)
        if c is not None and isinstance(v, Ptr):
            out = []
            for n in self.identity(kt):
                x = self.raw(st, ptr(('F', v.addr, n)))
                out.append(x)
            return tuple(out)
        return LkI.map_key(self, st, v, kt)

    def map_order(self, st, ks):
        if ks and isinstance(ks[0], tuple) and ks[0] and ks[0][0] == 'p':
            return None
        return LkI.map_order(self, st, ks)

    def raw(self, st, v):
        import models
        if isinstance(v, Ptr) and v.addr in st.mem and not ('F', v.addr, '$val') in st.mem:
            x = models.strval(self, st, v)
            if isinstance(x, T) and x[0] == 'lit':
                return x[1]
            if isinstance(x, (str, int, float)) and not isinstance(x, T):
                return x
        return LkI.raw(self, st, v)

    def identity(self, cls):
        """the fields that the ordering of this class looks at"""
        memo = getattr(self, '_ident', None)
        if memo is None:
            memo = self._ident = {}
        if cls not in memo:
            fs = [f for f in self.P._byname.get('PLEXIL::operator<', []) if len(f['params']) == 2 and base_name(f['params'][0]['t']) == cls]
            if len(fs) != 1:
                raise AnalysisBroken('ordering of %s not found' % cls)
            out = []

            def walk(n):
                if isinstance(n, dict):
                    if n.get('k') == 'Member' and n.get('cls') == cls and n['n'] not in out:
                        out.append(n['n'])
                    for x in n.values():
                        if isinstance(x, (dict, list)):
                            walk(x)
                elif isinstance(n, list):
                    for x in n:
                        walk(x)
            walk(fs[0]['body'])
            if not out:
                raise AnalysisBroken('ordering of %s not understood' % cls)
            memo[cls] = out
        return memo[cls]

    # ---- text in memory
    def chars(self, st, text):
        n = st.count('chars')
        a = ('O', 'chars%d' % n)
        for i, ch in enumerate(text):
            st.mem[('I', a, i)] = ord(ch)
        st.mem[('I', a, len(text))] = 0
        return ptr(('I', a, 0))

    def cstr(self, st, v, limit=None):
        if isinstance(v, T) and v[0] == 'lit':
            return v[1]
        if isinstance(v, str):
            return v
        a = v.addr
        if a[0] != 'I' and isinstance(st.mem.get(a), (str, T)):
            return self.cstr(st, st.mem[a])
        if a[0] != 'I':
            raise Broken('text of unknown content')
        out, i = '', a[2]
        while limit is None or len(out) < limit:
            c = st.mem.get(('I', a[1], i))
            if not isinstance(c, int):
                st.ev('overread', i)
                raise Broken('text read past its end')
            if c == 0 and limit is None:
                break
            out += chr(c)
            i += 1
        return out

    def on_call(self, st, ctx):
        nm, q = ctx.name, ctx.key.split('(')[0]
        a = ctx.args
        if ctx.this is None or ctx.cls in ('', None):
            if nm in ('strspn', 'strcspn'):
                s, set_ = self.cstr(st, a[0]), self.cstr(st, a[1])
                n = 0
                while n < len(s) and (s[n] in set_) == (nm == 'strspn'):
                    n += 1
                return [(st, n)]
            if nm == 'strtod':
                s = self.cstr(st, a[0])
                m = NUM.match(s)
                end = a[0] if not m else ptr(('I', a[0].addr[1], a[0].addr[2] + m.end()))
                if isinstance(a[1], Ptr):
                    st.mem[a[1].addr] = end
                return [(st, float(m.group(0)) if m else 0.0)]
            if nm == 'getline' and len(a) >= 2:
                rest = st.mem.get(('F', ('O', 'file'), 'rest'), '')
                i = rest.find('\n')
                line = rest if i < 0 else rest[:i]
                st.mem[('F', ('O', 'file'), 'rest')] = '' if i < 0 else rest[i + 1:]
                if i < 0:
                    st.mem[('F', ('O', 'file'), 'eof')] = True
                st.mem[addr_of(a[1])] = line
                return [(st, a[0])]
        if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'file') and nm == 'eof':
            return [(st, bool(st.mem.get(('F', ('O', 'file'), 'eof'))))]
        if ctx.cls and ctx.cls.startswith('std::basic_string<') and isinstance(ctx.this, Ptr):
            if nm in ('c_str', 'data') and not a:
                return [(st, self.chars(st, self.text(st, ctx.this)))]
            if '::basic_string(' in ctx.key and len(a) >= 2 and isinstance(a[0], Ptr) and isinstance(a[1], int) and a[0].addr[0] == 'I':
                st.mem[ctx.this.addr] = self.cstr(st, a[0], a[1])
                return [(st, ctx.this)]
        return LkI.on_call(self, st, ctx)

    # ---- driving
    def file(self, st, arbiter, text):
        s = st.fork()
        s.mem[('F', ('O', 'file'), 'rest')] = text
        s.mem[('F', ('O', 'file'), 'eof')] = False
        s, v, sig = self.do(s, 'ra_read', arbiter, ptr(('O', 'file')))
        for k in [k for k in s.mem if str(root(k)[1]).startswith('chars')]:
            del s.mem[k]
        return clean(s), v, sig

    def const(self, st, v):
        if isinstance(v, bool):
            return self.do(st, 'ra_bool', v)[:2]
        if isinstance(v, int):
            return self.do(st, 'ra_int', v)[:2]
        if isinstance(v, float):
            return self.do(st, 'ra_real', v)[:2]
        a = ('O', 'ctext')
        st.mem[a] = v
        return self.do(st, 'ra_text', ptr(a))[:2]

    def command(self, st, name, reqs):
        """a command; reqs: [(resource, priority, upper or None, release or None)], each a constant or an expression"""
        def ex(st, v):
            if v is None:
                return st, 0
            return (st, v) if isinstance(v, Ptr) else self.const(st, v)
        s, ne = self.const(st, name)
        l = 0
        if reqs:
            s, l, _ = self.do(s, 'ra_specs', len(reqs))
            for i, (r, p, u, rel) in enumerate(reqs):
                s, re_ = ex(s, r)
                s, pe = ex(s, p)
                s, ue = ex(s, u)
                s, le = ex(s, rel)
                s, _, sig = self.do(s, 'ra_spec', l, i, re_, pe, ue, le)
        s, c, sig = self.do(s, 'ra_cmd', ne, l)
        return s, c

    def arbitrate(self, st, arbiter, cmds):
        """-> state, accepted, rejected (lists of command addresses), left over, error"""
        s, qs = st, []
        for _ in range(3):
            s, q, _ = self.do(s, 'ra_queue')
            qs.append(q)
        for c in cmds:
            s, _, _ = self.do(s, 'ra_push', qs[0], c)
        r = self.w(s, 'ra_arbitrate', arbiter, *qs)
        if len(r) != 1:
            return s, None, None, None, ('not determined by the requests', len(r))
        s, _, sig = r[0]
        if sig:
            return s, None, None, None, sig
        outs = []
        for q in qs:
            l = []
            while len(l) <= len(cmds) + 1:
                s, c, _ = self.do(s, 'ra_front', q)
                if not isinstance(c, Ptr):
                    break
                l.append(c)
                s, _, _ = self.do(s, 'ra_pop', q)
            outs.append(l)
        return clean(s), outs[1], outs[2], outs[0], None
