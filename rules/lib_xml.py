"""Plan XML as a concrete tree under the real parser code.

Elements are (tag, attrs, kids); a kid that is a plain string is a text node. A document is a list of top-level elements;
xml_node objects hold a position in it, so every navigation the parser makes is answered from the tree. C strings are
Python strings; pointers into one are its suffixes."""
import re
from lib_var import *
from interp import RefBind
from models import strval

NULL, DOC, ELEM, PCDATA = 0, 1, 2, 3


def E(tag, *kids, **attrs):
    return (tag, attrs, tuple(kids))


SP = r'[ \t\n\v\f\r]*'
REAL = re.compile(SP + r'([-+]?)(?:(inf(?:inity)?|nan(?:\([A-Za-z0-9_]*\))?)|(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][-+]?\d+)?)|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)', re.I)
INT0 = re.compile(SP + r'([-+]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9]\d*)')
INT10 = re.compile(SP + r'([-+]?)(\d+)')
INT16 = re.compile(SP + r'([-+]?)((?:0[xX])?[0-9a-fA-F]+)')


class XI(VarI):
    model_maps = True
    run_statics = 'objects'
    concrete_bound = 80
    doc = ()

    def __init__(self, P):
        VarI.__init__(self, P)
        self.doc = ()

    def recursion(self, key):
        return 12

    # ------------------------------------------------------------ positions
    def at(self, p):
        n = ('', {}, self.doc)
        for i in p:
            n = n[2][i]
        return n

    def pos(self, st, a):
        k = ('F', addr_of(a), '$x')
        if k not in st.mem:
            raise Broken('xml_node of unknown content at %s in %s' % (a, self.callstack[-2:]))
        return st.mem[k]

    def setpos(self, st, a, p, cls='pugi::xml_node'):
        a = addr_of(a) if isinstance(a, (Ptr, T)) else a
        st.cls[a] = cls
        st.mem[('F', a, '$x')] = p
        return ptr(a)

    def mknode(self, st, ctx, p, cls='pugi::xml_node'):
        a = ('TMP', ctx.frame, self.node_id(ctx.node) if ctx.node else 0, 'xml', st.count('xml'))
        return self.setpos(st, a, p, cls)

    def sibling(self, p, step, name=None):
        if not p:
            return None
        sib = self.at(p[:-1])[2]
        i = p[-1] + step
        while 0 <= i < len(sib):
            if name is None or sib[i][0] == name and not isinstance(sib[i], str):
                return p[:-1] + (i,)
            i += step
        return None

    def kid(self, p, name=None, last=False):
        ks = range(len(self.at(p)[2]))
        for i in reversed(ks) if last else ks:
            c = self.at(p)[2][i]
            if name is None or not isinstance(c, str) and c[0] == name:
                return p + (i,)
        return None

    def text(self, st, v):
        s = strval(self, st, v)
        if not isinstance(s, str):
            raise Broken('element or attribute name %s is not decided' % (v,))
        return s

    def value_of(self, p):
        """first text child"""
        n = self.at(p)
        if isinstance(n, str):
            return n
        return next((c for c in n[2] if isinstance(c, str)), '')

    def path(self, p, q):
        """children by a path of element names"""
        ps = [p]
        if q.startswith('/'):
            ps = [p[:1] if p and self.doc[p[0]][0] == '#doc' else ()]
        for nm in q.strip('/').split('/'):
            if nm == '.':
                continue
            ps = [x + (i,) for x in ps if not isinstance(self.at(x), str) for i, c in enumerate(self.at(x)[2]) if not isinstance(c, str) and c[0] == nm]
        return ps

    # ------------------------------------------------------------ calls
    def on_call(self, st, ctx):
        r = self.xml_call(st, ctx)
        if r is not None:
            return r
        return VarI.on_call(self, st, ctx)

    def xml_call(self, st, ctx):
        cls, nm, this, args = ctx.cls or '', ctx.name, ctx.this, ctx.args
        q = ctx.key.split('(')[0]
        if q == 'PLEXIL::throwParserException':
            return [(st, None, ('thr', 'PLEXIL::ParserException', self.site(st)))]
        if cls.startswith('PLEXIL::ParserException'):
            return [(st, this)]
        if nm == 'distance' and q.startswith('std::') and len(args) == 2 and ('F', addr_of(args[0]), '$x') in st.mem:
            a, b = (st.mem[('F', addr_of(x), '$x')] for x in args)
            return [(st, b[2] - a[2])]
        if nm == 'strdup' and not cls and isinstance(args[0], str):
            return [(st, args[0])]
        if nm == 'free' and not cls:
            return [(st, None)]
        if nm in ('strcmp', 'strncmp') and not cls and all(isinstance(x, str) and not isinstance(x, T) for x in args[:2]):
            a, b = (x if nm == 'strcmp' else x[:args[2]] for x in args[:2])
            return [(st, (a > b) - (a < b))]
        if nm in ('stricmp', 'strcasecmp') and not cls and all(isinstance(x, str) and not isinstance(x, T) for x in args[:2]):
            a, b = args[0].lower(), args[1].lower()
            return [(st, (a > b) - (a < b))]
        if nm in ('strtol', 'strtod', 'strtoul') and not cls and isinstance(args[0], str):
            return [(st, self.number(st, nm, *args))]
        if nm == '__builtin_huge_val' and not cls:
            return [(st, float('inf'))]
        if nm == '__errno_location' and not cls:
            st.mem.setdefault(('O', 'errno'), 0)
            return [(st, ptr(('O', 'errno')))]
        if nm in ('isdigit', 'isalpha', 'isalnum', 'isspace') and not cls and len(args) == 1 and isinstance(args[0], int):
            return [(st, int(0 <= args[0] < 128 and getattr(chr(args[0]), nm)()))]
        if nm == 'strstr' and len(args) == 2 and not cls:
            h, n = self.text(st, args[0]), self.text(st, args[1])
            i = h.find(n)
            return [(st, h[i:] if i >= 0 else 0)]
        if nm == 'strncmp' and len(args) == 3 and isinstance(args[2], int):
            l, r = self.text(st, args[0])[:args[2]], self.text(st, args[1])[:args[2]]
            return [(st, (l > r) - (l < r))]
        if nm in ('operator==', 'operator!=') and len(ctx.args) == (1 if cls else 2) and (cls.startswith('pugi::') or 'pugi::' in q):
            l, r = ([this] if cls else []) + list(args)
            eq = self.pos(st, l) == self.pos(st, r)
            return [(st, eq == (nm == 'operator=='))]
        if not cls.startswith('pugi::'):
            return None
        base = cls.split('<')[0].split('::')[-1]
        if nm.startswith('~'):
            return [(st, None)]
        if nm in (base, 'operator='):
            if nm == base and not args:
                p = None
            else:
                p = self.pos(st, args[0])
            self.setpos(st, this, p, cls)
            return [(st, this)]
        p = self.pos(st, this)
        if base == 'xml_attribute':
            return self.attr_call(st, ctx, p)
        if base in ('xml_node_iterator', 'xml_named_node_iterator', 'xpath_node_set_iterator'):
            return self.iter_call(st, ctx, p)
        if base == 'xml_object_range':
            if nm in ('begin', 'end'):
                return [(st, self.mknode(st, ctx, ('it', p[1], 0 if nm == 'begin' else len(p[1])), 'pugi::xml_node_iterator'))]
            return None
        if base == 'xpath_node':
            if nm == 'node':
                return [(st, self.mknode(st, ctx, p))]
            if nm == 'operator!' or nm.startswith('operator '):
                return [(st, (p is None) == (nm == 'operator!'))]
            return None
        if base == 'xpath_node_set':
            if nm in ('begin', 'end'):
                base = addr_of(this)       # its iterators are pointers
                for i, q in enumerate(p[1]):
                    self.setpos(st, ('I', base, i), q, 'pugi::xpath_node')
                return [(st, ptr(('I', base, 0 if nm == 'begin' else len(p[1]))))]
            if nm == 'size':
                return [(st, len(p[1]))]
            if nm == 'empty':
                return [(st, not p[1])]
            if nm == 'first':
                return [(st, self.mknode(st, ctx, p[1][0] if p[1] else None, 'pugi::xpath_node'))]
            if nm == 'operator[]':
                return [(st, self.mknode(st, ctx, p[1][args[0]], 'pugi::xpath_node'))]
            return None
        if base == 'xml_text':
            s = self.value_of(p) if p is not None else ''
            if nm in ('get', 'as_string'):
                return [(st, s)]
            if nm == 'as_int':
                m = re.match(r'[ \t\n]*([-+]?\d+)', s)
                return [(st, int(m.group(1)) if m else args[0] if p is None or not s and args else 0)]
            if nm == 'empty':
                return [(st, not s)]
            return None
        if base in ('xml_node', 'xml_document'):
            return self.node_call(st, ctx, p)
        return None

    def number(self, st, fn, text, end, base=10):
        """what the C library reads at the start of the text"""
        if fn == 'strtod':
            m = REAL.match(text)
            if m and m.group(2):
                v = float(m.group(1) + m.group(2).lower().replace('infinity', 'inf')[:3])
            elif m and m.group(3):
                h = m.group(3)
                try:
                    v = float.fromhex(m.group(1) + h)
                except OverflowError:
                    v = float('inf')
            else:
                v = float(m.group(0)) if m else 0.0
                if v in (float('inf'), float('-inf')):
                    st.mem[('O', 'errno')] = 34
        else:
            m = (INT0 if base == 0 else INT10 if base == 10 else INT16).match(text)
            if m is None:
                v = 0
            else:
                d = m.group(2)
                v = int(d, 16 if d[:2].lower() == '0x' else 8 if base == 0 and d[0] == '0' else base or 10)
                v = -v if m.group(1).strip() == '-' else v
                lo, hi = (-2 ** 63, 2 ** 63 - 1) if fn == 'strtol' else (-2 ** 64 + 1, 2 ** 64 - 1)
                if not lo <= v <= hi:
                    st.mem[('O', 'errno')] = 34
                    v = hi if v > 0 or fn == 'strtoul' else lo
                if fn == 'strtoul' and v < 0:
                    v += 2 ** 64
        if isinstance(end, Ptr):
            st.mem[end.addr] = text[m.end():] if m else text
        return v

    def site(self, st):
        return None

    def attr_call(self, st, ctx, p):
        nm = ctx.name
        if nm == 'empty' or nm == 'operator!':
            return [(st, p is None)]
        if nm.startswith('operator '):
            return [(st, p is not None)]
        if nm in ('value', 'as_string'):
            return [(st, p[2] if p is not None else '')]
        if nm == 'name':
            return [(st, p[1] if p is not None else '')]
        if nm == 'as_int':
            try:
                return [(st, int(p[2]) if p is not None else 0)]
            except ValueError:
                return [(st, 0)]
        if nm == 'as_bool':
            return [(st, p is not None and p[2][:1] in tuple('1tTyY'))]
        return None

    def iter_call(self, st, ctx, p):
        nm = ctx.name
        _, ps, i = p
        if nm in ('operator++', 'operator--'):
            j = i + (1 if nm == 'operator++' else -1)
            new = ('it', ps, j)
            old = None
            if ctx.args:
                old = self.mknode(st, ctx, p, ctx.cls)
            self.setpos(st, ctx.this, new, ctx.cls)
            return [(st, old or ctx.this)]
        if nm in ('operator*', 'operator->'):
            if not 0 <= i < len(ps):
                raise Broken('iterator past the children dereferenced')
            return [(st, self.mknode(st, ctx, ps[i], 'pugi::xpath_node' if 'xpath' in ctx.cls else 'pugi::xml_node'))]
        return None

    def node_call(self, st, ctx, p):
        nm, args = ctx.name, ctx.args
        n = self.at(p) if p is not None else None
        txt = isinstance(n, str)
        if nm == 'empty' or nm == 'operator!':
            return [(st, p is None)]
        if nm.startswith('operator ') and not args:
            return [(st, p is not None)]
        if nm == 'type':
            return [(st, NULL if n is None else PCDATA if txt else ELEM if p and n[0] != '#doc' else DOC)]
        if nm == 'name':
            return [(st, '' if n is None or txt or n[0] == '#doc' else n[0])]
        if nm == 'value':
            return [(st, n if txt else '')]
        if nm == 'child_value':
            if args:
                c = self.kid(p, self.text(st, args[0])) if n is not None and not txt else None
                return [(st, self.value_of(c) if c else '')]
            return [(st, '' if n is None or txt else self.value_of(p))]
        if nm == 'attribute' or nm == 'first_attribute':
            k = self.text(st, args[0]) if args else None
            ok = n is not None and not txt and (k in n[1] if k is not None else bool(n[1]))
            if ok and k is None:
                k = next(iter(n[1]))
            return [(st, self.mknode(st, ctx, ('attr', k, n[1][k]) if ok else None, 'pugi::xml_attribute'))]
        if nm in ('child', 'first_child', 'last_child'):
            k = self.text(st, args[0]) if args else None
            return [(st, self.mknode(st, ctx, self.kid(p, k, nm == 'last_child') if n is not None and not txt else None))]
        if nm in ('next_sibling', 'previous_sibling'):
            k = self.text(st, args[0]) if args else None
            return [(st, self.mknode(st, ctx, self.sibling(p, 1 if nm[0] == 'n' else -1, k) if p is not None else None))]
        if nm == 'parent':
            return [(st, self.mknode(st, ctx, p[:-1] if p and self.at(p)[0] != '#doc' else None))]
        if nm == 'root':
            return [(st, self.mknode(st, ctx, None if p is None else p[:1] if p and self.doc[p[0]][0] == '#doc' else ()))]
        if nm == 'document_element':
            if p and n[0] == '#doc':
                return [(st, self.mknode(st, ctx, next((p + (i,) for i, c in enumerate(n[2]) if not isinstance(c, str)), None)))]
            return [(st, self.mknode(st, ctx, next(((i,) for i, c in enumerate(self.doc) if not isinstance(c, str)), None)))]
        if nm in ('begin', 'end', 'children'):
            k = self.text(st, args[0]) if args else None
            ps = () if n is None or txt else tuple(p + (i,) for i, c in enumerate(n[2]) if k is None or not isinstance(c, str) and c[0] == k)
            if nm == 'children':
                return [(st, self.mknode(st, ctx, ('range', ps), 'pugi::xml_object_range'))]
            return [(st, self.mknode(st, ctx, ('it', ps, 0 if nm == 'begin' else len(ps)), 'pugi::xml_node_iterator'))]
        if nm == 'text':
            return [(st, self.mknode(st, ctx, p, 'pugi::xml_text'))]
        if nm in ('select_node', 'select_single_node', 'select_nodes'):
            ps = tuple(self.path(p, self.text(st, args[0]))) if n is not None and not txt else ()
            if nm == 'select_nodes':
                return [(st, self.mknode(st, ctx, ('set', ps), 'pugi::xpath_node_set'))]
            return [(st, self.mknode(st, ctx, ps[0] if ps else None, 'pugi::xpath_node'))]
        if nm == 'print':
            return [(st, None)]
        return None

    def range_elements(self, st, rng):
        a = addr_of(rng)
        p = st.mem.get(('F', a, '$x'), 0)
        if p != 0:
            if p is None:
                ps = ()
            elif p and p[0] in ('range', 'set'):
                ps = p[1]
            else:
                n = self.at(p)
                ps = () if isinstance(n, str) else tuple(p + (i,) for i in range(len(n[2])))
            return [self.setpos(st, ('TMP', 'range', a, i), q, 'pugi::xpath_node' if p and p[0] == 'set' else 'pugi::xml_node') for i, q in enumerate(ps)]
        return VarI.range_elements(self, st, rng)

    def compare(self, st, op, a, b):
        if op in ('==', '!=') and any(isinstance(x, str) and not isinstance(x, T) and type(y) is int and y == 0 for x, y in ((a, b), (b, a))):
            return op == '!='           # text against the null pointer
        return VarI.compare(self, st, op, a, b)

    def arith(self, op, a, b, t):
        if isinstance(a, str) and isinstance(b, int) and op in '+-':
            if op == '+' and 0 <= b <= len(a):
                return a[b:]
            if b == 0:
                return a
            raise Broken('pointer outside its string')
        return VarI.arith(self, op, a, b, t)

    def on_opaque(self, st, ctx):
        return VarI.on_opaque(self, st, ctx)

    def doc_node(self, st, p, name='root'):
        return self.setpos(st, ('O', 'xml ' + name), p)


def registry(P):
    """expression tag -> syntax of the factory it is registered with"""
    w = [v for q, v in P.vars.items() if q.startswith('PLEXIL::ExpressionMap::getFactory(') and q.endswith('::wordlist')]
    s = [v for q, v in P.vars.items() if q.endswith('PLEXIL::stringpool_contents') and 'ExpressionMap' in q]
    if len(w) != 1 or len(s) != 1 or not w[0].get('init') or not s[0].get('init'):
        raise AnalysisBroken('the expression tag table was not found')
    names = [x['v'] for x in s[0]['init']['a']]
    fields = next((c for n, c in P.classes.items() if n.endswith('stringpool_t') and 'ExpressionMap' in c.get('file', '') + n), None)

    def member(n):
        if isinstance(n, dict):
            if n.get('k') == 'Member' and 'stringpool_str' in str(n.get('n') or n.get('f') or ''):
                return n
            for v in n.values():
                r = member(v)
                if r:
                    return r
        elif isinstance(n, list):
            for v in n:
                r = member(v)
                if r:
                    return r
        return None
    out = {}
    ms = []
    for e in w[0]['init']['a']:
        m = member(e['a'][0])
        if m:
            nm = m.get('n') or m.get('f')
            ms.append((int(nm.rsplit('str', 1)[1]), e['a'][1]))
    if len(ms) != len(names):
        raise AnalysisBroken('tag table and string pool disagree: %d entries, %d names' % (len(ms), len(names)))
    for (i, e), nm in zip(sorted(ms, key=lambda x: x[0]), names):
        out[nm] = e
    return out
