"""The plan parser and the nodes and expressions it builds, interpreted together over concrete XML trees.

Operand elements <$name/> become real variables of a chosen type, owned by their user or borrowed; everything else is
parsed and built by the real code. Waking a node is recorded."""
from lib_xml import *
from lib_lookup import LkI

U = 'U'
KIND = {'BOOLEAN_TYPE': 'Boolean', 'INTEGER_TYPE': 'Integer', 'REAL_TYPE': 'Real', 'STRING_TYPE': 'String'}


class PlI(XI, LkI):
    concrete_bound = 200
    construct_elements = True

    def __init__(self, P):
        LkI.__init__(self, P)
        self.doc = ()
        self.vt = {i['n']: i['v'] for i in P.enum('ValueType')['vals']}
        self.types = {}            # operand -> value type (Boolean unless said)
        self.borrowed = ()         # operands that belong to somebody else
        self.bad = ()              # operands the parser refuses
        self.states = {}           # node -> its state, when chosen
        self.reg = registry(P)
        self.con = P.one('PLEXIL::constructNode', 2)
        self.fin = P.one('PLEXIL::finalizeNode', 2)
        self.chk = P.one('PLEXIL::checkNode', 1)
        self.checkplan = P.one('PLEXIL::checkPlan', 1)
        self.parse = P.one('PLEXIL::parsePlan', 1)
        self.libs = {}

    def text(self, st, v):
        return XI.text(self, st, v)

    def opname(self, st, a):
        if isinstance(a, Ptr) and ('F', addr_of(a), '$x') in st.mem:
            p = self.pos(st, a)
            n = self.at(p) if p is not None else None
            if n is not None and not isinstance(n, str) and n[0].startswith('$'):
                return n[0]
        return None

    def on_call(self, st, ctx):
        r = self.xml_call(st, ctx)
        if r is not None:
            return r
        nm, this = ctx.name, ctx.this
        q = ctx.key.split('(')[0]
        if q == 'PLEXIL::checkExpression':
            n = self.opname(st, ctx.args[1])
            if n is not None:
                if n in self.bad:
                    return [(st, None, ('thr', 'PLEXIL::ParserException', 'operand'))]
                return [(st, self.vt[self.types.get(n, 'BOOLEAN_TYPE')])]
        if q == 'PLEXIL::createExpression' or q == 'PLEXIL::createAssignable':
            n = self.opname(st, ctx.args[0])
            if n is not None:
                if n in self.bad:
                    return [(st, None, ('thr', 'PLEXIL::ParserException', 'operand'))]
                return self.operand_var(st, ctx, n)
        if q.endswith('ExpressionMap::getFactory'):
            return self.tag_factory(st, self.text(st, ctx.args[0]))
        if q == 'PLEXIL::getLibraryNode':
            i = self.libs.get(self.text(st, ctx.args[0]))
            return [(st, ptr(('O', 'library', i)) if i else 0)]
        if q == 'PLEXIL::Expression::valueString' and isinstance(this, Ptr):
            v = st.mem.get(('F', this.addr, 'm_value'))
            if isinstance(v, str):          # printing a string writes its characters
                return [(st, v)]
        if q == 'PLEXIL::NodeImpl::addUsingMutex':
            st.ev('uses', this, ctx.args[0])
        if q == 'PLEXIL::NodeImpl::notifyChanged':
            st.ev('wake', this)
            return [(st, None)]
        if nm == 'getState' and isinstance(this, Ptr) and this.addr in self.states and not ctx.args:
            return [(st, self.states[this.addr])]
        return LkI.on_call(self, st, ctx)

    def operand_var(self, st, ctx, n):
        s, v = st, st.mem.get(('O', 'op', n))
        own = n not in self.borrowed
        if v is None or own:
            s, v = self.one(st, 'new_' + KIND[self.types.get(n, 'BOOLEAN_TYPE')])
            s.mem[('O', 'op', n)] = v
        if len(ctx.args) > 2 and isinstance(ctx.args[2], Ptr):
            s.mem[addr_of(ctx.args[2])] = own
        s.ev('created', n)
        return [(s, v)]

    def tag_factory(self, st, tag):
        if tag not in self.reg:
            return [(st, 0)]
        a = ('O', 'entry', tag)
        if ('F', a, 'factory') not in st.mem:
            outs = self.ev(self.reg[tag], st, ('reg', tag), None)
            if len(outs) != 1 or outs[0][2] is not None:
                raise Broken('the factory of <%s> could not be evaluated' % tag)
            st, v, _ = outs[0]
            st.mem[('F', a, 'factory')] = v
        return [(st, ptr(a))]

    def on_delete(self, st, val, node):
        if not isinstance(val, Ptr):
            return None
        if val.addr in st.aux.get('dead', ()):
            st.ev('twice', val)
            return None
        st.ev('delete', val)
        outs = self.destroy(st, val)
        for s in outs or [st]:
            s.aux['dead'] = s.aux.get('dead', frozenset()) | {val.addr}
        return outs

    def destroy(self, st, val):
        c = st.cls.get(val.addr)
        d = next((k for k in self.P.classes[c].get('methods', ()) if k.get('dtor')), None) if c in self.P.classes else None
        f = self.P.fns.get(d['key']) if d else None
        if not f or f.get('body') is None:
            return None
        return [o[0] for o in self.start(f, st, val, [])]

    # ---- driving
    def opvar(self, st, n):
        v = st.mem.get(('O', 'op', n))
        return v if isinstance(v, Ptr) else None

    def build(self, doc, *more):
        """[(state, node or None, signal)] of parsing this node element, without its check"""
        self.doc = (doc,) + more
        st = State()
        x = self.doc_node(st, (0,))
        out = []
        for s, v, sig in self.start(self.con, st, None, [x, 0]):
            if sig:
                out.append((s, None, sig))
                continue
            y = self.doc_node(clean(s), (0,))
            out += [(s2, v, g2) for s2, _, g2 in self.start(self.fin, s, None, [v, y])]
        return out

    def parse_plan(self, *plans):
        """[(state, root node or None, signal)] of parsing the first of these plans; the others are libraries by node name"""
        self.doc = tuple(('#doc', {}, (p,)) for p in plans)
        self.libs = {}
        st = State()
        for g in self.P.vars:
            if g.endswith('::s_symbolTable'):
                st.mem[('G', g)] = 0
            if g.endswith('::s_globalMutexes'):
                st.mem[('F', ('G', g), '$keys')] = ()
        for i, p in enumerate(plans[1:], 1):
            n = next(k for k in p[2] if k[0] == 'Node')
            self.libs[next(k[2][0] for k in n[2] if k[0] == 'NodeId')] = i
        # every library is checked when it is loaded, before the plan that uses it is built
        for i in range(len(plans) - 1, 0, -1):
            r = self.start(self.checkplan, st, None, [self.doc_node(st, (i, 0), 'lib%d' % i)])
            if len(r) != 1:
                raise Broken('checking a library has %d outcomes' % len(r))
            st, v, sig = r[0]
            if sig:
                return [(st, None, sig)]
            st.mem[('F', ('O', 'library', i), 'symtab')] = v
            st.mem[('F', ('O', 'library', i), 'doc')] = self.doc_node(st, (i,), 'libdoc%d' % i)
        return self.start(self.parse, clean(st), None, [self.doc_node(st, (0, 0), 'plan')])

    def act(self, st, name, *args):
        """a witness call with one outcome and no exception"""
        r = self.w(st, name, *args)
        if len(r) != 1 or r[0][2] is not None:
            raise Broken('%s has outcomes %s' % (name, [(o[1], o[2]) for o in r][:4]))
        return r[0][0], r[0][1]

    def bool_of(self, st, x):
        """True, False or U: what a reader of this Boolean expression gets"""
        st.mem[('O', 'rd')] = U
        s, k = self.act(st, 'get_Boolean', x, ptr(('O', 'rd')))
        v = s.mem.get(('O', 'rd'))
        if k not in (True, False, 0, 1) or k and v not in (True, False, 0, 1):
            raise Broken('value not decided: %s %s' % (k, v))
        return s, bool(v) if k else U

    def setop(self, st, n, v):
        """set an operand; -> state with the trace of this change only"""
        s = clean(st.fork())
        x = self.opvar(s, n)
        if v == U:
            return self.act(s, 'x_setUnknown', x)[0]
        s, val = self.value_obj(s, v)
        return self.act(s, 'x_set', x, val)[0]
