"""X04: a name in a plan means its innermost declaration; interfaces and library calls bind names as declared."""
from itertools import permutations, product
import par
from lib_plan import *

MIN_OBLIGATIONS = 500
KINDS = {'Boolean': 'BOOLEAN_TYPE', 'Integer': 'INTEGER_TYPE', 'Real': 'REAL_TYPE', 'String': 'STRING_TYPE'}
LIT = {'Boolean': E('BooleanValue', 'true'), 'Integer': E('IntegerValue', '7'), 'Real': E('RealValue', '2.5'), 'String': E('StringValue', 'seven')}
VAL = {'Boolean': True, 'Integer': 7, 'Real': 2.5, 'String': 'seven'}


def var(name, t='Boolean', init=None):
    return E('DeclareVariable', E('Name', name), E('Type', t), *([E('InitialValue', init)] if init is not None else []))


def arr(name, t='Integer', size=None, init=None):
    return E('DeclareArray', E('Name', name), E('Type', t), *([E('MaxSize', str(size))] if size is not None else []),
             *([E('InitialValue', init)] if init is not None else []))


def mutex(name):
    return E('DeclareMutex', E('Name', name))


def decls(*ds):
    return [E('VariableDeclarations', *ds)] if ds else []


def iface(In=(), InOut=()):
    return E('Interface', *([E('In', *In)] if In else []), *([E('InOut', *InOut)] if InOut else []))


def ref(name, t='Boolean'):
    return E(t + 'Variable', name)


def empty(name, *parts):
    return E('Node', E('NodeId', name), *parts, NodeType='Empty')


def reader(name, x, t='Boolean', *parts):
    """a node that reads x in its start condition"""
    c = ref(x, t) if t == 'Boolean' else E('IsKnown', ref(x, t))
    return empty(name, *parts, E('StartCondition', c))


def writer(name, x, t='Boolean', *parts):
    return E('Node', E('NodeId', name), *parts, E('NodeBody', E('Assignment', ref(x, t), E(('Numeric' if t in ('Integer', 'Real') else t) + 'RHS', LIT[t]))), NodeType='Assignment')


def lst(name, kids, *parts):
    return E('Node', E('NodeId', name), *parts, E('NodeBody', E('NodeList', *kids)), NodeType='NodeList')


def call(name, lib, aliases=(), *parts):
    al = [E('Alias', E('NodeParameter', n), e) for n, e in aliases]
    return E('Node', E('NodeId', name), *parts, E('NodeBody', E('LibraryNodeCall', E('NodeId', lib), *al)), NodeType='LibraryNodeCall')


def plan(root, *glob):
    return E('PlexilPlan', *([E('GlobalDeclarations', *glob)] if glob else []), root)


class Tree:
    def __init__(self, I, rep, lab, *plans):
        self.I, self.rep, self.lab = I, rep, lab
        r = I.parse_plan(*plans)
        self.ok = rep.check(len(r) == 1 and r[0][2] is None, 'accepted', I.part, '%s is not accepted: %s' % (lab, [o[2] for o in r][:2]))
        if self.ok:
            self.st, self.root, _ = r[0]
            self.uses = [(e[1], e[2]) for e in self.st.trace if e[0] == 'uses']
            clean(self.st)

    def node(self, *path):
        n = self.root
        for i in path:
            self.st, n = self.I.act(self.st, 'pl_kid', n, i)
        return n

    def local(self, n, name):
        s, v = self.I.act(self.st, 'pl_local', n, name)
        self.st = s
        return v if isinstance(v, Ptr) else None

    def start(self, n, deep):
        s, x = self.I.act(self.st, 'pl_cond', n, self.I.cidx['startIdx'])
        if deep:
            s, x = self.I.act(s, 'pl_arg', x, 0)
        self.st = s
        return x

    def on(self, *xs):
        for x in xs:
            self.st = clean(self.I.act(self.st, 'x_activate', x)[0])

    def value(self, x, t='Boolean'):
        """value of an expression, U when unknown"""
        st = self.st
        k2 = ('O', 'rd')
        st.mem[k2] = U
        s, k = self.I.act(st, 'get_' + t, x, ptr(k2))
        self.st = s
        if not k:
            return U
        v = s.mem.get(k2)
        if t == 'String':
            v = strval(self.I, s, v if v != U else ptr(k2))
        return bool(v) if t == 'Boolean' else v

    def set(self, x, v, t='Boolean'):
        s, val = self.I.value_obj(self.st, v)
        self.st = clean(self.I.act(s, 'x_set', x, val)[0])


def refused(I, rep, rule, key, lab, *plans):
    for s, v, g in I.parse_plan(*plans):
        rep.check(g is not None and g[:2] == ('thr', 'PLEXIL::ParserException'), rule, key,
                  '%s %s' % (lab, 'is accepted' if g is None else 'ends in %s' % (g,)))


# ---------------------------------------------------------------- local declarations
def scopes(I, rep, t):
    """innermost declaration wins, whatever else is declared on the way and in whatever order"""
    I.part = 'scopes'
    names = ('x', 'xx', 'X', 'w')
    for levels in product((False, True), repeat=4):
            ds = [decls(*([var(n, t) for n in names] if l else [var('other%d' % i)] if i % 2 else [])) for i, l in enumerate(levels)]
            leaf = reader('leaf', 'x', t, *ds[3])
            doc = plan(lst('o', [lst('m', [empty('before', *decls(var('x', t))), lst('i', [leaf], *ds[2])], *ds[1])], *ds[0]))
            lab = '%s x declared in %s' % (t, ', '.join(n for n, l in zip(('outer list', 'middle list', 'inner list', 'leaf'), levels) if l) or 'a sibling only')
            if not any(levels):
                refused(I, rep, 'undeclared', t, 'a reference to ' + lab, doc)
                continue
            w = Tree(I, rep, lab, doc)
            if not w.ok:
                continue
            path = [w.root, w.node(0), w.node(0, 1), w.node(0, 1, 0)]
            want = w.local(path[max(i for i, l in enumerate(levels) if l)], 'x')
            got = w.start(path[3], t != 'Boolean')
            rep.check(got == want and want is not None, 'innermost', t, '%s: the reference means another variable than the innermost x' % lab)


def orders(I, rep):
    """each of several variables is found under its own name, in any order of declaration"""
    I.part = 'orders'
    names = ('a', 'ab', 'b', 'B')
    for perm in permutations(names):
        doc = plan(lst('o', [reader('r' + n, n) for n in names], *decls(*[var(n) for n in perm])))
        lab = 'variables declared in the order %s' % ', '.join(perm)
        w = Tree(I, rep, lab, doc)
        if not w.ok:
            continue
        xs = [w.start(w.node(i), False) for i in range(len(names))]
        w.on(*xs)
        rep.check(len({x.addr for x in xs}) == len(names), 'own variable', 'distinct', '%s: two names mean the same variable' % lab)
        for i, n in enumerate(names):
            rep.check(w.local(w.root, n) == xs[i], 'own variable', n, '%s: %s means another variable' % (lab, n))
            s, nm = I.act(w.st, 'pl_name', xs[i])
            rep.check(strval(I, s, nm) == n, 'own variable', 'name', '%s: the variable found for %s is called otherwise' % (lab, n))


def reference_types(I, rep):
    """a reference must be of the type of the declaration it finds, not of one that is hidden by it"""
    I.part = 'types'
    for t, d in product(KINDS, KINDS):
        for hidden in (None, t):
            inner = decls(var('x', d))
            outer = decls(var('x', hidden)) if hidden else []
            doc = plan(lst('o', [lst('i', [reader('r', 'x', t)], *inner)], *outer))
            lab = 'a %s reference to a variable declared %s%s' % (t, d, ' hiding one declared %s' % hidden if hidden else '')
            if t == d:
                Tree(I, rep, lab, doc)
            else:
                refused(I, rep, 'reference type', '%s|%s' % (t, d), lab, doc)
    for t in KINDS:
        refused(I, rep, 'reference type', 'array|' + t, 'a %s reference to an array' % t, plan(lst('o', [reader('r', 'x', t)], *decls(arr('x', t)))))
        refused(I, rep, 'reference type', 'of array|' + t, 'an array reference to a %s variable' % t,
                plan(lst('o', [reader('r', 'x', 'Array')], *decls(var('x', t)))))
        w = Tree(I, rep, 'an array reference to an array of %s' % t, plan(lst('o', [lst('p', [reader('r', 'x', 'Array')], *decls(var('y')))], *decls(arr('x', t)))))
        if w.ok:
            rep.check(w.start(w.node(0, 0), True) == w.local(w.root, 'x'), 'innermost', 'array', 'the array reference means another variable')


def visibility(I, rep):
    """declarations of siblings and of children are not visible"""
    I.part = 'visibility'
    x = decls(var('x'))
    refused(I, rep, 'undeclared', 'sibling', 'a reference to a sibling\'s variable', plan(lst('o', [empty('s', *x), reader('r', 'x')])))
    refused(I, rep, 'undeclared', 'later sibling', 'a reference to a later sibling\'s variable', plan(lst('o', [reader('r', 'x'), empty('s', *x)])))
    refused(I, rep, 'undeclared', 'child', 'a reference to a child\'s variable', plan(lst('o', [lst('s', [empty('k', *x)], E('StartCondition', ref('x')))])))
    refused(I, rep, 'undeclared', 'nephew', 'a reference to a nephew\'s variable', plan(lst('o', [lst('s', [empty('k', *x)]), lst('p', [reader('r', 'x')])])))
    refused(I, rep, 'undeclared', 'prefix', 'a reference to the beginning of a declared name', plan(lst('o', [reader('r', 'x')], *decls(var('xy'), var('X')))))
    refused(I, rep, 'undeclared', 'assignment', 'an assignment to an undeclared variable', plan(lst('o', [writer('w', 'x')])))
    refused(I, rep, 'undeclared', 'array', 'a reference to an undeclared array', plan(lst('o', [reader('r', 'x', 'Array')])))


def duplicates(I, rep):
    """two declarations of one name in one node are refused, whatever their kinds"""
    I.part = 'duplicates'
    kinds = ('In', 'InOut', 'variable', 'array', 'mutex')

    def build(one, two, n1, n2):
        parts = {k: [] for k in kinds}
        parts[one].append(n1)
        parts[two].append(n2)
        loc = [var(n, 'Boolean') for n in parts['variable']] + [arr(n) for n in parts['array']] + [mutex(n) for n in parts['mutex']]
        inn, ino = ([var(n, 'Boolean', LIT['Boolean']) for n in parts[k]] for k in ('In', 'InOut'))
        return plan(empty('e', *([iface(inn, ino)] if inn or ino else []), *decls(*loc)))
    for one, two in product(kinds, kinds):
        lab = '%s x and %s' % (one, two)
        refused(I, rep, 'duplicate', one + '|' + two, lab + ' x in one node', build(one, two, 'x', 'x'))
        Tree(I, rep, lab + ' y in one node', build(one, two, 'x', 'y'))
        # the same name again in another node is no duplicate
        if 'In' not in (one[:2], two[:2]):
            d1 = {'variable': var('x'), 'array': arr('x'), 'mutex': mutex('x')}
            Tree(I, rep, lab + ' x in a list and its child', plan(lst('o', [empty('k', *decls(d1[two]))], *decls(d1[one]))))


def initial(I, rep):
    """a variable starts with its declared initial value and unknown without one"""
    I.part = 'initial'
    for t in KINDS:
        for init in (None, 'literal', 'outer'):
            e = None if init is None else LIT[t] if init == 'literal' else ref('y', t)
            lab = '%s variable with %s' % (t, {None: 'no initial value', 'literal': 'a literal initial value', 'outer': 'another variable as initial value'}[init])
            w = Tree(I, rep, lab, plan(lst('o', [empty('k', *decls(var('z', t), var('x', t, e)))], *decls(var('x', t), var('y', t, LIT[t])))))
            if not w.ok:
                continue
            k = w.node(0)
            y, x, z, ox = w.local(w.root, 'y'), w.local(k, 'x'), w.local(k, 'z'), w.local(w.root, 'x')
            w.on(y, ox, z, x)
            rep.check(w.value(x, t) == (VAL[t] if init else U), 'initial value', t, '%s starts as %s' % (lab, w.value(x, t)))
            rep.check(w.value(z, t) == U and w.value(ox, t) == U, 'initial value', t + '|others', '%s: another variable without initial value is not unknown' % lab)
        for i in KINDS:
            if i == t:
                continue
            lab = '%s variable with a %s initial value' % (t, i)
            for e in (LIT[i], ref('y', i)):
                doc = plan(lst('o', [empty('k', *decls(var('x', t, e)))], *decls(var('y', i))))
                if t == 'Real' and i == 'Integer':
                    Tree(I, rep, lab, doc)
                else:
                    refused(I, rep, 'initial type', t + '|' + i, lab, doc)
        lab = '%s array' % t
        v = E('ArrayValue', E(t + 'Value', LIT[t][2][0]), E(t + 'Value', LIT[t][2][0]), Type=t)
        Tree(I, rep, lab + ' with an initial value', plan(empty('k', *decls(arr('x', t, 2, v)))))
        refused(I, rep, 'initial type', 'size|' + t, lab + ' with an initial value larger than the array', plan(empty('k', *decls(arr('x', t, 1, v)))))
        for i in KINDS:
            if i != t:
                refused(I, rep, 'initial type', 'array|%s|%s' % (t, i), '%s array with a %s array as initial value' % (t, i), plan(empty('k', *decls(arr('x', t, 2, E('ArrayValue', LIT[i], Type=i))))))
    refused(I, rep, 'undeclared', 'initial value', 'an initial value that reads an undeclared variable', plan(empty('k', *decls(var('x', 'Boolean', ref('y'))))))


# ---------------------------------------------------------------- interfaces
def interfaces(I, rep, t):
    """In names an enclosing variable read-only, InOut writable; a default stands in for a missing one"""
    I.part = 'interfaces'
    if t:
        outer = decls(var('x', t, LIT[t]), var('q', t))
        # read through In and InOut
        for mode, more in product(('In', 'InOut'), (False, True)):
            d = [var('x', t)] + ([var('q', t)] if more else [])
            ifc = iface(**{mode: d})
            lab = '%s %s x' % (mode, t)
            for use in ('self', 'child'):
                n = reader('n', 'x', t, ifc) if use == 'self' else lst('n', [reader('r', 'x', t)], ifc)
                w = Tree(I, rep, '%s read by %s' % (lab, use), plan(lst('o', [lst('m', [n])], *outer)))
                if w.ok:
                    r = w.start(w.node(0, 0) if use == 'self' else w.node(0, 0, 0), t != 'Boolean')
                    ox = w.local(w.root, 'x')
                    w.on(ox, r)
                    rep.check(w.value(r, t) == VAL[t], 'interface value', mode + '|' + t, '%s reads %s instead of the outer variable\'s value' % (w.lab, w.value(r, t)))
                    s, a = I.act(w.st, 'pl_assignable', r)
                    rep.check(bool(a) == (mode == 'InOut'), 'interface access', mode + '|' + t, '%s is %s' % (w.lab, 'writable' if a else 'read-only'))
                    if t == 'Boolean':
                        w.set(ox, False)
                        rep.check(w.value(r) is False, 'interface value', mode + '|follows', '%s does not follow the outer variable' % w.lab)
                # writing
                wr = lst('n', [writer('w', 'x', t)], ifc)
                doc = plan(lst('o', [lst('m', [wr])], *outer))
                if mode == 'In':
                    refused(I, rep, 'interface access', 'assign|' + t, 'an assignment to ' + lab, doc)
                else:
                    Tree(I, rep, 'an assignment to ' + lab, doc)
            # once In, no longer writable further in
            inner = lst('n', [empty('k', iface(InOut=[var('x', t)]))], ifc)
            doc = plan(lst('o', [inner], *outer))
            if mode == 'In':
                refused(I, rep, 'interface access', 'InOut of In|' + t, 'InOut of an In variable', doc)
            else:
                Tree(I, rep, 'InOut of an InOut variable', doc)
            Tree(I, rep, 'In of an %s variable' % mode, plan(lst('o', [lst('n', [reader('k', 'x', t, iface(In=[var('x', t)]))], ifc)], *outer)))
            # missing
            refused(I, rep, 'interface missing', mode + '|' + t, lab + ' that nothing declares and without default', plan(lst('o', [empty('n', ifc)])))
            dflt = iface(**{mode: [var('x', t, LIT[t])]})
            w = Tree(I, rep, lab + ' with a default that nothing declares', plan(lst('o', [reader('n', 'x', t, dflt)])))
            if w.ok:
                r = w.start(w.node(0), t != 'Boolean')
                w.on(r)
                rep.check(w.value(r, t) == VAL[t], 'interface default', mode + '|' + t, '%s reads %s' % (w.lab, w.value(r, t)))
                s, a = I.act(w.st, 'pl_assignable', r)
                rep.check(bool(a) == (mode == 'InOut'), 'interface access', mode + '|default', '%s is %s' % (w.lab, 'writable' if a else 'read-only'))
            w = Tree(I, rep, lab + ' with a default and an outer variable', plan(lst('o', [reader('n', 'x', t, dflt)], *decls(var('x', t)))))
            if w.ok:
                r = w.start(w.node(0), t != 'Boolean')
                w.on(w.local(w.root, 'x'), r)
                rep.check(w.value(r, t) == U, 'interface default', mode + '|unused', '%s reads its default' % w.lab)
            # types
            for u in KINDS:
                if u != t:
                    refused(I, rep, 'interface type', '%s|%s|%s' % (mode, t, u), '%s whose outer variable is %s' % (lab, u), plan(lst('o', [empty('n', ifc)], *decls(var('x', u), var('q', t)))))
                    if (t, u) != ('Real', 'Integer'):
                        refused(I, rep, 'initial type', '%s|%s|%s' % (mode, t, u), '%s with a %s default' % (lab, u), plan(lst('o', [empty('n', iface(**{mode: [var('x', t, LIT[u])]}))])))


# ---------------------------------------------------------------- library calls
def library_types(I, rep, t):
    I.part = 'libraries'
    if t:
        callee = lambda mode, *p, d=None: plan(lst('lib', [reader('r', 'x', t)], iface(**{mode: [var('x', t, d)]}), *p))
        caller = lambda al: plan(lst('top', [call('c', 'lib', al)], *decls(var('y', t, LIT[t]), var('x', t), var('z', t))))
        for mode, what in product(('In', 'InOut'), ('variable', 'literal', 'nothing', 'other')):
            al = {'variable': [('x', ref('y', t))], 'literal': [('x', LIT[t])], 'nothing': [], 'other': [('z', ref('y', t))]}[what]
            lab = '%s %s x of a library given %s' % (mode, t, {'other': 'another name', 'nothing': 'nothing'}.get(what, 'a ' + what))
            if what in ('nothing', 'other'):
                # the caller's own variables are not the library's
                refused(I, rep, 'library scope', mode + '|' + t, lab, caller(al), callee(mode))
                w = Tree(I, rep, lab + ' with a default', caller(al), callee(mode, d=LIT[t]))
            elif mode == 'InOut' and what == 'literal':
                refused(I, rep, 'interface access', 'library|' + t, lab, caller(al), callee(mode))
                continue
            else:
                w = Tree(I, rep, lab, caller(al), callee(mode))
            if not w.ok:
                continue
            r = w.start(w.node(0, 0, 0), t != 'Boolean')
            y = w.local(w.root, 'y')
            w.on(y, r)
            rep.check(w.value(r, t) == VAL[t], 'library value', '%s|%s|%s' % (mode, t, what), '%s reads %s' % (w.lab, w.value(r, t)))
            s, a = I.act(w.st, 'pl_assignable', r)
            rep.check(bool(a) == (mode == 'InOut'), 'interface access', 'library|%s|%s' % (mode, t), '%s is %s' % (w.lab, 'writable' if a else 'read-only'))
            if what == 'variable' and t == 'Boolean':
                w.set(y, False)
                rep.check(w.value(r) is False, 'library value', mode + '|follows', '%s does not follow the variable it was given' % w.lab)
        for u in KINDS:
            if u != t:
                refused(I, rep, 'interface type', 'library|%s|%s' % (t, u), 'In %s x of a library given a %s' % (t, u), plan(call('c', 'lib', [('x', LIT[u])])), callee('In'))


def libraries(I, rep):
    I.part = 'libraries'
    # several aliases, any order; two calls of one library; a name of the caller that the library also uses
    two = plan(lst('lib', [reader('ra', 'a'), reader('rb', 'b')], iface(In=[var('a'), var('b')])))
    T, F = E('BooleanValue', 'true'), E('BooleanValue', 'false')
    lib = lambda n, k: plan(call(n, k, [('z', T)], iface(In=[var('z', 'Boolean', T)])))
    refused(I, rep, 'recursion', 'direct', 'a library that calls itself', plan(call('c', 'l1')), lib('l1', 'l1'))
    refused(I, rep, 'recursion', 'indirect', 'a library that calls itself through another', plan(call('c', 'l1')), lib('l1', 'l2'), lib('l2', 'l1'))
    Tree(I, rep, 'a library called twice, one call inside another library', plan(lst('o', [call('c', 'l1'), call('l1', 'l2')])), lib('l1', 'l2'), plan(empty('l2')))
    for perm in (0, 1):
        al = [('a', T), ('b', F)]
        w = Tree(I, rep, 'two aliases', plan(lst('top', [call('c', 'lib', al[::-1] if perm else al), call('d', 'lib', [('a', ref('b')), ('b', ref('a'))])], *decls(var('a', 'Boolean', F), var('b', 'Boolean', T)))), two)
        if w.ok:
            w.on(w.local(w.root, 'a'), w.local(w.root, 'b'))
            for i, k, want in ((0, 0, True), (0, 1, False), (1, 0, True), (1, 1, False)):
                r = w.start(w.node(i, 0, k), False)
                w.on(r)
                rep.check(w.value(r) is want, 'library value', 'several', '%s: %s of the %s call reads %s' % (w.lab, 'ab'[k], ('first', 'second')[i], w.value(r)))
    # a library in a library: its names go through the intermediate one
    mid = plan(call('mid', 'lib', [('a', ref('b')), ('b', ref('a'))], iface(In=[var('a'), var('b')])))
    w = Tree(I, rep, 'a library calling a library', plan(call('c', 'mid', [('a', T), ('b', F)])), mid, two)
    if w.ok:
        for k, want in ((0, False), (1, True)):
            r = w.start(w.node(0, 0, k), False)
            w.on(r)
            rep.check(w.value(r) is want, 'library value', 'nested', '%s: %s reads %s' % (w.lab, 'ab'[k], w.value(r)))
    # names of the caller stay out of the library, whatever its root node is
    for root in ('interface', 'variables', 'plain', 'deep'):
        k = reader('k', 'x', 'Boolean', iface(In=[var('x', 'Boolean', T)]))
        if root == 'deep':
            k = lst('m', [k])
        parts = {'interface': [iface(In=[var('a', 'Boolean', T)])], 'variables': decls(var('v')), 'plain': [], 'deep': []}[root]
        for where in ('caller', 'call node'):
            d = decls(var('x', 'Boolean', F))
            top = plan(lst('top', [call('c', 'lib', [('z', ref('x'))])], *d)) if where == 'caller' else plan(call('c', 'lib', [('z', ref('x'))], *d))
            w = Tree(I, rep, 'a library whose root has %s, under a %s with a variable x' % (root, where), top, plan(lst('lib', [k], *parts)))
            if w.ok:
                path = (0,) * ({'caller': 3, 'call node': 2}[where] + (root == 'deep'))
                r = w.start(w.node(*path), False)
                w.on(w.local(w.root, 'x'), r)
                rep.check(w.value(r) is True, 'library scope', 'captured|' + root, '%s: x inside the library is the caller\'s variable' % w.lab)
    refused(I, rep, 'library', 'missing', 'a call of a library that is not there', plan(call('c', 'nolib')), two)
    refused(I, rep, 'duplicate', 'alias', 'two aliases of one name', plan(call('c', 'lib', [('a', T), ('b', T), ('a', F)])), two)
    refused(I, rep, 'library', 'ill-typed', 'an alias whose value is ill-typed', plan(call('c', 'lib', [('a', E('NOT', E('IntegerValue', '1'))), ('b', T)])), two)
    refused(I, rep, 'undeclared', 'alias', 'an alias to an undeclared variable', plan(call('c', 'lib', [('a', T), ('b', ref('u'))])), two)


# ---------------------------------------------------------------- mutexes
def mutexes(I, rep):
    I.part = 'mutexes'
    for levels in product((False, True), repeat=4):       # global, outer, middle, own
        g, o, m, own = levels
        uses = E('UsingMutex', E('Name', 'mx'))
        leaf = empty('leaf', *decls(*([mutex('mx'), mutex('other')] if own else [])), uses)
        doc = plan(lst('o', [lst('m', [empty('s', *decls(mutex('mx'))), leaf], *decls(*([mutex('mx2'), mutex('mx')] if m else []))), empty('p', E('UsingMutex', E('Name', 'mx'))) if g or o else empty('p')],
                       *decls(*([mutex('mx')] if o else []))), *([mutex('mx')] if g else []))
        lab = 'mutex declared in %s' % (', '.join(n for n, l in zip(('the plan', 'the outer list', 'the middle list', 'the node'), levels) if l) or 'a sibling only')
        if not any(levels):
            refused(I, rep, 'undeclared', 'mutex', 'a use of a ' + lab, doc)
            continue
        w = Tree(I, rep, lab, doc)
        if not w.ok:
            continue
        u = dict((n.addr, x) for n, x in w.uses)
        nl, np = w.node(0, 1), w.node(1)
        mine = u.get(nl.addr)
        rep.check(mine is not None, 'mutex', 'used', '%s is not used by the node' % lab)
        if (g or o) and mine is not None:
            rep.check((mine == u.get(np.addr)) == (not m and not own), 'mutex', 'innermost', '%s: two nodes %s' % (
                lab, 'whose innermost declarations differ share it' if m or own else 'in the same scope use different ones'))
    g = mutex('mx')
    uses = E('UsingMutex', E('Name', 'mx'))
    libp = plan(empty('lib', uses), g)
    for local in (False, True):
        top = plan(lst('o', [call('c', 'lib', [], *decls(*([mutex('mx')] if local else []))), lst('l', [call('d', 'lib')], *decls(*([mutex('mx')] if local else []))), empty('p', uses)]), g)
        w = Tree(I, rep, 'a library that uses the global mutex%s' % (' below nodes with local ones of that name' if local else ''), top, libp)
        if w.ok:
            u = dict((n.addr, x) for n, x in w.uses)
            xs = [u.get(w.node(0, 0).addr), u.get(w.node(1, 0, 0).addr), u.get(w.node(2).addr)]
            rep.check(xs[0] is not None and len({x.addr for x in xs if x}) == 1, 'mutex', 'library', '%s: it uses another mutex than the rest of the plan' % w.lab)
    refused(I, rep, 'undeclared', 'library mutex', 'a library that uses its caller\'s mutex', plan(call('c', 'lib', [], *decls(mutex('mx')))), plan(empty('lib', uses)))
    refused(I, rep, 'duplicate', 'using', 'a mutex used twice by a node', plan(empty('e', E('UsingMutex', E('Name', 'mx'), E('Name', 'mx'))), g))


def run(P, rep):
    I = PlI(P)
    I.cidx = {i['n']: i['v'] for i in P.enum('NodeImpl::ConditionIndex')['vals']}
    rep.rule('innermost: a variable reference means the innermost enclosing declaration of its name')
    rep.rule('undeclared: a name without declaration in scope ends in a parser error')
    rep.rule('duplicate: two declarations of a name in one node end in a parser error')
    rep.rule('interface: In is read-only, InOut writable, defaults only for missing variables, types agree')
    rep.rule('library: a library sees what it is given and nothing else of its caller')
    rep.rule('mutex: a mutex name means its innermost declaration')
    jobs = [lambda r, f=f, t=t: f(I, r, t) for f in (interfaces, scopes, library_types) for t in KINDS]
    jobs += [lambda r, f=f: f(I, r) for f in (orders, reference_types, visibility, duplicates, initial, libraries, mutexes)]
    par.each(rep, I, jobs)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
