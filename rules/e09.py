"""E09: what is not a declared variable, an element of one or an in-out alias of one can not be written, by any route a plan has."""
from itertools import product
import par
from lib_plan import *
import x04
from x04 import var, arr, decls, iface, ref, empty, lst, call, plan, LIT, Tree, refused

MIN_OBLIGATIONS = 400
RHS = {'Boolean': 'BooleanRHS', 'String': 'StringRHS', 'Integer': 'NumericRHS', 'Real': 'NumericRHS'}


# ---------------------------------------------------------------- the classes
def classes(I, rep):
    P = I.P
    subs = sorted(c for c in P.classes if P.is_a(c, 'PLEXIL::Expression'))
    writable = [c for c in subs if P.is_a(c, 'PLEXIL::Variable')] + ['PLEXIL::MutableArrayReference']
    kinds = ('PLEXIL::Alias', 'PLEXIL::ArrayReference', 'PLEXIL::Function', 'PLEXIL::Lookup', 'PLEXIL::NodeFunction', 'PLEXIL::Constant<int>')
    for k in kinds:
        P.cls(k)                # the read-only kinds must still exist
    for c in subs:
        want = c in writable or c == 'PLEXIL::Assignable'
        short = c.replace('PLEXIL::', '')[:60]
        rep.check(want or not P.is_a(c, 'PLEXIL::Assignable'), 'kinds', short, 'the read-only expression class %s has the write interface' % short)
        for w in ('pl_assignable', 'pl_as', 'pl_cas'):
            st = State()
            a = ('O', 'expr', c)
            st.cls[a] = c
            for s, v, g in I.w(st, w, ptr(a)):
                got = v if w == 'pl_assignable' else (v if v in (0, None) else True)
                if w != 'pl_assignable' and isinstance(v, Ptr):
                    rep.check(root(v.addr) == a, 'kinds', short + '|other', '%s offers write access to another object' % short)
                rep.check(g is None and bool(got) == want, 'kinds', short + '|' + w, '%s %s write access' % (short, 'offers' if got else 'does not offer'))


def root(a):
    while isinstance(a, tuple) and a and a[0] == 'F' and isinstance(a[2], str) and a[2].startswith('$'):
        a = a[1]
    return a


# ---------------------------------------------------------------- chains of interfaces
def target(use, t):
    e = E('ArrayElement', E('Name', 'x'), E('Index', E('IntegerValue', '0')))
    if use == 'assign':
        return E('Assignment', ref('x', t), E(RHS[t], LIT[t]))
    if use == 'array':
        return E('Assignment', E('ArrayVariable', 'x'), E('ArrayRHS', E('ArrayValue', LIT[t], Type=t)))
    if use == 'element':
        return E('Assignment', e, E(RHS[t], LIT[t]))
    x = {'result': ref('x', t), 'array result': E('ArrayVariable', 'x'), 'element result': e}[use]
    return E('Command', x, E('Name', E('StringValue', 'go')))


USES = {False: ('assign', 'result'), True: ('array', 'element', 'array result', 'element result')}
WHAT = {'assign': 'an assignment to', 'result': 'the result of a command in', 'array': 'an assignment to all of', 'element': 'an assignment to an element of',
        'array result': 'the result of a command in all of', 'element result': 'the result of a command in an element of'}


def body(name, use, t, *parts):
    b = target(use, t)
    return E('Node', E('NodeId', name), *parts, E('NodeBody', b), NodeType='Command' if b[0] == 'Command' else 'Assignment')


def declaration(array, t):
    return arr('x', t) if array else var('x', t)


def chain(levels, array, t, leaf):
    """nested lists, each passing x on as its level says; the leaf is innermost"""
    n = leaf
    for i, l in reversed(list(enumerate(levels))):
        n = lst('l%d' % i, [n], *([iface(**{l: [declaration(array, t)]})] if l else []))
    return n


MAY = 'may be refused'


def judge(I, rep, lab, key, ok, use, path, doc, *libs):
    if not ok:
        refused(I, rep, 'read-only', key, lab, doc, *libs)
        return
    if ok == MAY:
        r = I.parse_plan(doc, *libs)
        if all(g is not None for s, v, g in r):
            refused(I, rep, 'read-only', key, lab, doc, *libs)
            return
    w = Tree(I, rep, lab, doc, *libs)
    if not w.ok:
        return
    n = w.node(*path)
    w.st, b = I.act(w.st, 'pl_command' if 'result' in use else 'pl_assign', n)
    w.st, d = I.act(w.st, 'pl_cdest' if 'result' in use else 'pl_dest', b)
    w.st, base = I.act(w.st, 'pl_base', d)
    own = w.local(w.root, 'x')
    rep.check(isinstance(base, Ptr) and own is not None and root(base.addr) == root(own.addr), 'writes', key, '%s writes something else than the declared variable' % lab)


FEW = ((None, None, None), ('InOut', 'InOut', 'InOut'), ('In', None, 'InOut'), ('InOut', 'In', None), (None, None, 'In'), (None, 'InOut', None))


def chains(I, rep, array, t, use, full):
    I.part = 'chains'
    top = decls(arr('x', t, 3) if array else var('x', t))
    for levels in product((None, 'In', 'InOut'), repeat=3) if full else FEW:
        writable = 'In' not in levels
        # an InOut of something read-only is refused wherever it is
        path = ' of '.join([l for l in reversed(levels) if l] + ['a variable'])
        doc = plan(lst('o', [chain(levels, array, t, body('w', use, t))], *top))
        judge(I, rep, '%s %s%s %s' % (WHAT[use], t, ' array' if array else '', path), '%s|%s' % (use, t), writable, use, (0,) * 4, doc)


# ---------------------------------------------------------------- library calls
def items(array, t):
    """(what, expression, writable, declarations and interface of the caller)"""
    own = decls(arr('x', t, 3), arr('m', t, 3)) if array else decls(var('x', t), arr('m', t, 3))
    name = (lambda n: E('ArrayVariable', n)) if array else (lambda n: ref(n, t))
    yield 'a variable', name('x'), True, None
    yield 'an InOut variable', name('x'), True, 'InOut'
    yield 'an In variable', name('x'), False, 'In'
    if array:
        yield 'an array literal', E('ArrayValue', LIT[t], Type=t), False, None
    else:
        yield 'a literal', LIT[t], False, None
        yield 'a lookup', E('LookupNow', E('Name', E('StringValue', 'st'))), False, None
        op = {'Boolean': E('NOT', ref('x', t)), 'Integer': E('ADD', ref('x', t), LIT[t]), 'Real': E('ADD', ref('x', t), LIT[t]), 'String': E('Concat', ref('x', t))}[t]
        yield 'an operation', op, False, None


def elements(t):
    e = E('ArrayElement', E('Name', 'x'), E('Index', E('IntegerValue', '1')))
    yield 'an element', e, MAY, None
    yield 'an element of an InOut array', e, MAY, 'InOut'
    yield 'an element of an In array', e, False, 'In'


def library(I, rep, array, t, use):
    I.part = 'libraries'
    st = E('StateDeclaration', E('Name', 'st'), E('Return', E('Name', 'r'), E('Type', t)))
    work = [(w, e, ok, m, array) for w, e, ok, m in items(array, t)]
    if not array:
        work += [(w, e, ok, m, True) for w, e, ok, m in elements(t)]
    for (what, e, ok, mid, outer), mode, depth in product(work, ('In', 'InOut'), (0, 1)):
        if depth and (mode == 'In' or mid == 'InOut'):
            continue
        c = call('c', 'lib0', [('x', e)])
        inner = lst('m', [c], *([iface(**{mid: [declaration(outer, t)]})] if mid else []))
        doc = plan(lst('o', [inner], *decls(arr('x', t, 3) if outer else var('x', t))), st)
        last = plan(lst('lib%d' % depth, [body('w', use, t)], iface(**{mode: [declaration(array, t)]})))
        libs = [last]
        if depth:
            libs = [plan(lst('lib0', [call('c', 'lib1', [('x', E('ArrayVariable', 'x') if array else ref('x', t))])], iface(**{'InOut': [declaration(array, t)]}))), last]
        lab = '%s %s %s%s of a library%s given %s' % (WHAT[use], mode, t, ' array' if array else '', ' called by a library with an InOut' if depth else '', what)
        judge(I, rep, lab, '%s|%s|library' % (use, t), mode == 'InOut' and ok, use, (0,) * (6 if depth else 4), doc, *libs)


def constants(I, rep, t):
    """anything else in the place of a variable to write"""
    I.part = 'others'
    bad = {'a literal': LIT[t], 'a lookup': E('LookupNow', E('Name', E('StringValue', 'st'))), 'an operation': E('ADD', LIT['Integer'], LIT['Integer']),
           'a node state': E('NodeStateVariable', E('NodeId', 'n')), 'an outcome': E('NodeOutcomeVariable', E('NodeId', 'n')), 'a command handle': E('NodeCommandHandleVariable', E('NodeId', 'n')),
           'a time point': E('NodeTimepointValue', E('NodeId', 'n'), E('NodeStateValue', 'EXECUTING'), E('Timepoint', 'START')), 'a failure type': E('NodeFailureVariable', E('NodeId', 'n'))}
    for what, e in bad.items():
        for use in USES[False]:
            b = E('Assignment', e, E(RHS[t], LIT[t])) if use == 'assign' else E('Command', e, E('Name', E('StringValue', 'go')))
            n = E('Node', E('NodeId', 'n'), E('NodeBody', b), NodeType=b[0])
            refused(I, rep, 'read-only', '%s|%s|%s' % (use, t, what), '%s %s' % (WHAT[use], what), plan(n))


def run(P, rep):
    I = PlI(P)
    I.part = 'base'
    rep.rule('kinds: only variables and elements of writable arrays have the write interface')
    rep.rule('read-only: a plan that would write through an In variable, a literal, a lookup, an operation or a node value is refused, whatever lies between')
    rep.rule('writes: what an accepted plan writes through in-out aliases is the declared variable')
    deep = rep.tier == 'thorough'
    jobs = [lambda r: classes(I, r)]
    for t in x04.KINDS:
        jobs.append(lambda r, t=t: constants(I, r, t))
        for array in (False, True):
            for use in USES[array]:
                if deep or t == 'Integer' or use in ('assign', 'element'):
                    jobs.append(lambda r, a=array, t=t, use=use: chains(I, r, a, t, use, deep or t == 'Integer' and use in ('assign', 'element')))
                if deep or t == 'Integer' or t == 'String' and use == 'assign':
                    jobs.append(lambda r, a=array, t=t, use=use: library(I, r, a, t, use))
    par.each(rep, I, jobs)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
