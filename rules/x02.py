"""X02: every malformed plan ends in a parser error; whatever is done to a well-formed plan, nothing else goes wrong."""
import par
from lib_plan import *
import x04
from x04 import var, arr, mutex, decls, iface, ref, empty, reader, lst, call, plan, LIT

MIN_OBLIGATIONS = 1000


def cond(c, *xs):
    return E(c + 'Condition', *xs)


TRUE = E('BooleanValue', 'true')


COND = ('Start', 'Skip', 'Exit', 'Pre', 'Post', 'Invariant', 'End', 'Repeat')
CMD = E('CommandDeclaration', E('Name', 'move'), E('Return', E('Name', 'r'), E('Type', 'Integer')),
        E('Parameter', E('Name', 'a'), E('Type', 'Real')), E('Parameter', E('Name', 'b'), E('Type', 'String')), E('AnyParameters'))
ST = E('StateDeclaration', E('Name', 'st'), E('Return', E('Name', 'r'), E('Type', 'Integer')), E('Parameter', E('Name', 'a'), E('Type', 'Real')))


def command():
    c = E('Command', ref('i', 'Integer'), E('Name', E('StringValue', 'move')), E('Arguments', E('RealValue', '1.0'), ref('s', 'String')))
    n = E('Node', E('NodeId', 'cmd'), E('Comment', 'remark'), *decls(var('i', 'Integer', E('IntegerValue', '1')), var('s', 'String')), E('NodeBody', c), NodeType='Command')
    return plan(n, CMD)


def resources():
    res = E('ResourceList', E('Resource', E('ResourceName', E('StringValue', 'arm')), E('ResourcePriority', E('IntegerValue', '3')),
                              E('ResourceUpperBound', E('RealValue', '1.5')), E('ResourceReleaseAtTermination', TRUE)),
            E('Resource', E('ResourceName', E('StringValue', 'leg')), E('ResourcePriority', E('IntegerValue', '3'))))
    return plan(E('Node', E('NodeId', 'cmd'), E('NodeBody', E('Command', res, E('Name', E('StringValue', 'move')))), NodeType='Command'))


def conditions():
    return plan(E('Node', E('NodeId', 'em'), *[cond(c, TRUE) for c in COND], NodeType='Empty'))


def mutexes():
    return plan(empty('em', *decls(mutex('loc')), E('UsingMutex', E('Name', 'glob'), E('Name', 'loc'))), mutex('glob'))


def assign(t):
    rhs = {'Boolean': E('BooleanRHS', E('NOT', TRUE)), 'Integer': E('NumericRHS', E('ADD', LIT['Integer'], E('IntegerValue', '-1'))),
           'Real': E('NumericRHS', E('SUB', LIT['Real'], LIT['Integer'])), 'String': E('StringRHS', E('Concat', LIT['String'], LIT['String']))}[t]
    return plan(E('Node', E('NodeId', 'as'), E('Priority', '5'), *decls(var('v', t)), E('NodeBody', E('Assignment', ref('v', t), rhs)), NodeType='Assignment'))


def element(t):
    val = E('ArrayValue', LIT[t], LIT[t], Type=t)
    rhs = {'Boolean': 'BooleanRHS', 'String': 'StringRHS'}.get(t, 'NumericRHS')
    return plan(E('Node', E('NodeId', 'el'), *decls(arr('a', t, 2, val)),
                  E('NodeBody', E('Assignment', E('ArrayElement', E('Name', 'a'), E('Index', E('IntegerValue', '0'))), E(rhs, LIT[t]))), NodeType='Assignment'))


def update():
    u = E('Update', E('Pair', E('Name', 'x'), LIT['Integer']), E('Pair', E('Name', 'y'), LIT['String']))
    return plan(E('Node', E('NodeId', 'up'), E('NodeBody', u), NodeType='Update'))


def interface():
    k = empty('one', iface(In=[var('p', 'Integer')], InOut=[var('q', 'Boolean', TRUE), arr('w', 'Real')]), cond('Start', ref('q')))
    return plan(lst('o', [k], *decls(var('p', 'Integer'), arr('w', 'Real', 3))))


def nodes():
    k = empty('two', cond('Start', E('EQInternal', E('NodeStateVariable', E('NodeRef', 'one', dir='sibling')), E('NodeStateValue', 'FINISHED'))),
              cond('End', E('EQInternal', E('NodeOutcomeVariable', E('NodeId', 'one')), E('NodeOutcomeValue', 'SUCCESS'))),
              cond('Skip', E('AND', TRUE, E('IsKnown', E('NodeTimepointValue', E('NodeId', 'one'), E('NodeStateValue', 'EXECUTING'), E('Timepoint', 'START'))))))
    return plan(lst('o', [empty('one'), k]))


def lookups():
    look = E('LookupNow', E('Name', E('StringValue', 'st')), E('Arguments', E('RealValue', '1.0')))
    change = E('LookupOnChange', E('Name', E('StringValue', 'st')), E('Tolerance', E('RealValue', '0.5')), E('Arguments', E('RealValue', '1.0')))
    return plan(empty('one', cond('Start', E('GT', look, LIT['Integer'])), cond('End', E('GT', change, LIT['Integer']))), ST)


def libdecl():
    return plan(empty('one'), E('LibraryNodeDeclaration', E('Name', 'lib'), iface(In=[var('a', 'Boolean')], InOut=[var('b', 'Integer'), arr('c', 'Real')])))


def library():
    return plan(call('c', 'lib', [('a', TRUE), ('b', ref('n', 'Integer'))], *decls(var('n', 'Integer'))))


LIB = plan(reader('lib', 'a', 'Boolean', iface(In=[var('a')], InOut=[var('b', 'Integer')])))
BASES = {f.__name__: (f, ()) for f in (command, resources, conditions, mutexes, update, interface, nodes, lookups, libdecl)}
BASES['library'] = (library, (LIB,))
BASES.update({'%s assignment' % t: ((lambda t=t: assign(t)), ()) for t in LIT})
BASES.update({'%s element' % t: ((lambda t=t: element(t)), ()) for t in LIT})


# ---------------------------------------------------------------- mutations
def places(n, p=()):
    for i, k in enumerate(n[2]):
        if not isinstance(k, str):
            yield p + (i,)
            yield from places(k, p + (i,))


def at(n, p):
    for i in p:
        n = n[2][i]
    return n


def edit(n, p, f):
    """replace the child list around place p"""
    if len(p) == 1:
        ks = list(n[2])
        ks[p[0]:p[0] + 1] = f(ks[p[0]])
        return (n[0], n[1], tuple(ks))
    ks = list(n[2])
    ks[p[0]] = edit(ks[p[0]], p[1:], f)
    return (n[0], n[1], tuple(ks))


BOGUS = E('Bogus', 'x')
NODE_ONCE = ('NodeId', 'NodeBody', 'Interface', 'VariableDeclarations', 'Priority', 'UsingMutex') + tuple(c + 'Condition' for c in COND)
# (parent, child): without it the parent is malformed
REQUIRED = {('Node', 'NodeId'), ('Node', 'NodeBody'), ('DeclareVariable', 'Name'), ('DeclareVariable', 'Type'), ('DeclareArray', 'Name'), ('DeclareArray', 'Type'),
            ('DeclareMutex', 'Name'), ('Command', 'Name'), ('Resource', 'ResourceName'), ('Resource', 'ResourcePriority'), ('Pair', 'Name'),
            ('ArrayElement', 'Name'), ('ArrayElement', 'Index'), ('LibraryNodeCall', 'NodeId'), ('Alias', 'NodeParameter'), ('LookupNow', 'Name'), ('LookupOnChange', 'Name'),
            ('NodeTimepointValue', 'NodeId'), ('NodeTimepointValue', 'NodeStateValue'), ('NodeTimepointValue', 'Timepoint'), ('CommandDeclaration', 'Name'),
            ('StateDeclaration', 'Name'), ('StateDeclaration', 'Return'), ('Return', 'Type'), ('Parameter', 'Type'), ('LibraryNodeDeclaration', 'Name'), ('PlexilPlan', 'Node')}
# elements whose only child is their content
HOLDS_ONE = {'NodeBody', 'InitialValue', 'ResourceName', 'ResourcePriority', 'ResourceUpperBound', 'ResourceReleaseAtTermination', 'Index', 'Tolerance',
             'BooleanRHS', 'NumericRHS', 'StringRHS', 'IsKnown', 'NOT', 'NodeStateVariable', 'NodeOutcomeVariable'} | {c for c in NODE_ONCE if c.endswith('Condition')}
ONCE = {('Node', c) for c in NODE_ONCE} | {('Resource', c) for c in ('ResourceName', 'ResourcePriority', 'ResourceUpperBound', 'ResourceReleaseAtTermination')}
# may be empty
EMPTY_OK = {'NodeList', 'Arguments', 'StringValue', 'VariableDeclarations', 'Comment', 'UsingMutex', 'Interface', 'In', 'InOut', 'Update', 'GlobalDeclarations',
            'ArrayValue', 'ResourceList', 'Concat'}
# anything may be added to these without being read
LISTS = {'VariableDeclarations', 'UsingMutex', 'Interface', 'In', 'InOut', 'ResourceList', 'Resource', 'Update', 'GlobalDeclarations', 'Node', 'NodeList', 'Arguments', 'ArrayValue'}
EXPRS = ('BooleanValue', 'IntegerValue', 'RealValue', 'StringValue', 'BooleanVariable', 'IntegerVariable', 'RealVariable', 'StringVariable', 'AND', 'ADD', 'SUB', 'Concat', 'NOT',
         'EQInternal', 'GT', 'LookupNow', 'LookupOnChange', 'IsKnown', 'NodeStateVariable', 'NodeOutcomeVariable', 'NodeTimepointValue', 'NodeStateValue', 'NodeOutcomeValue', 'ArrayValue', 'ArrayElement')


# names that are only written down, and elements whose text is not read at all
UNREAD = {('Return', 'Name'), ('Parameter', 'Name'), ('Node', 'Comment')}
# any text will do
FREE = {'Comment', 'StringValue'}
DECLARED = {('DeclareVariable', 'Name'), ('DeclareArray', 'Name'), ('DeclareMutex', 'Name'), ('CommandDeclaration', 'Name'), ('StateDeclaration', 'Name'),
            ('LibraryNodeDeclaration', 'Name'), ('Return', 'Name'), ('Parameter', 'Name'), ('Pair', 'Name'), ('Node', 'NodeId')}
OTHERS = (TRUE, LIT['Integer'], LIT['Real'], LIT['String'], E('ArrayValue', LIT['Integer'], Type='Integer'), E('IntegerVariable', 'zzz'),
          E('LookupNow', E('Name', LIT['String'])), E('NodeStateValue', 'FINISHED'), E('NodeOutcomeVariable', E('NodeId', 'zzz')), E('Index', LIT['Integer']),
          E('DeclareVariable', E('Name', 'zzz'), E('Type', 'Integer')), 'text')
ATTRS = {'NodeType': ('Assignment', 'Command', 'Empty', 'LibraryNodeCall', 'NodeList', 'Update', 'Bogus', ''), 'Type': ('Boolean', 'Integer', 'Real', 'String', 'Bogus', ''),
         'dir': ('self', 'parent', 'child', 'sibling', 'bogus', '')}


NOT = {'Priority': ('-1', '1.5', '5x', '2147483648', '4294967294', '4294967301', '18446744073709551617'), 'MaxSize': ('-1', '1.5', '5x', '4294967301'), 'BooleanValue': ('2', 'yes', 'truely', '1.0'),
       'IntegerValue': ('1.5', '5x', '4294967301', '-2147483649', '5 5', 'true'), 'RealValue': ('1.5x', '1.5 2', 'true'), 'Timepoint': ('START ', 'start', 'BEGIN'),
       'NodeStateValue': ('FINISHED ', 'finished', 'SUCCESS'), 'NodeOutcomeValue': ('SUCCESSES', 'FINISHED'), 'Type': ('integer', 'Int', 'IntegerArray', 'Any ')}


def mutants(doc):
    """(kind, where, plan, must it be refused?)"""
    for p in places(doc):
        e, up = at(doc, p), at(doc, p[:-1])
        where = '<%s> in <%s>' % (e[0], up[0])
        pair = (up[0], e[0])
        leaf = bool(e[2]) and all(isinstance(k, str) for k in e[2])
        yield 'without', where, edit(doc, p, lambda x: []), pair in REQUIRED or up[0] in HOLDS_ONE or up[0] in ('Assignment', 'GT', 'EQInternal', 'Pair')
        yield 'twice', where, edit(doc, p, lambda x: [x, x]), pair in ONCE
        yield 'renamed', where, edit(doc, p, lambda x: [('Bogus', x[1], x[2])]), pair not in UNREAD
        if e[2]:
            yield 'empty', where, edit(doc, p, lambda x: [(x[0], x[1], ())]), e[0] not in EMPTY_OK and pair not in UNREAD
            yield 'text only', where, edit(doc, p, lambda x: [(x[0], x[1], ('junk',))]), not leaf
        yield 'junk before', where, edit(doc, p, lambda x: [BOGUS, x]), up[0] in LISTS | HOLDS_ONE or e[0] in EXPRS and up[0] != 'Alias'
        yield 'junk in', where, edit(doc, p, lambda x: [(x[0], x[1], (BOGUS,) + x[2])]), None if leaf or e[0] in ('AnyParameters', 'Return', 'Parameter') else True
        yield 'junk after', where, edit(doc, p, lambda x: [x, BOGUS]), up[0] in LISTS or up[0].endswith('Declaration') and up[0] != 'DeclareMutex'
        if leaf:
            yield 'of an unknown name', where, edit(doc, p, lambda x: [(x[0], x[1], ('zzz',))]), pair not in DECLARED and e[0] not in FREE and pair not in UNREAD
            for v in NOT.get(e[0], ()):
                yield 'of content "%s"' % v, where, edit(doc, p, lambda x: [(x[0], x[1], (v,))]), True
            for v in ('5', 'UNKNOWN', 'true', '7 7'):
                yield 'of content "%s"' % v, where, edit(doc, p, lambda x: [(x[0], x[1], (v,))]), None
        for k in e[1]:
            yield 'without ' + k, where, edit(doc, p, lambda x: [(x[0], {i: v for i, v in x[1].items() if i != k}, x[2])]), k != 'Type'
            for v in ATTRS.get(k, ()):
                if v != e[1][k]:
                    yield '%s %s' % (k, v), where, edit(doc, p, lambda x: [(x[0], dict(x[1], **{k: v}), x[2])]), v in ('Bogus', 'bogus')
        if up[0] in ('DeclareVariable', 'DeclareArray', 'DeclareMutex') and e[0] == 'Name':
            yield 'with a value in', where, edit(doc, p, lambda x: [x, E('InitialValue', TRUE)]), None if up[0] == 'DeclareMutex' else True
        if e[0] in EXPRS or up[0] in HOLDS_ONE:
            for o in OTHERS:
                if o != e:
                    yield 'replaced by ' + (o if isinstance(o, str) else '<%s>' % o[0]), where, edit(doc, p, lambda x: [o]), None
        q = p[-1] + 1
        if q < len(up[2]):
            ks = list(up[2])
            ks[p[-1]], ks[q] = ks[q], ks[p[-1]]
            yield 'swapped', where, (edit(doc, p[:-1], lambda x: [(x[0], x[1], tuple(ks))]) if len(p) > 1 else (doc[0], doc[1], tuple(ks))), None


def judge(I, rep, base, kind, where, doc, libs, must):
    lab, key = '%s plan, %s %s' % (base, where, kind), '%s|%s|%s' % (base, where, kind)
    try:
        r = I.parse_plan(doc, *libs)
    except Broken as e:
        raise Broken('%s: %s' % (lab, e))
    for s, v, g in r:
        if g is None:
            rep.check(must is not True, 'refused', key, '%s is accepted' % lab)
            bad = [e for e in s.trace if e[0] in ('dead', 'twice')]
            rep.check(not bad, 'sound', key, '%s: a deleted object is used' % lab)
        else:
            rep.check(g[:2] == ('thr', 'PLEXIL::ParserException'), 'parser error', key, '%s ends in %s' % (lab, (g,)))


def run(P, rep):
    I = PlI(P)
    I.part = 'base'
    rep.rule('refused: a plan with an element missing, doubled, unknown or empty where the language needs one ends in a parser error')
    rep.rule('sound: parsing an accepted plan uses nothing that was deleted and deletes nothing twice')
    rep.rule('parser error: no change to a plan leads to any other failure than a parser error')
    jobs = []
    for b, (f, libs) in BASES.items():
        doc = f()

        def base(r, b=b, doc=doc, libs=libs):
            x04.Tree(I, r, 'the %s plan' % b, doc, *libs)
        jobs.append(base)
        ms = list(mutants(doc))
        for i in range(0, len(ms), 40):
            jobs.append(lambda r, b=b, libs=libs, part=ms[i:i + 40]: [judge(I, r, b, k, w, d, libs, m) for k, w, d, m in part])
    par.each(rep, I, jobs)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
