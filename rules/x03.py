"""X03: each condition element of a plan becomes that condition of its node; built-in conditions complete the user's."""
from itertools import combinations, product
import par
from lib_plan import *

MIN_OBLIGATIONS = 500
USER = ('Skip', 'Start', 'Pre', 'Exit', 'Invariant', 'End', 'Post', 'Repeat')
ANC = ('Exit', 'Invariant', 'End')
IDX = dict([(c, c[0].lower() + c[1:] + 'Idx') for c in USER] + [('Ancestor' + c, 'ancestor' + c + 'Idx') for c in ANC] +
           [('ActionComplete', 'actionCompleteIdx'), ('AbortComplete', 'abortCompleteIdx')])
HEARD = [c for c in IDX if c not in ('Pre', 'Post')]
V = (True, False, U)


def OR(*xs):
    return True if True in xs else U if U in xs else False


def AND(*xs):
    return False if False in xs else U if U in xs else True


def node(kind, name, conds, *kids, end=None):
    """a node element; conds: condition -> operand element name"""
    cs = [E(c + 'Condition', end if c == 'End' and end is not None else E('$' + name + c)) for c in conds]
    body = {'Empty': None,
            'Command': E('Command', E('Name', E('$cmd'))),
            'Update': E('Update', E('Pair', E('Name', 'x'), E('$val'))),
            'Assignment': E('Assignment', E('BooleanVariable', 'x'), E('BooleanRHS', E('$val'))),
            'NodeList': E('NodeList', *kids),
            'LibraryNodeCall': E('LibraryNodeCall', E('NodeId', 'lib'))}[kind]
    decl = [E('VariableDeclarations', E('DeclareVariable', E('Name', 'x'), E('Type', 'Boolean')))] if kind == 'Assignment' else []
    # the schema lets a node's elements come in any order: conditions before and after the declarations
    return E('Node', E('NodeId', name), *cs[:len(cs) // 2], *decl, *cs[len(cs) // 2:], *([E('NodeBody', body)] if body else []), NodeType=kind)


class World:
    """one built plan: nodes by name, and operations on it"""

    def __init__(self, I, rep, doc, lab):
        self.I, self.rep, self.lab = I, rep, lab
        r = I.build(doc)
        self.ok = rep.check(len(r) == 1 and r[0][2] is None, 'built', doc[1].get('NodeType', ''),
                            '%s is not built: %s' % (lab, [o[2] for o in r][:3]))
        if not self.ok:
            return
        s, n, _ = r[0]
        self.safe(s, 'parsing')
        self.st = clean(s)
        self.root = n

    def safe(self, s, what):
        bad = [e for e in s.trace if e[0] in ('dead', 'twice')]
        self.rep.check(not bad, 'ownership', 'dead object', '%s: an expression already deleted is used or deleted again while %s (%s)' % (self.lab, what, bad[0][1] if bad else ''))

    def kid(self, n, i=0):
        self.st, k = self.I.act(self.st, 'pl_kid', n, i)
        clean(self.st)
        return k

    def cond(self, n, c):
        s, x = self.I.act(self.st, 'pl_cond', n, self.I.cidx[IDX[c]])
        self.st = clean(s)
        return x if isinstance(x, Ptr) else None

    def activate(self, x):
        self.st = clean(self.I.act(self.st, 'x_activate', x)[0])

    def value(self, x):
        s, v = self.I.bool_of(self.st, x)
        return v

    def delete(self, ops, borrowed=()):
        s, _ = self.I.act(clean(self.st.fork()), 'pl_delnode', self.root)
        self.safe(s, 'deleting the plan')
        d = [e[1].addr for e in s.trace if e[0] == 'delete']
        for o in ops:
            n = d.count(self.I.opvar(s, o).addr)
            want = 0 if o in borrowed else 1
            self.rep.check(n == want, 'ownership', o.lstrip('$') + '|' + self.kind(o), '%s: %s condition expression is deleted %d times with its node' % (
                self.lab, 'the borrowed' if want == 0 else 'the', n))

    def kind(self, o):
        return 'borrowed' if o in self.I.borrowed else 'own'


def own_slots(I, rep, kind, conds):
    """every user condition sits in its own place and nowhere else, and wakes its node"""
    for borrowed in ((), tuple('$n' + c for c in conds)):
        I.borrowed = borrowed + ('$parent',)
        lab = '%s node with %s' % (kind, ', '.join(c + 'Condition' for c in conds) or 'no conditions')
        kids = [node('Empty', 'k', ())] if kind == 'NodeList' else []
        w = World(I, rep, node(kind, 'n', conds, *kids), lab)
        if not w.ok:
            continue
        for c in conds:
            w.activate(I.opvar(w.st, '$n' + c))
        where = {c: w.cond(w.root, c) for c in IDX}
        for c, x in where.items():
            if x is not None and (c in conds or not c.startswith('Ancestor')):
                w.activate(x)
        for c in USER:
            x = where[c]
            if c == 'End' and kind in ('Update', 'NodeList'):
                rep.check(x is not None, 'default', kind + '|End', '%s has no end condition' % lab)
                if c not in conds:
                    continue
            elif not rep.check((x is not None) == (c in conds), 'installed', kind + '|' + c,
                               '%s: %s condition is %s' % (lab, c, 'missing' if x is None else 'there')):
                continue
            if c in conds:
                for v in V:
                    for o in conds:           # all others set against it
                        if o != c:
                            w.st = clean(I.setop(w.st, '$n' + o, v is not True))
                    old = w.value(x)
                    s = I.setop(w.st, '$n' + c, v)
                    wakes = {e[1].addr for e in s.trace if e[0] == 'wake'}
                    w.st = clean(s)
                    got, want = w.value(x), v
                    if c == 'End' and kind == 'Command':
                        want = OR(False, v)
                    if c == 'End' and kind == 'Update':
                        want = AND(False, v)
                    rep.check(got == want, 'value', kind + '|' + c, '%s: with its %s expression %s and the others opposite the condition reads %s' % (lab, c, v, got))
                    if c in HEARD and old != got:
                        rep.check(w.root.addr in wakes, 'wakes', kind + '|' + c, '%s: a change of %s does not wake the node' % (lab, c))
        for c in ('ActionComplete', 'AbortComplete'):
            need = kind != 'Empty' if c == 'ActionComplete' else kind in ('Assignment', 'Command')
            rep.check((where[c] is not None) == need, 'built-in', kind + '|' + c, '%s %s %s condition' % (lab, 'has no' if need else 'has a', c))
        for c in ANC:
            if kind not in ('NodeList', 'LibraryNodeCall'):
                rep.check(where['Ancestor' + c] is None, 'ancestor', kind + '|root' + c, '%s without a parent has an ancestor %s condition' % (lab, c))
        w.delete(['$n' + c for c in conds], borrowed)
    I.borrowed = ()


def completion(I, rep, kind):
    """built-in completion conditions against the handle, the acknowledgement and the children"""
    for user, only in product((None, 'expr', 'true'), (None, 'End', 'ActionComplete', 'AbortComplete')):
        if only == 'AbortComplete' and kind not in ('Command', 'Assignment') or only == 'End' and kind in ('Command', 'Assignment') and not user:
            continue
        true = E('BooleanValue', 'true')
        conds = ('End',) if user else ()
        lab = '%s node with %s' % (kind, {None: 'no end condition', 'expr': 'an end condition', 'true': 'the end condition true'}[user])
        nk = 2 if kind == 'NodeList' else 0
        w = World(I, rep, node(kind, 'n', conds, *[node('Empty', 'k%d' % i, ()) for i in range(nk)], end=true if user == 'true' else None), lab)
        if not w.ok:
            continue
        for o in ('$nEnd', '$cmd', '$val'):
            if I.opvar(w.st, o) is not None:
                w.activate(I.opvar(w.st, o))
        # each condition alone too: in many states only one of them is active
        end, act, abo = (w.cond(w.root, c) if only in (None, c) else None for c in ('End', 'ActionComplete', 'AbortComplete'))
        lab += ' (only its %s condition active)' % only if only else ''
        uvals = V if user == 'expr' else (True,)

        def conds_on():
            for x in (end, act, abo):
                if x is not None:
                    w.activate(x)

        def step(s, what, want_act, want_end, want_abo=None):
            """after an event: values and wake-ups"""
            wakes = {e[1].addr for e in s.trace if e[0] == 'wake'}
            old = [w.value(x) if x is not None else None for x in (act, end, abo)]
            w.st = clean(s)
            new = [w.value(x) if x is not None else None for x in (act, end, abo)]
            for c, g, want, o in zip(('ActionComplete', 'End', 'AbortComplete'), new, (want_act, want_end, want_abo), old):
                if want is None or g is None and only:
                    continue
                rep.check(g in (want if isinstance(want, tuple) else (want,)), 'completion', kind + '|' + c, '%s: %s the %s condition is %s instead of %s' % (lab, what, c, g, want))
            if old != new:
                rep.check(w.root.addr in wakes, 'wakes', kind + '|built-in', '%s: %s the conditions %s become %s and the node is not woken' % (lab, what, old, new))
        if kind == 'Command':
            w.st, cmd = I.act(w.st, 'pl_command', w.root)
            w.st = clean(I.act(w.st, 'ra_on', cmd)[0])
            conds_on()
            hv = {i['n']: i['v'] for i in I.P.enum('CommandHandleValue')['vals']}
            names = [n for n in hv if n not in ('COMMAND_HANDLE_MAX', 'NO_COMMAND_HANDLE')]
            over = ('COMMAND_DENIED', 'COMMAND_FAILED', 'COMMAND_INTERFACE_ERROR')
            base = w.st
            for h in names:
                for u in uvals:
                    w.st = base.fork()
                    if user == 'expr':
                        w.st = clean(I.setop(w.st, '$nEnd', u))
                    step(w.st, 'before any handle with the user condition %s' % u, (False, U), None if end is None else OR(False, u), (False, U))
                    step(I.act(clean(w.st.fork()), 'ra_handle', cmd, hv[h])[0], 'with the handle %s and the user condition %s' % (h, u), True, None if end is None else OR(h in over, u), (False, U))
            if user != 'expr' and end is not None:
                rep.check(w.value(end) is True, 'completion', kind + '|default', '%s: the condition is not true' % lab)
        elif kind == 'Update':
            w.st, up = I.act(w.st, 'pl_update', w.root)
            w.st = clean(I.act(w.st, 'pl_upon', up)[0])
            conds_on()
            base = w.st
            for u in uvals:
                for ack in (True, False):
                    w.st = base.fork()
                    if user == 'expr':
                        w.st = clean(I.setop(w.st, '$nEnd', u))
                    step(w.st, 'before the acknowledgement with the user condition %s' % u, (False, U), AND(False, u))
                    step(I.act(clean(w.st.fork()), 'pl_upack', up, ack)[0], 'acknowledged %s with the user condition %s' % (ack, u), ack, AND(ack, u))
        elif kind == 'Assignment':
            w.st, a = I.act(w.st, 'pl_assign', w.root)
            for c, x, nm in (('ActionComplete', act, 'a_ack'), ('AbortComplete', abo, 'a_abort')):
                s, y = I.act(w.st, nm, a)
                rep.check(x is None or x == y, 'completion', kind + '|' + c, '%s: the %s condition is not the assignment\'s own' % (lab, c))
        elif kind == 'NodeList':
            conds_on()
            kids = [w.kid(w.root, i) for i in range(nk)]
            ns = {i['n']: i['v'] for i in I.P.enum('NodeState')['vals'] if i['n'].endswith('_STATE') and i['n'] != 'NO_NODE_STATE'}
            for pair in product(ns, repeat=nk):
                I.states = {k.addr: ns[p] for k, p in zip(kids, pair)}
                st = 'with children in %s' % ', '.join(pair)
                done = all(p == 'FINISHED_STATE' for p in pair)
                idle = all(p in ('FINISHED_STATE', 'WAITING_STATE') for p in pair)
                rep.check(act is None or w.value(act) == idle, 'completion', kind + '|ActionComplete', '%s: %s the action-complete condition is not %s' % (lab, st, idle))
                if user is None and end is not None:
                    rep.check(w.value(end) == done, 'completion', kind + '|End', '%s: %s the end condition is %s' % (lab, st, w.value(end)))
            if user == 'true' and end is not None:
                rep.check(w.value(end) is True, 'completion', kind + '|End', '%s: the end condition is %s' % (lab, w.value(end)))
            I.states = {}
            if only != 'End' or user is None:      # the list hears of its children's states
                for k in kids:
                    s, _ = I.act(clean(w.st.fork()), 'pl_changed', k)
                    rep.check(w.root.addr in {e[1].addr for e in s.trace if e[0] == 'wake'}, 'wakes', kind + '|children', '%s: a change of a child\'s state does not wake the list' % lab)
        w.delete(['$nEnd'] if user == 'expr' else [])


def subsets(xs):
    return [c for n in range(len(xs) + 1) for c in combinations(xs, n)]


def ancestors(I, rep, kind, tops):
    """end, exit and invariant conditions of every ancestor reach a node, whichever of them exist"""
    for a in tops:
        for b in subsets(ANC):
            lab = 'a list with %s in a list with %s' % (', '.join(b) or 'nothing', ', '.join(a) or 'nothing')
            I.borrowed = ()
            w = World(I, rep, node('NodeList', 'a', a, node('NodeList', 'b', b, node(kind, 'c', ('Exit', 'Invariant', 'End')), node('Empty', 'd', ()))), lab)
            if not w.ok:
                continue
            nb = w.kid(w.root)
            nc, nd = w.kid(nb, 0), w.kid(nb, 1)
            ops = ['$a' + c for c in a] + ['$b' + c for c in b]
            for o in ops + ['$c' + c for c in ANC]:
                w.activate(I.opvar(w.st, o))
            base = {}
            for c in ANC:
                base[c] = [(n, w.cond(n, 'Ancestor' + c)) for n in (nb, nc, nd)]
                for n, x in base[c]:
                    if x is not None:
                        w.activate(x)
            for c in ANC:
                srcs = [['$a' + c] if c in a else [], (['$a' + c] if c in a else []) + (['$b' + c] if c in b else [])]
                for (n, x), src in zip(base[c], (srcs[0], srcs[1], srcs[1])):
                    rep.check((x is not None) == bool(src), 'ancestor', c, '%s: the ancestor %s condition is %s' % (lab, c, 'missing' if x is None else 'there'))
                others = [o for o in ops if not o.endswith(c)]
                comb = AND if c == 'Invariant' else OR
                for vs in product(V, repeat=len(srcs[1])):
                    for last in range(len(vs)):
                        s = w.st
                        for o in others:          # other conditions must not leak in
                            s = clean(I.setop(s, o, c == 'Invariant' and vs[0] is not True or c != 'Invariant' and vs[0] is False))
                        order = [i for i in range(len(vs)) if i != last] + [last]
                        # the last to change is set to something else before, to see its change announced
                        s = clean(I.setop(s, srcs[1][last], False if vs[last] is not False else True))
                        for i in order[:-1]:
                            s = clean(I.setop(s, srcs[1][i], vs[i]))
                        w.st = s
                        old = {i: w.value(x) if x is not None else None for i, (n, x) in enumerate(base[c])}
                        s = I.setop(w.st, srcs[1][last], vs[last])
                        wakes = {e[1].addr for e in s.trace if e[0] == 'wake'}
                        w.st = clean(s)
                        val = dict(zip(srcs[1], vs))
                        for i, ((n, x), src) in enumerate(zip(base[c], (srcs[0], srcs[1], srcs[1]))):
                            if x is None:
                                continue
                            got, want = w.value(x), comb(*[val[o] for o in src])
                            rep.check(got == want, 'ancestor value', c, '%s, %s: the ancestor %s condition of the %s is %s instead of %s' % (
                                lab, ', '.join('%s %s' % (o[1:], v) for o, v in val.items()), c, 'inner list' if i == 0 else 'innermost nodes', got, want))
                            if old[i] != got:
                                rep.check(n.addr in wakes, 'wakes', 'ancestor ' + c, '%s: a change of %s does not wake the %s' % (lab, srcs[1][last][1:], 'inner list' if i == 0 else 'innermost nodes'))
            w.delete(ops + ['$c' + c for c in ANC])


def typed(I, rep, kind):
    """a condition that is not Boolean is refused, and what was created is not left behind"""
    for c in USER:
        for t in ('INTEGER_TYPE', 'REAL_TYPE', 'STRING_TYPE'):
            for borrowed in ((), ('$n' + c,)):
                I.types, I.borrowed = dict(I.base_types, **{'$n' + c: t}), borrowed
                kids = [node('Empty', 'k', ())] if kind == 'NodeList' else []
                lab = '%s node with a %s condition of type %s' % (kind, c, t)
                for o in I.build(node(kind, 'n', (c,), *kids)):
                    rep.check(o[2] is not None and o[2][:2] == ('thr', 'PLEXIL::ParserException'), 'type', kind + '|' + c, '%s is accepted' % lab)
                    x = I.opvar(o[0], '$n' + c)
                    d = [e[1].addr for e in o[0].trace if e[0] == 'delete']
                    rep.check(x is None or d.count(x.addr) == (0 if borrowed else 1), 'type', 'ownership|' + c, '%s: the refused expression is deleted %d times' % (lab, d.count(x.addr) if x else 0))
                I.doc = (node(kind, 'n', (c,), *kids),)
                st = State()
                for s, v, g in I.start(I.chk, st, None, [I.doc_node(st, (0,))]):
                    rep.check(g is not None and g[:2] == ('thr', 'PLEXIL::ParserException'), 'type', kind + '|check|' + c, '%s passes the check' % lab)
    I.types, I.borrowed = dict(I.base_types), ()
    conds = USER
    kids = [node('Empty', 'k', ())] if kind == 'NodeList' else []
    I.doc = (node(kind, 'n', conds, *kids),)
    st = State()
    for s, v, g in I.start(I.chk, st, None, [I.doc_node(st, (0,))]):
        rep.check(g is None, 'type', kind + '|accepted', '%s node with every condition is refused by the check: %s' % (kind, g))
    for c in USER:
        d = node(kind, 'n', (c,), *kids)
        i = next(i for i, k in enumerate(d[2]) if k[0] == c + 'Condition')
        I.doc = ((d[0], d[1], d[2] + (d[2][i],)),)
        st = State()
        for s, v, g in I.start(I.chk, st, None, [I.doc_node(st, (0,))]):
            rep.check(g is not None and g[:2] == ('thr', 'PLEXIL::ParserException'), 'twice', kind + '|' + c, '%s node with two %s conditions is accepted' % (kind, c))
        I.doc = ((d[0], d[1], d[2][:i] + ((d[2][i][0], {}, ()),) + d[2][i + 1:]),)
        st = State()
        for s, v, g in I.start(I.chk, st, None, [I.doc_node(st, (0,))]):
            rep.check(g is not None and g[:2] == ('thr', 'PLEXIL::ParserException'), 'empty', kind + '|' + c, '%s node with an empty %s condition is accepted' % (kind, c))


def run(P, rep):
    I = PlI(P)
    I.base_types = {'$cmd': 'STRING_TYPE'}
    I.types = dict(I.base_types)
    I.cidx = {i['n']: i['v'] for i in P.enum('NodeImpl::ConditionIndex')['vals']}
    kinds = ('Empty', 'Command', 'Update', 'Assignment', 'NodeList')
    sets = [()] + [(c,) for c in USER] + [USER, USER[::-1]]
    if rep.tier == 'thorough':
        sets = subsets(USER) + [USER[::-1]]
    else:
        sets += [tuple(x for x in USER if x != c) for c in USER]
    rep.rule('installed: each condition element is the condition of its name and no other')
    rep.rule('value: a condition reads what its expression reads (end conditions of commands and updates combined with the built-in ones)')
    rep.rule('wakes: a node is woken when one of its conditions changes')
    rep.rule('completion: built-in completion conditions follow handle, acknowledgement and children')
    rep.rule('ancestor value: ancestor conditions combine those of every enclosing list')
    rep.rule('ownership: condition expressions are deleted with their node exactly once, borrowed ones never')
    rep.rule('type: a condition that is not Boolean is refused')
    jobs = []
    for k in kinds:
        for part in range(0, len(sets), 12):
            jobs.append(lambda r, k=k, part=part: [own_slots(I, r, k, s) for s in sets[part:part + 12]])
        if k != 'Empty':
            jobs.append(lambda r, k=k: completion(I, r, k))
        jobs.append(lambda r, k=k: typed(I, r, k))
    for t in subsets(ANC):
        for k in ('Empty', 'Command') if rep.tier == 'quick' else ('Empty', 'Command', 'Update', 'NodeList'):
            jobs.append(lambda r, t=t, k=k: ancestors(I, r, k, [t]))
    par.each(rep, I, jobs)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
