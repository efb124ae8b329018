"""Operation histories of notifying expressions, shared by E06 and E07."""
from lib_var import *

KINDS = TYPES + tuple(t + 'Array' for t in TYPES)
OFF = object()


def setup(I, kind, init, decl=None):
    """[(state, variable)] of a fresh, listened-to, inactive variable; declared size decl for arrays"""
    st = State()
    I.env = {'init': 'U'}
    if kind.endswith('Array'):
        t = kind[:-5]
        for nm, els in (('v1', [mk('val', 'p'), 'U']), ('v2', [mk('val', 'q'), mk('val', 'r')]), ('v3', [mk('val', 's')])):
            st, a = I.make_array(st, t, els)
            I.env[nm] = ('ary', addr_of(a))
        I.env['e1'] = mk('val', 'e1')
        if init == 'known':
            st, a = I.make_array(st, t, [mk('val', 'i'), 'U'])
            I.env['init'] = ('ary', addr_of(a))
    else:
        I.env.update({'v1': mk('val', 'v1'), 'v2': mk('val', 'v2')})
        if init == 'known':
            I.env['init'] = mk('val', 'init')
    st, x = I.make(st, kind, decl)
    if init:
        st = [o for o in I.w(st, 'x_init', x, obj('init')) if o[2] is None][0][0]
    st, _ = I.one(st, 'x_listen', x, ptr(L))
    return st, x


def depth_of(kind, rep):
    if kind.endswith('Array'):
        return 5 if rep.tier == 'thorough' else 4
    return 8 if rep.tier == 'thorough' else 6


def ops(kind):
    o = ['activate', 'deactivate', 'set v1', 'set v2', 'unknown', 'save', 'restore']
    if kind.endswith('Array'):
        o += ['set v3', 'element 0 e1', 'element 1 e1', 'element 0 U', 'unset 1']
    return o


def legal(op, n, saved, known):
    """is op within the contract of the variable after n net activations?"""
    if op == 'deactivate':
        return n > 0
    if op == 'activate':
        return n < 2
    if op == 'restore':
        return saved and n > 0
    if op.startswith(('element', 'unset')):
        return n > 0 and known is True
    return True


def apply(I, s, x, op):
    """outcomes of one operation, effects in a fresh trace"""
    s = clean(s.fork())
    w = op.split()
    if w[0] in ('activate', 'deactivate', 'save', 'restore'):
        return I.w(s, 'x_' + w[0], x)
    if op == 'unknown':
        return I.w(s, 'x_setUnknown', x)
    if w[0] == 'set':
        return I.w(s, 'x_set', x, obj(w[1]))
    if w[0] == 'unset':
        return I.w(s, 'x_setElementUnknown', x, int(w[1]))
    I.env['w'] = I.env[w[2]] if w[2] != 'U' else 'U'
    return I.w(s, 'x_setElement', x, int(w[1]), obj('w'))


def walk(I, kind, init, decl, depth, visit, only=None):
    """visit(label, op, before=(known, value, state), outcome, after, n) for every operation in every distinct state
    reached within depth operations; -> (operations, states, closed?)"""
    s0, x = setup(I, kind, init, decl)
    todo = [(('initial ' + (init or 'none'),), s0, 0, False)]
    count, seen, closed = 0, set(), True
    while todo:
        hist, s, n, saved = todo.pop(0)
        k = (canon(s, addr_of(x)), n, saved)
        if k in seen:
            continue
        if len(hist) > depth:
            closed = False
            continue
        seen.add(k)
        for s1, k1, v1 in I.observe(s, x, kind):
            for op in (only or ops(kind)):
                if not legal(op, n, saved, k1):
                    continue
                for s2, v, sig in apply(I, s1, x, op):
                    count += 1
                    m = n + (op == 'activate') - (op == 'deactivate')
                    after = I.observe(s2, x, kind) if sig is None else []
                    visit(', '.join(hist), op, x, (k1, v1, s1), (s2, sig), after, n)
                    if sig is None:
                        sv = saved or op == 'save'
                        if op == 'activate' and n == 0:
                            sv = False
                        todo.append((hist + (op,), clean(s2), m, sv))
    return count, len(seen), closed
