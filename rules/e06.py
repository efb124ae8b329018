"""E06: a changed value is always announced; nothing inactive is."""
from lib_hist import *

MIN_OBLIGATIONS = 400


def notified(s):
    return any(e[0] == 'notify' for e in s.trace)


def run(P, rep):
    rep.rule('every operation of every history (bounded) of every variable kind with symbolic values: if the variable is active and '
             'its reading does not certainly stay the same, the listener was told during that operation; never while inactive')
    variables(P, rep)
    elements(P, rep)
    flag(P, rep)
    handle(P, rep)
    timepoint(P, rep)
    node(P, rep)


def judge(I, rep, what, key, op, before, s, after, n, m):
    """one operation: n, m activations before and after it"""
    k1, v1, _ = before
    told = notified(s)
    if n == 0 and m == 0:
        rep.check(not told, 'inactive', key, '%s announces a change while inactive' % what, sample='%s: silent' % what)
        return
    if m == 0:
        return
    for s3, k2, v2 in after:
        same = k1 == k2 and (not k1 or I.same(s3, v1, v2))
        rep.check(told or same, 'announce', key, '%s: the reading changes from %s to %s and no listener is told' %
                  (what, v1 if k1 else 'unknown', v2 if k2 else 'unknown'),
                  sample='%s: %s' % (what, 'announced' if told else 'unchanged'))


def variables(P, rep):
    n = 0
    for kind in KINDS:
        I = VarI(P)
        for init in (None, 'U', 'known'):
            for decl in ((2,) + ((None,) if kind == 'IntegerArray' or rep.tier == 'thorough' else ()) if kind.endswith('Array') else (None,)):
                def visit(hist, op, x, before, out, after, na):
                    s, sig = out
                    if sig:
                        return
                    judge(I, rep, '%s (%s): %s' % (kind, hist, op), kind + '|' + op.split()[0], op, before, s, after, na,
                          na + (op == 'activate') - (op == 'deactivate'))
                n += walk(I, kind, init, decl, depth_of(kind, rep) - (decl is None and kind.endswith('Array')), visit)[0]
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('variable operations', n, 500)


def elements(P, rep):
    """a reference to an array element tells its listeners when the array or the index makes its reading change"""
    n = 0
    for t in TYPES:
        I = VarI(P)
        for new in ('new_Element',):
            for how in ('through the array', 'through the reference', 'through another reference', 'whole array'):
                for w in (mk('val', 'w'), 'U'):
                    for e0 in (mk('val', 'p'), 'U'):
                        st = State()
                        I.env = {}
                        st, a = I.make_array(st, t, [e0, mk('val', 'q')])
                        st, b = I.make_array(st, t, [w, mk('val', 'q')])
                        I.env.update({'v0': ('ary', addr_of(a)), 'v1': ('ary', addr_of(b)), 'w': w, 'idx': 0, 'jdx': 0})
                        st, x = I.make(st, t + 'Array', 2)
                        st, r = I.one(st, new, x, obj('idx'))
                        st, r2 = I.one(st, new, x, obj('jdx'))
                        st, _ = I.one(st, 'x_listen', r, ptr(L))
                        st, _ = I.one(st, 'x_activate', r)
                        st, _ = I.one(st, 'x_activate', r2)
                        st, _ = I.one(st, 'x_set', x, obj('v0'))
                        for s1, k1, v1 in I.observe(clean(st), r, t):
                            if how == 'through the array':
                                outs = I.w(s1, 'x_setElement', x, 0, obj('w'))
                            elif how == 'through the reference':
                                outs = I.w(s1, 'x_set', r, obj('w'))
                            elif how == 'through another reference':
                                outs = I.w(s1, 'x_set', r2, obj('w'))
                            else:
                                outs = I.w(s1, 'x_set', x, obj('v1'))
                            for s2, _, sig in outs:
                                if sig:
                                    continue
                                n += 1
                                judge(I, rep, '%s array element written %s' % (t, how), t + 'Array|element', 'set', (k1, v1, s1), s2,
                                      I.observe(s2, r, t), 1, 1)
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('element writes', n, 32)


def flag(P, rep):
    """the internal acknowledgement flags"""
    I = VarI(P)
    n = 0
    for v in (True, False):
        for act in (0, 1, 2):
            st, x = I.one(State(), 'new_SimpleBoolean')
            st, _ = I.one(st, 'x_listen', x, ptr(L))
            for _ in range(act):
                st, _ = I.one(st, 'x_activate', x)
            for first in (None, True, False):
                s = clean(st.fork())
                if first is not None:
                    s.mem[('O', 'b')] = first
                    s, _ = I.one(s, 'x_setFlag', x, ptr(('O', 'b')))
                for s1, k1, v1 in I.observe(clean(s), x, 'Boolean'):
                    s1.mem[('O', 'b')] = v
                    for s2, _, sig in I.w(s1, 'x_setFlag', x, ptr(('O', 'b'))):
                        n += 1
                        judge(I, rep, 'flag set %s then %s' % (first, v), 'SimpleBoolean|set', 'set', (k1, v1, s1), s2,
                              I.observe(s2, x, 'Boolean'), act, act)
                        if act:
                            for s3, k, b in I.observe(s2, x, 'Boolean'):
                                rep.check(k and bool(b) == v, 'announce', 'SimpleBoolean|set', 'a flag set to %s reads %s' % (v, b))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('flag operations', n, 12)


def handle(P, rep):
    """the command handle"""
    I = VarI(P)
    E = P.enum('PLEXIL::CommandHandleValue')['vals']
    vals = [e for e in E if e['n'] not in ('NO_COMMAND_HANDLE', 'COMMAND_HANDLE_MAX')]
    n = 0
    for first in [None] + vals:
        for second in vals:
            st, c, h = command(I)
            s = clean(st)
            if first is not None:
                s, _ = I.one(s, 'c_handle', c, first['v'])
            for s1, k1, v1 in read_handle(I, clean(s), h):
                for s2, _, sig in I.w(s1, 'c_handle', c, second['v']):
                    n += 1
                    if not rep.check(sig is None, 'announce', 'CommandHandle|error', 'handle %s is refused' % second['n']):
                        continue
                    after = read_handle(I, s2, h)
                    judge(I, rep, 'handle %s after %s' % (second['n'], first['n'] if first else 'none'), 'CommandHandle|set', 'set',
                          (k1, v1, s1), s2, after, 1, 1)
                    for s3, k, v in after:
                        rep.check(k and v == second['v'], 'announce', 'CommandHandle|value', 'handle reported %s reads %s' % (second['n'], v))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('command handle reports', n, 6)


def command(I):
    """an active command with constant name, its handle listened to: (state, command, handle)"""
    I.env = {'cname': 'cmd'}
    st, c = I.one(State(), 'new_Command', obj('cname'))
    st, h = I.one(st, 'c_ack', c)
    st, _ = I.one(st, 'x_listen', h, ptr(L))
    st, _ = I.one(st, 'c_activate', c)
    return st, c, h


def read_handle(I, s, h):
    out = []
    for s1, v, sig in I.w(s, 'get_Handle', h, ptr(('O', 'rd'))):
        for s2, k in I.truth(s1, v):
            s3 = s2.fork()
            out.append((s3, k, s3.mem.get(('O', 'rd')) if k else None))
    return out


def timepoint(P, rep):
    I = VarI(P)
    n = 0
    for hist in ((), ('set t0',), ('set t0', 'reset'), ('reset',)):
        for op in ('set t1', 'reset'):
            st, x = I.one(State(), 'new_Timepoint')
            st, _ = I.one(st, 'x_listen', x, ptr(L))
            st, _ = I.one(st, 'x_activate', x)
            for h in hist:
                st = tp(I, st, x, h)[0][0]
            for s1, k1, v1 in I.observe(clean(st), x, 'Real'):
                for s2, _, sig in tp(I, s1, x, op):
                    n += 1
                    judge(I, rep, 'timepoint %s: %s' % (', '.join(hist), op), 'NodeTimepointValue|' + op.split()[0], op, (k1, v1, s1), s2,
                          I.observe(s2, x, 'Real'), 1, 1)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('timepoint operations', n, 8)


def tp(I, s, x, op):
    if op == 'reset':
        return I.w(s, 'tp_reset', x)
    return I.w(s, 'tp_set', x, mk('val', op.split()[1]))


def node(P, rep):
    """state, outcome and failure of a node: the last announcement of a transition follows the last change of any of them"""
    from lib_sim import runs
    n = 0
    for I, E, cls, pres, states, steps in runs(P, rep, False):
        for s in steps:
            if s.sig is not None or s.to == s.frm:
                continue
            n += 1
            pubs = [e for e in s.post.trace if e[0] == 'publish' and len(e) > 2]
            old, new = I.reading(s.pre), I.reading(s.post)
            rep.check(old == new or pubs and pubs[-1][2:] == new, 'announce', cls + '|transition',
                      '%s: on %s -> %s the listeners of the node are told when (state, outcome, failure) is %s, but it ends as %s' %
                      (cls, s.frm, s.to, pubs[-1][2:] if pubs else 'never', new),
                      sample='%s: %s -> %s announced' % (cls, s.frm, s.to))
    rep.floor('node transitions', n, 100)
