"""E07: activation is edge-triggered; inactive means unknown; each activation starts from the initial value."""
from lib_hist import *
from e06 import command, read_handle

MIN_OBLIGATIONS = 400


def run(P, rep):
    rep.rule('every operation of every distinct state within the bound of every variable kind, by interpreting its members: effects '
             'happen only on the first activation and the last deactivation; readings while inactive are unknown by every '
             'way of reading; the first reading after each activation is the initial value; a deactivation too many is an error')
    n = 0
    for kind in KINDS:
        I = VarI(P)
        for init in (None, 'U', 'known'):
            for decl in ((2,) + ((None,) if kind == 'IntegerArray' or rep.tier == 'thorough' else ()) if kind.endswith('Array') else (None,)):
                want = initial(I, kind, init, decl)
                n += walk(I, kind, init, decl, depth_of(kind, rep) + (1 if kind.endswith('Array') else -1),
                          lambda *a: judge(I, rep, kind, init, decl, want, *a),
                          ['activate', 'deactivate', 'set v2', 'set v3', 'unset 1', 'unknown'] if kind.endswith('Array') else None)[0]
                over(I, rep, kind, init, decl)
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('variable operations', n, 500)
    flag(P, rep)
    handle(P, rep)


def initial(I, kind, init, decl):
    if not kind.endswith('Array'):
        return (True, mk('val', 'init')) if init == 'known' else (False, None)
    if init == 'known':
        return True, (mk('val', 'i'), 'U')
    if init is None and decl:
        return True, ('U',) * decl
    return False, None


def judge(I, rep, kind, init, decl, want, hist, op, x, before, out, after, n):
    k1, v1, _ = before
    s, sig = out
    what, key = '%s (%s): %s' % (kind, hist, op), kind + '|' + op.split()[0]
    if op in ('activate', 'deactivate') and not rep.check(sig is None, 'edge', key, '%s ends in an error' % what):
        return
    if sig is not None:
        return
    m = n + (op == 'activate') - (op == 'deactivate')
    subs = ([('init')] if init else []) + (['size'] if decl else [])
    ev = sorted(e for e in s.trace if e[0] in ('activate', 'deactivate'))
    need = sorted((op, c) for c in subs) if op == 'activate' and n == 0 or op == 'deactivate' and n == 1 else []
    rep.check(ev == need, 'edge', key, '%s, with %d activation(s): sub-expressions see %s instead of %s' % (what, n, ev, need),
              sample='%s: %s' % (what, ev))
    for s3, k2, v2 in after:
        if m == 0:
            rep.check(not k2, 'inactive', key, '%s: the inactive variable reads %s' % (what, v2), sample='%s: unknown' % what)
        elif op == 'activate' and n == 0:
            ok = k2 == want[0] and (not k2 or I.same(s3, v2, want[1]))
            rep.check(ok, 'initial', key, '%s: starts with %s instead of %s' % (what, v2 if k2 else 'unknown', want[1] if want[0] else 'unknown'),
                      sample='%s: starts with %s' % (what, want[1] if want[0] else 'unknown'))
        elif op in ('activate', 'deactivate'):
            rep.check(k1 == k2 and (not k1 or I.same(s3, v1, v2)), 'edge', key, '%s, with %d activation(s): the reading changes from %s to %s' %
                      (what, n, v1 if k1 else 'unknown', v2 if k2 else 'unknown'))
            rep.check(not any(e[0] == 'notify' for e in s.trace), 'edge', key, '%s, with %d activation(s): a change is announced' % (what, n))
        agree(I, rep, kind, key, what, s3, x, k2, v2)


def agree(I, rep, kind, key, what, s, x, k, v):
    """the other ways of reading give the same answer"""
    for s2, b, sig in I.w(s, 'x_known', x):
        for s3, kk in I.truth(s2, b):
            rep.check(sig is None and kk == k, 'reading', key, '%s: isKnown answers %s but reading gives %s' % (what, kk, v if k else 'unknown'))
    for s2, b, sig in I.w(s, 'x_value', x):
        for s3, kk, c in I.vcontents(s2, I.vraw(s2, b)):
            vals = [(s3, c)]
            if kk and kind.endswith('Array'):
                vals = I.array(s3, c, kind[:-5]) if isinstance(c, Ptr) else [(s3, c)]
            for s4, c4 in vals:
                rep.check(sig is None and kk == k and (not k or I.same(s4, c4, v)), 'reading', key,
                          '%s: toValue gives %s but reading gives %s' % (what, c4 if kk else 'unknown', v if k else 'unknown'))


def over(I, rep, kind, init, decl):
    """one deactivation more than activations"""
    for n in (0, 1, 2):
        s, x = setup(I, kind, init, decl)
        for op in ['activate'] * n + ['deactivate'] * n:
            s = [o for o in apply(I, s, x, op) if o[2] is None][0][0]
        outs = apply(I, s, x, 'deactivate')
        rep.check(outs and all(o[2] is not None for o in outs), 'over', kind + '|over',
                  '%s: deactivating once more than activated (%d) is not an error' % (kind, n), sample='%s: refused after %d' % (kind, n))


def flag(P, rep):
    I = VarI(P)
    for first in (True, False):
        st, x = I.one(State(), 'new_SimpleBoolean')
        for round_ in (1, 2):
            st, _ = I.one(clean(st), 'x_activate', x)
            for s, k, v in I.observe(st, x, 'Boolean'):
                rep.check(k and not v, 'initial', 'SimpleBoolean|activate', 'a flag starts activation %d as %s' % (round_, v if k else 'unknown'),
                          sample='flag clear at activation %d' % round_)
            st.mem[('O', 'b')] = first
            st, _ = I.one(st, 'x_setFlag', x, ptr(('O', 'b')))
            st, _ = I.one(st, 'x_activate', x)
            for s, k, v in I.observe(st, x, 'Boolean'):
                rep.check(k and bool(v) == first, 'edge', 'SimpleBoolean|activate', 'a second activation changes the flag to %s' % v)
            st, _ = I.one(st, 'x_deactivate', x)
            for s, k, v in I.observe(st, x, 'Boolean'):
                rep.check(k and bool(v) == first, 'edge', 'SimpleBoolean|deactivate', 'a nested deactivation changes the flag to %s' % v)
            st, _ = I.one(st, 'x_deactivate', x)
        outs = I.w(st, 'x_deactivate', x)
        rep.check(all(o[2] is not None for o in outs), 'over', 'SimpleBoolean|over', 'deactivating a flag too often is not an error')
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def handle(P, rep):
    I = VarI(P)
    E = P.enum('PLEXIL::CommandHandleValue')['vals']
    vals = [e for e in E if e['n'] not in ('NO_COMMAND_HANDLE', 'COMMAND_HANDLE_MAX')]

    def reads(s, h, want, what):
        for s1, k, v in read_handle(I, s, h):
            rep.check(k == (want is not None) and (not k or v == want), 'inactive' if want is None else 'reading', 'CommandHandle|' + what,
                      'command handle %s reads %s' % (what, v if k else 'unknown'), sample='handle %s: %s' % (what, v if k else 'unknown'))
        for s1, b, sig in I.w(s, 'x_known', h):
            for s2, k in I.truth(s1, b):
                rep.check(k == (want is not None), 'reading', 'CommandHandle|' + what, 'command handle %s: isKnown answers %s' % (what, k))
    for e in vals:
        st, c, h = command(I)
        reads(st, h, None, 'when first activated')
        s, _ = I.one(clean(st), 'c_handle', c, e['v'])
        reads(s, h, e['v'], 'once reported')
        s, _ = I.one(clean(s), 'x_activate', h)
        reads(s, h, e['v'], 'after a second activation')
        s, _ = I.one(clean(s), 'x_deactivate', h)
        reads(s, h, e['v'], 'after a nested deactivation')
        s, _ = I.one(clean(s), 'c_deactivate', c)
        reads(s, h, None, 'when inactive')
        for late in vals[:2]:
            s2, _ = I.one(clean(s.fork()), 'c_handle', c, late['v'])
            reads(s2, h, None, 'when a report arrives late')
            s2, _ = I.one(clean(s2), 'c_activate', c)
            reads(s2, h, None, 'when activated again')
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('command handles', len(vals), 5)
