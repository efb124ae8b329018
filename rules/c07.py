"""C07: lookups, commands and updates go to the handler registered for them, else to the default."""
from c01 import *

MIN_OBLIGATIONS = 100


class RegI(AppI):
    """the adapter configuration interpreted over recording handlers and a recording interface manager"""
    model_maps = True

    def __init__(self, P):
        AppI.__init__(self, P)
        self.cmdname = None
        self.error = None          # recording handlers throw this

    def on_call(self, st, ctx):
        nm, this = ctx.name, ctx.this
        if not ctx.cls and nm != 'initialize' and (nm.startswith(('init', 'register')) or nm == 'dynamicLoadModule') and ctx.key.startswith(('PLEXIL::', nm)):
            return [(st, mk('loaded') if nm == 'dynamicLoadModule' else None)]
        if ctx.cls == 'pugi::xml_node' and nm == 'empty':
            return [(st, True)]
        if nm.startswith('rec_') and not ctx.cls:
            st.ev('rec', nm[4:], *ctx.args)
            if self.error:
                return [(st, None, ('thr', self.error, None))]
            return [(st, None)]
        if isinstance(this, Ptr) and this.addr[0] == 'O':
            who = this.addr[1]
            if who == 'cmd' and nm == 'getName':
                return [(st, ptr(('O', 'cmdname')))]
            if who == 'mgr':
                st.ev('mgr', nm, *ctx.args)
                return [(st, None)]
            if who == 'rcvr':
                st.ev('rcvr', nm, *ctx.args)
                return [(st, None)]
            if who == 'state' and nm == 'name':
                return [(st, ptr(('O', 'statename')))]
        return AppI.on_call(self, st, ctx)


CMD, MGR, HUB, STATE_, RCVR, UPD = (ptr(('O', x)) for x in ('cmd', 'mgr', 'hub', 'state', 'rcvr', 'upd'))


def fresh(I):
    st, c = I.one(State(), 'ac_new')
    st, _ = I.one(clean(st), 'ac_construct', c, MGR, HUB)
    for i, n in enumerate(('a', 'b', 'ab', '')):
        st.mem[('O', 'n' + n)] = n
    return clean(st), c


def name(n):
    return ptr(('O', 'n' + n))


def expect_cmd(reg, n):
    return reg.get(n, reg['*'])


def run(P, rep):
    rep.rule('the adapter configuration interpreted through every short history of registrations: executing, aborting, looking '
             'up, setting and clearing thresholds of each name reaches exactly the handler last registered under that exact '
             'name, else the default last set, else the built-in one, with the arguments unchanged')
    I = RegI(P)
    E = {v['n']: v['v'] for v in P.enum('CommandHandleValue')['vals']}
    n = 0
    # ---------------- commands
    ops = [('cmd', 'a'), ('cmd', 'b'), ('cmds', 'a', 'ab'), ('fn', 'a'), ('fnonly', 'ab'), ('fnnull', 'a'), ('default',), ('defaultfn',)]
    for h in histories(ops, 3 if rep.tier == 'thorough' else 2):
        s, c = fresh(I)
        reg = {'*': 'builtin'}
        for o in h:
            if o[0] in ('cmd', 'cmds', 'default'):
                s, p = I.one(clean(s), 'ac_cmdHandler')
                w = {'cmd': 'ac_cmd', 'cmds': 'ac_cmds', 'default': 'ac_cmdDefault'}[o[0]]
                s, _ = I.one(clean(s), w, c, p, *[name(x) for x in o[1:]])
            else:
                w = {'fn': 'ac_cmdFn', 'fnonly': 'ac_cmdFnOnly', 'fnnull': 'ac_cmdFnNull', 'defaultfn': 'ac_cmdDefaultFn'}[o[0]]
                s, _ = I.one(clean(s), w, c, *[name(x) for x in o[1:]])
                p = 'function' if o[0] in ('fn', 'defaultfn') else 'execute only'
            for x in (o[1:] or ('*',)):
                reg[x] = p
        lab = describe(h)
        for nm in ('a', 'b', 'ab', ''):
            s.mem[('O', 'cmdname')] = nm
            want = expect_cmd(reg, nm)
            n += 1
            r = I.w(clean(s.fork()), 'ac_execute', c, CMD)
            ev = events(r)
            exp = [('mgr', 'handleCommandAck', CMD, E['COMMAND_SUCCESS']), ('mgr', 'notifyOfExternalEvent')] if want == 'builtin' else \
                [('rec', 'execute', 0 if isinstance(want, str) else want, CMD, MGR)]
            rep.check(ev == exp, 'command', 'execute', '%s: executing command "%s" does %s instead of %s' % (lab, nm, show(ev), show(exp)),
                      sample='%s: "%s" -> %s' % (lab, nm, show(exp)))
            r = I.w(clean(s.fork()), 'ac_abort', c, CMD)
            ev = events(r)
            exp = [('mgr', 'handleCommandAbortAck', CMD, True), ('mgr', 'notifyOfExternalEvent')] if want in ('builtin', 'execute only') else \
                [('rec', 'abort', 0 if isinstance(want, str) else want, CMD, MGR)]
            rep.check(ev == exp, 'command', 'abort', '%s: aborting command "%s" does %s instead of %s' % (lab, nm, show(ev), show(exp)))
    # ---------------- lookups
    ops = [('look', 'a'), ('look', 'b'), ('looks', 'a', 'ab'), ('fn', 'a'), ('fnonly', 'ab'), ('default',), ('defaultfn',)]
    hi, lo = mk('payload', 'hi'), mk('payload', 'lo')
    for h in histories(ops, 3 if rep.tier == 'thorough' else 2):
        s, c = fresh(I)
        reg = {'*': 'builtin'}
        for o in h:
            if o[0] in ('look', 'looks', 'default'):
                s, p = I.one(clean(s), 'ac_lookHandler')
                w = {'look': 'ac_look', 'looks': 'ac_looks', 'default': 'ac_lookDefault'}[o[0]]
                s, _ = I.one(clean(s), w, c, p, *[name(x) for x in o[1:]])
            else:
                w = {'fn': 'ac_lookFn', 'fnonly': 'ac_lookFnOnly', 'defaultfn': 'ac_lookDefaultFn'}[o[0]]
                s, _ = I.one(clean(s), w, c, *[name(x) for x in o[1:]])
                p = 'function' if o[0] in ('fn', 'defaultfn') else 'lookup only'
            for x in (o[1:] or ('*',)):
                reg[x] = p
        lab = describe(h)
        for nm in ('a', 'b', 'ab', ''):
            s.mem[('O', 'statename')] = nm
            want = expect_cmd(reg, nm)
            who = 0 if isinstance(want, str) else want
            for w, args, ev0 in (('ac_lookupNow', (STATE_, RCVR), ('lookup', STATE_, RCVR)), ('ac_setR', (STATE_, hi, lo), ('thresholdsR', STATE_, hi, lo)),
                                 ('ac_setI', (STATE_, hi, lo), ('thresholdsI', STATE_, hi, lo)), ('ac_clear', (STATE_,), ('clear', STATE_))):
                n += 1
                ev = events(I.w(clean(s.fork()), w, c, *args))
                exp = [] if want == 'builtin' or want == 'lookup only' and ev0[0] != 'lookup' else [('rec', ev0[0], who) + ev0[1:]]
                rep.check(ev == exp, 'lookup', ev0[0], '%s: %s of state "%s" does %s instead of %s' % (lab, ev0[0], nm, show(ev), show(exp)),
                          sample='%s: %s "%s" -> %s' % (lab, ev0[0], nm, show(exp)))
    # ---------------- updates, denial, errors
    s, c = fresh(I)
    ev = events(I.w(clean(s.fork()), 'ac_update', c, UPD))
    exp = [('mgr', 'handleUpdateAck', UPD, True), ('mgr', 'notifyOfExternalEvent')]
    rep.check(ev == exp, 'update', 'builtin', 'an update without handler does %s instead of %s' % (show(ev), show(exp)))
    s2, _ = I.one(clean(s.fork()), 'ac_updateFn', c)
    ev = events(I.w(clean(s2), 'ac_update', c, UPD))
    exp = [('rec', 'update', UPD, MGR)]
    rep.check(ev == exp, 'update', 'handler', 'an update with a handler does %s instead of %s' % (show(ev), show(exp)), sample='update -> handler')
    ev = events(I.w(clean(s.fork()), 'ac_deny', c, CMD))
    exp = [('sink', 'commandHandleReturn', CMD, E['COMMAND_DENIED'])]
    rep.check(ev == exp, 'command', 'denied', 'a denied command is reported by %s instead of %s' % (show(ev), show(exp)))
    I.error = 'PLEXIL::InterfaceError'
    s, c = fresh(I)
    s, p = I.one(clean(s), 'ac_cmdHandler')
    s, _ = I.one(clean(s), 'ac_cmd', c, p, name('a'))
    s, q = I.one(clean(s), 'ac_lookHandler')
    s, _ = I.one(clean(s), 'ac_look', c, q, name('a'))
    s.mem[('O', 'cmdname')] = s.mem[('O', 'statename')] = 'a'
    for w, args, exp in (('ac_execute', (CMD,), ('sink', 'commandHandleReturn', CMD, E['COMMAND_INTERFACE_ERROR'])),
                         ('ac_abort', (CMD,), ('sink', 'commandAbortAcknowledge', CMD, False)), ('ac_lookupNow', (STATE_, RCVR), ('rcvr', 'setUnknown'))):
        n += 1
        r = I.w(clean(s.fork()), w, c, *args)
        ev = [e for e in (events(r) or []) if e[0] != 'rec']
        rep.check(ev == [exp], 'error', w, 'an interface error in the handler ends in %s instead of %s' % (show(ev), show([exp])),
                  sample='%s: error -> %s' % (w, show([exp])))
    rep.floor('dispatches', n, 200)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def histories(ops, depth):
    out = [()]
    cur = [()]
    for _ in range(depth):
        cur = [h + (o,) for h in cur for o in ops]
        out += cur
    return out


def events(r):
    if len(r) != 1:
        return [('%d outcomes' % len(r),)]
    if r[0][2] is not None:
        return [('error', str(r[0][2]))]
    return [e for e in r[0][0].trace if e[0] in ('rec', 'mgr', 'rcvr', 'sink')]


def show(ev):
    return ', '.join(' '.join(str(x) for x in e[:3]) for e in ev) or 'nothing'


def describe(h):
    return 'after ' + (', '.join(' '.join(o) for o in h) or 'no registration')
