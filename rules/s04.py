"""S04: assignments save, write, acknowledge; aborted ones restore the variable."""
from lib_var import *

MIN_OBLIGATIONS = 150
KINDS = TYPES + tuple(t + 'Array' for t in TYPES)


def arrays(I, st, kind):
    """three array operands v0, v1, v2 of different shapes"""
    for nm, els in (('v0', [mk('val', 'p'), 'U']), ('v1', [mk('val', 'q'), mk('val', 'r')]), ('v2', [mk('val', 's')])):
        st, a = I.make_array(st, kind[:-5], els)
        I.env[nm] = ('ary', addr_of(a))
    return st


def prefixes(I, P, kind):
    """[(label, state, variable)]: an active, listened-to variable after different histories"""
    out = []
    for init in (None, 'U', 'known'):
        if init == 'known' and kind == 'SimpleBoolean':
            continue
        for pre in ((), ('v0',), ('v0', 'U'), ('v0', 'v2'), ('U', 'v0')):
            st = State()
            I.env = {'init': 'U'}
            if kind.endswith('Array'):
                st = arrays(I, st, kind)
                if init == 'known':
                    st, a = I.make_array(st, kind[:-5], [mk('val', 'i'), 'U'])
                    I.env['init'] = ('ary', addr_of(a))
            else:
                I.env.update({'v0': mk('val', 'v0'), 'v1': mk('val', 'v1'), 'v2': mk('val', 'v2')})
                if init == 'known':
                    I.env['init'] = mk('val', 'init')
            st, x = I.make(st, kind, 2)
            if init:
                outs = [o for o in I.w(st, 'x_init', x, obj('init')) if o[2] is None]
                if not outs:
                    raise AnalysisBroken('no initialiser accepted by ' + kind)
                st = outs[0][0]
            st, _ = I.one(st, 'x_listen', x, ptr(L))
            sts = [o[0] for o in I.w(st, 'x_activate', x) if o[2] is None]
            for v in pre:
                sts = [o[0] for s in sts for o in (I.w(s, 'x_setUnknown', x) if v == 'U' else I.w(s, 'x_set', x, obj(v))) if o[2] is None]
            for s in sts:
                out.append(('initial %s%s' % (init or 'none', ''.join(', then ' + v for v in pre)), clean(s), x))
    return out


def agree(I, P, s, x, kind, k, v):
    """does the variable read as (k, v) in every way of reading it, in state s? -> message or None"""
    for s2, k2, v2 in I.observe(s, x, kind):
        if k2 != k or (k and not I.same(s2, v, v2)):
            return 'reads %s instead of %s' % (v2 if k2 else 'unknown', v if k else 'unknown')
    for s2, b, sig in I.w(s, 'x_known', x):
        for s3, kk in I.truth(s2, b):
            if kk != k:
                return 'isKnown answers %s' % kk
    return None


def content(I, s, val, kind):
    """[(state, known, value)] of the Value object val"""
    out = []
    for s2, k, c in I.vcontents(s, I.vraw(s, val)):
        if k and kind.endswith('Array') and isinstance(c, Ptr):
            out += [(s3, True, t) for s3, t in I.array(s2, c, kind[:-5])]
        else:
            out.append((s2, k, c))
    return out


def run(P, rep):
    rep.rule('variables of every kind, driven through save / set / restore histories by interpreting their own members with '
             'symbolic values: after restore every read gives what it gave before save, the saved value reported is that '
             'value, after set every read gives the assigned value; assignments interpreted over recording operands')
    n = 0
    for kind in KINDS:
        I = VarI(P)
        for lab, s0, x in prefixes(I, P, kind):
            env = dict(I.env)
            for s1, k1, v1 in I.observe(s0, x, kind):
                for w in ('v1', 'v2', 'U'):
                    I.env = dict(env)
                    I.env['w'] = env[w] if w != 'U' else 'U'
                    n += history(I, P, rep, kind, lab + '; assign ' + w, s1, x, k1, v1)
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    n += elements(P, rep)
    rep.floor('assignment histories', n, 80)
    assignment(P, rep)
    flags(P, rep)


def history(I, P, rep, kind, lab, s1, x, k1, v1):
    n = 0
    key = kind
    for s2, _, g in I.w(clean(s1.fork()), 'x_save', x):
        if not rep.check(g is None, 'save', key + '|save', '%s (%s): saving the value ends in an error' % (kind, lab)):
            continue
        rep.check('notify' not in [e[0] for e in s2.trace], 'save', key + '|save-quiet', '%s (%s): saving the value announces a change' % (kind, lab))
        m = agree(I, P, s2, x, kind, k1, v1)
        rep.check(m is None, 'save', key + '|save', '%s (%s): saving changes the variable: it %s' % (kind, lab, m))
        for s3, _, g in I.w(s2, 'x_set', x, obj('w')):
            if not rep.check(g is None, 'write', key + '|set', '%s (%s): assigning ends in an error' % (kind, lab)):
                continue
            e = I.env['w']
            want = (False, None) if e == 'U' else (True, e)
            if isinstance(e, tuple) and e[0] == 'ary':
                want = (True, [t for _, t in I.array(s3, ptr(e[1]), kind[:-5])][0])
                want = (True, want[1] + ('U',) * (2 - len(want[1])))
            m = agree(I, P, s3, x, kind, *want)
            rep.check(m is None, 'write', key + '|set', '%s (%s): after the assignment it %s' % (kind, lab, m),
                      sample='%s (%s): reads the assigned value' % (kind, lab))
            for s4, val, g in I.w(s3, 'x_saved', x):
                n += saved(I, rep, kind, lab, s4, val, k1, v1, key)
            # restore at once, or after something else (a command's return value, say) wrote the variable meanwhile
            again = [(s3, '')]
            for u in ('v0', 'U'):
                again += [(s, '; then written ' + u) for s, _, g in
                          (I.w(clean(s3.fork()), 'x_setUnknown', x) if u == 'U' else I.w(clean(s3.fork()), 'x_set', x, obj(u))) if g is None]
            for s3b, more in again:
                for s4, _, g in I.w(s3b, 'x_restore', x):
                    n += 1
                    if not rep.check(g is None, 'restore', key + '|restore', '%s (%s%s): restoring ends in an error' % (kind, lab, more)):
                        continue
                    m = agree(I, P, s4, x, kind, k1, v1)
                    rep.check(m is None, 'restore', key + '|restore', '%s (%s%s): after restoring it %s' % (kind, lab, more, m),
                              sample='%s (%s%s): reads as before' % (kind, lab, more))
                    for s5, val, g in I.w(s4, 'x_saved', x):
                        n += saved(I, rep, kind, lab + more, s5, val, k1, v1, key)
    return n


def saved(I, rep, kind, lab, s, val, k1, v1, key):
    for s5, k, c in content(I, s, val, kind):
        rep.check(k == k1 and (not k or I.same(s5, c, v1)), 'saved', key + '|saved',
                  '%s (%s): the saved value is reported as %s, not %s' % (kind, lab, c if k else 'unknown', v1 if k1 else 'unknown'),
                  sample='%s (%s): saved value %s' % (kind, lab, v1 if k1 else 'unknown'))
    return 1


def elements(P, rep):
    """assignments to array elements, the index changing between the start and the write included"""
    n = 0
    for t in TYPES:
        kind = t + 'Array'
        I = VarI(P)
        for elems in ([mk('val', 'p'), mk('val', 'q')], ['U', mk('val', 'q')], ['U', 'U']):
            for w in (mk('val', 'w'), 'U'):
                for i0, i1, i2 in ((0, 0, 0), (1, 1, 1), (0, 1, 1), (1, 0, 1), (0, 0, 1), ('U', 0, 0), (0, 'U', 0), (0, 1, 'U')):
                    st = State()
                    I.env = {}
                    st, a = I.make_array(st, t, elems)
                    I.env.update({'v0': ('ary', addr_of(a)), 'w': w, 'idx': i0})
                    st, x = I.make(st, kind, 2)
                    st, r = I.one(st, 'new_Element', x, obj('idx'))
                    st, _ = I.one(st, 'x_activate', r)
                    st, _ = I.one(st, 'x_set', x, obj('v0'))
                    lab = '%s element, index %s at the start, %s at the write, %s at the restore' % (t, i0, i1, i2)
                    for s1, k1, v1 in I.observe(clean(st), x, kind):
                        for s2, _, g in I.w(s1, 'x_save', r):
                            if not rep.check(g is None, 'save', kind + '|element', '%s: saving ends in an error' % lab):
                                continue
                            I.env['idx'] = i1
                            for s3, _, g in I.w(s2, 'x_set', r, obj('w')):
                                if not rep.check(g is None, 'write', kind + '|element', '%s: writing ends in an error' % lab):
                                    continue
                                want = v1 if i1 == 'U' else v1[:i1] + (w,) + v1[i1 + 1:]
                                m = agree(I, P, s3, x, kind, k1, want)
                                rep.check(m is None, 'write', kind + '|element', '%s: after the write the array %s' % (lab, m))
                                I.env['idx'] = i2
                                for s4, _, g in I.w(s3, 'x_restore', r):
                                    n += 1
                                    if not rep.check(g is None, 'restore', kind + '|element', '%s: restoring ends in an error' % lab):
                                        continue
                                    m = agree(I, P, s4, x, kind, k1, v1)
                                    rep.check(m is None, 'restore', kind + '|element', '%s: after restoring the array %s' % (lab, m),
                                              sample='%s: array as before' % lab)
                                    # the saved value reported
                                    i = i1 if i1 != 'U' and i1 != i0 else i0
                                    if i != 'U' and i1 != 'U':
                                        for s5, val, g in I.w(s4, 'x_saved', r):
                                            e = v1[i]
                                            saved(I, rep, t, lab, s5, val, e != 'U', e, kind + '|element')
                            I.env['idx'] = i0
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    return n


class AsgI(VarI):
    """an Assignment over a recording destination and right-hand side"""
    def on_call(self, st, ctx):
        if isinstance(ctx.this, Ptr) and ctx.this.addr in (('O', 'dest'), ('O', 'rhs'), ('O', 'lst')):
            who, nm = ctx.this.addr[1], ctx.name
            if who == 'rhs' and nm == 'toValue':
                i = st.aux.get('evals', 0)
                st.aux['evals'] = i + 1
                st.ev('rhs', i)
                a = ('TMP', ctx.frame, self.node_id(ctx.node))
                self.vset(st, a, mk('anyvalue', 'rhs', i))
                return [(st, ptr(a))]
            if who == 'rhs' and nm in ('getValue', 'getValuePointer'):
                raise Broken('right-hand side read piecewise')
            if who == 'dest' and nm == 'setValue':
                st.ev('write', self.vraw(st, ctx.args[0]))
                return [(st, None)]
            if who == 'dest' and nm == 'getSavedValue':
                a = ('TMP', ctx.frame, self.node_id(ctx.node))
                self.vset(st, a, mk('anyvalue', 'saved'))
                return [(st, ptr(a))]
            if who == 'dest' and nm in ('saveCurrentValue', 'restoreSavedValue', 'setUnknown'):
                st.ev(nm)
                return [(st, None)]
            if who == 'lst':
                st.ev('told', nm, *[self.vraw(st, a) if i == 2 else a for i, a in enumerate(ctx.args)])
                return [(st, None)]
            if nm in ('activate', 'deactivate'):
                st.ev(nm, who)
                return [(st, None)]
            if nm in ('getName', 'toString'):
                return [(st, mk('name', who) if nm == 'getName' else 'dest')]
            if nm == 'asAssignable':
                return [(st, ctx.this)]
        return VarI.on_call(self, st, ctx)


def assignment(P, rep):
    I = AsgI(P)
    if 'new_Assignment' not in I.W:
        raise AnalysisBroken('assignment witness was not compiled')
    st, a = I.one(State(), 'new_Assignment', ptr(('O', 'dest')), ptr(('O', 'rhs')))
    st, ack = I.one(st, 'a_ack', a)
    st, abt = I.one(st, 'a_abort', a)
    st, _ = I.one(st, 'x_listen', ack, ptr(L))
    n = 0
    for listener in (0, ptr(('O', 'lst'))):
        s = st
        evals = 0
        for it in (1, 2):
            for nm, f in (('acknowledgement', ack), ('abort', abt)):
                for s2, k, v in I.read(s, f, 'Boolean'):
                    rep.check(k is False or v in (False, 0), 'flags', 'Assignment|reset', 'the %s flag is not clear before run %d' % (nm, it))
            s, _ = I.one(clean(s), 'a_activate', a)
            ev = [e for e in s.trace if e[0] == 'activate']
            rep.check(sorted(e[1] for e in ev) == ['dest', 'rhs'], 'flags', 'Assignment|activate', 'activation does not reach both sides: %s' % (ev,))
            s, _ = I.one(s, 'x_activate', ack)
            s, _ = I.one(clean(s), 'a_fix', a)
            ev = [e[0] for e in s.trace if e[0] in ('rhs', 'saveCurrentValue', 'write')]
            rep.check(sorted(ev) == ['rhs', 'saveCurrentValue'], 'assign', 'Assignment|fix',
                      'fixing the value does %s instead of one save and one evaluation' % (ev,), sample='fixValue: %s' % ev)
            evals += 1
            s, _ = I.one(clean(s), 'a_execute', a, listener)
            ev = [e for e in s.trace if e[0] in ('rhs', 'saveCurrentValue', 'write', 'told', 'notify', 'restoreSavedValue')]
            want = mk('anyvalue', 'rhs', evals - 1)
            rep.check([e[0] for e in ev if e[0] not in ('told', 'notify')] == ['write'] and [e[1] for e in ev if e[0] == 'write'] == [want],
                      'assign', 'Assignment|execute', 'execution does %s instead of writing the value fixed at the start' % (ev,),
                      sample='execute: writes the fixed value')
            names = [e[0] for e in ev]
            rep.check('notify' in names and names.index('write') < names.index('notify'), 'assign', 'Assignment|ack',
                      'the acknowledgement is not announced after the write: %s' % names)
            told = [e for e in ev if e[0] == 'told']
            rep.check(len(told) == (1 if listener else 0) and all(t[2] == ptr(('O', 'dest')) and t[4] == want for t in told), 'assign',
                      'Assignment|listener', 'the listener is told %s' % (told,))
            for s2, k, v in I.read(s, ack, 'Boolean'):
                rep.check(k and v in (True, 1), 'assign', 'Assignment|ack', 'the assignment is not acknowledged')
            s, _ = I.one(s, 'x_activate', abt)
            s, _ = I.one(clean(s), 'a_retract', a, listener)
            ev = [e for e in s.trace if e[0] in ('rhs', 'saveCurrentValue', 'write', 'told', 'notify', 'restoreSavedValue')]
            rep.check([e[0] for e in ev if e[0] not in ('told', 'notify')] == ['restoreSavedValue'], 'assign', 'Assignment|retract',
                      'retraction does %s instead of restoring' % (ev,), sample='retract: restores')
            told = [e for e in ev if e[0] == 'told']
            rep.check(len(told) == (1 if listener else 0) and all(t[2] == ptr(('O', 'dest')) and t[4] == mk('anyvalue', 'saved') for t in told),
                      'assign', 'Assignment|listener', 'the listener is told %s on retraction' % (told,))
            for s2, k, v in I.read(s, abt, 'Boolean'):
                rep.check(k and v in (True, 1), 'assign', 'Assignment|abort', 'the abort is not signalled')
            s, _ = I.one(clean(s), 'a_deactivate', a)
            ev = [e for e in s.trace if e[0] == 'deactivate']
            rep.check(sorted(e[1] for e in ev) == ['dest', 'rhs'], 'flags', 'Assignment|deactivate', 'deactivation does not reach both sides: %s' % (ev,))
            s, _ = I.one(s, 'x_deactivate', ack)
            s, _ = I.one(s, 'x_deactivate', abt)
            # the flags start clear once active again
            t = s
            for nm, f in (('acknowledgement', ack), ('abort', abt)):
                t, _ = I.one(t, 'x_activate', f)
                for s2, k, v in I.read(t, f, 'Boolean'):
                    rep.check(k is False or v in (False, 0), 'flags', 'Assignment|reset', 'the %s flag is still set in the next iteration' % nm,
                              sample='%s flag reset' % nm)
                t, _ = I.one(t, 'x_deactivate', f)
            s = t
            n += 1
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('assignment runs', n, 4)


def flags(P, rep):
    """the assignment node (re)activates its flags on the transitions that start and abort it, before the action is queued"""
    from lib_sim import runs
    n = 0
    for I, E, cls, pres, states, steps in runs(P, rep, False):
        if not cls.endswith('AssignmentNode'):
            continue
        for s in steps:
            if s.sig is not None:
                continue
            for to, flag, q in (('EXECUTING', 'actionComplete', 'enqueueAssignment'), ('FAILING', 'abortComplete', 'enqueueAssignmentForRetraction')):
                if s.to != to:
                    continue
                n += 1
                before = s.pre.aux.get(('act', flag), 0)
                ev = [e[1] for e in s.post.trace if e[0] == 'activate' and e[1] == flag or e[0] == 'exec' and e[1] == q]
                rep.check(before == 0 and flag in ev and q in ev and ev.index(flag) < ev.index(q), 'flags', cls + '|' + flag,
                          '%s -> %s: the flag %s is not freshly activated before the action is queued (%s)' % (s.frm, to, flag, ev),
                          sample='%s -> %s: %s' % (s.frm, to, ev))
    rep.floor('assignment starts and aborts', n, 4)
