"""Life-cycle simulation: the node's own getDestState and transition are interpreted from the
state its constructor leaves, over every choice the conditions allow, to a fixpoint."""
from lib_node import *

CAP = 3


class Step:
    """one life-cycle transition of one variant: pre/post abstract states and the events between"""
    __slots__ = ('cls', 'variant', 'frm', 'to', 'ftype', 'pre', 'post', 'sig', 'parent', 'why', 'wants')


def variants(kind, deep):
    """presence variants: everything, nothing, and each condition absent"""
    full = frozenset(OWN + ANC + (['childAncestorExit', 'childAncestorInvariant', 'childAncestorEnd'] if kind == 'list' else []))
    out = [('all conditions', full, True), ('no conditions', frozenset(), True), ('no variables or mutexes', full, False)]
    if deep:
        for c in sorted(full):
            out.append(('without ' + c, full - {c}, True))
    return out


class SimI(NodeI):
    """conditions present by variant; resources granted or refused"""
    def on_call(self, st, ctx):
        if ctx.name == 'getHolder':
            return [(st, ptr(NODE) if st.aux.get(('held', ctx.this)) else ptr(('O', 'othernode')))]
        return NodeI.on_call(self, st, ctx)

    def reservable(self, st, ctx):
        k = ('held', ctx.this)
        if ctx.name == 'acquire':
            if st.aux.get(k):
                st.ev('acquire', ctx.this, False)
                return [(st, False)]
            out = []
            for s, b in self.truth(st, mk('acq', ctx.this)):
                s.ev('acquire', ctx.this, b)
                if b:
                    s.aux[k] = True
                out.append((s, b))
            return out
        return NodeI.reservable(self, st, ctx)


def key_of(s):
    return (frozenset((k, v) for k, v in s.mem.items()), frozenset((k, v) for k, v in s.aux.items() if v))


def clean(s):
    s = s.fork()
    s.trace, s.facts, s.cnt = (), {}, {}
    for k in [k for k in s.mem if k[0] == 'L' or k[0] == 'I' and k[1][0] == 'F' and k[1][2] == 'm_conditions' or
              k[0] == 'F' and k[1] == PARENT]:
        del s.mem[k]
    s.aux = {k: v for k, v in s.aux.items() if v}
    return s


def parents_for(state):
    return {'INACTIVE': ['EXECUTING', 'FINISHED'], 'FINISHED': ['WAITING']}.get(state, ['EXECUTING'])


def simulate(P, E, cls, variant, presence, extras, root=False, spec_too=False):
    """-> (I, states: name -> {key: State}, steps)"""
    kind = KIND[cls]
    I = SimI(P, cls, E)
    I.presence = set(presence)
    I.mutexes = I.locals_ = extras
    names = {v: k[:-6] for k, v in E.items() if k.endswith('_STATE') and k != 'NO_NODE_STATE'}
    ftn = {E[f]: f for f in ('NO_FAILURE', 'PRE_CONDITION_FAILED', 'POST_CONDITION_FAILED', 'INVARIANT_CONDITION_FAILED',
                             'PARENT_FAILED', 'EXITED', 'PARENT_EXITED') if f in E}
    s0 = clean(I.fresh(parent=not root))
    start = names.get(I.get(s0, 'getState'))
    if start != 'INACTIVE':
        raise AnalysisBroken('a new node is in state %s' % start)
    states, steps, work = {}, [], [s0]
    acq = P.find('NodeImpl::tryResourceAcquisition', 0)[0]
    while work:
        s = work.pop()
        stn = names[I.get(s, 'getState')]
        k = key_of(s)
        if k in states.setdefault(stn, {}):
            continue
        states[stn][k] = s
        if any(v > CAP for kk, v in s.aux.items() if kk[0] == 'act'):
            continue
        for par in (parents_for(stn) if not root else [None]):
            I.parent_state = E[par + '_STATE'] if par else None
            chosen = {}
            for d, ret, sig in I.dest(s.fork()):
                if sig is not None:
                    steps.append(mkstep(cls, variant, stn, None, s, d, sig, par, ftn[I.get(s, 'getFailureType')], I))
                    continue
                c = clean(d)
                if ret:
                    val = I.valuation(d)
                    ent = chosen.setdefault(key_of(c), (c, fmt({n: (v[0] if len(v) == 1 else '?') for n, v in val.items()}), {}))
                    if spec_too:
                        part = {n: ('A' if n not in I.presence else 'UFT') for n in OWN + ANC}
                        if root:
                            part.update({n: 'A' for n in ANC})
                        for n, v in val.items():
                            if v:
                                part[n] = ''.join(v)
                        for pv, want in spec_all(kind, stn, ftn[I.get(s, 'getFailureType')], par, part):
                            ent[2].setdefault(want, {n: v for n, v in pv.items() if n in val or len(v) == 1 and v != 'A'})
                elif key_of(c) != k:
                    work.append(c)
            for c, why, wants in chosen.values():
                nxt = names.get(I.get(c, 'getNextState'))
                pre = [c]
                if nxt == 'EXECUTING':
                    work.append(c)          # may be looked at again while it waits for resources
                    if extras or kind == 'assignment':
                        pre = []
                        for a, ok, sig in I.start(acq, c.fork(), ptr(NODE), []):
                            if sig is not None:
                                if sig[0] == 'thr' and ('lanError' in str(sig[1]) or 'noreturn' in str(sig[1])):
                                    continue        # plan error reported: ancestor holds the mutex
                                steps.append(mkstep(cls, variant, stn, 'EXECUTING', c, a, sig, par, 'NO_FAILURE', I))
                                continue
                            b = clean(a)
                            if ok:
                                pre.append(b)
                            else:
                                work.append(b)
                for b in pre:
                    for t, _, sig in I.transit(b.fork()):
                        sp = mkstep(cls, variant, stn, nxt, b, t, sig, par, ftn.get(I.get(s, 'getFailureType')), I)
                        sp.why, sp.wants = why, wants
                        steps.append(sp)
                        if sig is None:
                            work.append(clean(t))
    return I, states, steps


def mkstep(cls, variant, frm, to, pre, post, sig, par, ft, I):
    s = Step()
    s.cls, s.variant, s.frm, s.to, s.pre, s.post, s.sig, s.parent, s.ftype, s.why = cls, variant, frm, to, pre, post, sig, par, ft, ''
    s.wants = {}
    return s


def label(s):
    return '%s (%s): %s -> %s%s' % (s.cls.replace('PLEXIL::', ''), s.variant, s.frm, s.to,
                                    ' when ' + s.why if s.why else '')


def runs(P, rep, deep, spec_too=False):
    E = enums(P)
    n = 0
    for cls in CLASSES:
        for name, pres, extras in variants(KIND[cls], deep):
            for root in ([False, True] if name == 'all conditions' else [False]):
                p = {x for x in pres if x not in ANC} if root else pres
                I, states, steps = simulate(P, E, cls, name + (', root' if root else ''), p, extras, root, spec_too)
                rep.fn(*I.analysed)
                n += len(steps)
                yield I, E, cls, pres, states, steps
    rep.floor('life-cycle transitions', n, 60)
