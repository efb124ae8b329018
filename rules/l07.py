"""L07: timepoints of a node record the moment each state was entered and left."""
from lib_sim import *

MIN_OBLIGATIONS = 300
TPC = 'PLEXIL::NodeTimepointValue'


class TpI(SimI):
    tps = None

    def fill(self, s):
        NodeI.fill(self, s)
        if self.tps:
            for k, v in self.tps.mem.items():
                s.mem[k] = v
            for k, v in self.tps.cls.items():
                s.cls[k] = v
            s.mem[('F', ('F', NODE, 'm_timepoints'), '$p')] = ptr(('O', 'tp0'))

    def on_call(self, st, ctx):
        if ctx.name == 'logTransition':
            return None
        if ctx.name == 'publishChange' and addr_of(ctx.this) and addr_of(ctx.this)[0] == 'O' and addr_of(ctx.this)[1].startswith('tp'):
            st.ev('tpchange', addr_of(ctx.this)[1])
            return [(st, None)]
        return SimI.on_call(self, st, ctx)


def method(P, name, nargs):
    f = P.find(TPC + '::' + name, nargs)
    if not f:
        raise AnalysisBroken('no ' + TPC + '::' + name)
    return f[0]


def build(P, I, states):
    """one timepoint for each end of each state, in a chain"""
    st = State()
    ctor = [f for f in P.fns.values() if f.get('cls') == TPC and 'inits' in f and len(f['params']) == 3]
    if len(ctor) != 1:
        raise AnalysisBroken('NodeTimepointValue constructor not found')
    keys = [(n, e) for n in states for e in (False, True)]
    for i, (n, e) in enumerate(keys):
        o = ('O', 'tp%d' % i)
        st.cls[o] = TPC
        r = I.start(ctor[0], st, ptr(o), [ptr(NODE), states[n], e])
        if len(r) != 1 or r[0][2]:
            raise Broken('NodeTimepointValue constructor has %d outcomes' % len(r))
        st = r[0][0]
    for i in range(len(keys)):
        r = I.start(method(P, 'setNext', 1), st, ptr(('O', 'tp%d' % i)), [ptr(('O', 'tp%d' % (i + 1))) if i + 1 < len(keys) else 0])
        st = r[0][0]
    return st, keys


def read(P, I, st, o):
    """(known?, value) as getValue reports it"""
    st = st.fork()
    st.mem[('F', ('O', 'box'), 'r')] = None
    r = I.start(method(P, 'getValue', 1), st, ptr(o), [ptr(('F', ('O', 'box'), 'r'))])
    res = set()
    for s, v, sig in r:
        for s2, b in I.truth(s, v):
            res.add((b, s2.mem.get(('F', ('O', 'box'), 'r')) if b else None))
    if len(res) != 1:
        raise Broken('getValue of a timepoint has %d outcomes' % len(res))
    k, v = res.pop()
    return v if k else None


def run(P, rep):
    rep.rule('transition interpreted for every pair of old and new state a node class allows, with a timepoint for each end '
             'of each state: the end of the old and the start of the new state take the transition time, the others keep '
             'their value, except that a node becoming inactive forgets them')
    E = enums(P)
    states = {k[:-6]: v for k, v in E.items() if k.endswith('_STATE') and k not in ('NO_NODE_STATE',)}
    set_, reset = method(P, 'setValue', 1), method(P, 'reset', 0)
    for cls in CLASSES:
        kind = KIND[cls]
        I = TpI(P, cls, E)
        I.presence, I.mutexes, I.locals_ = set(), False, False
        chain, keys = build(P, I, states)
        for i in range(len(keys)):       # all known beforehand
            r = I.start(set_, chain, ptr(('O', 'tp%d' % i)), [mk('before', keys[i])])
            chain = r[0][0]
        I.tps = chain
        st = I.fresh(True)
        seen = set()
        for old in REACHABLE[kind]:
            nexts = {w[0] for ft in ('NO_FAILURE', 'PARENT_FAILED') for par in parents_for(old) + [None]
                     for _, w in spec_all(kind, old, ft, par, {a: 'A' for a in ANC} if par is None else {}) if w}
            for new in sorted(nexts):
                s = st.fork()
                s.mem[('F', NODE, I.field_of('getState'))] = states[old]
                s.mem[('F', NODE, I.field_of('getNextState'))] = states[new]
                s.trace, s.facts = (), {}
                seen.add((old, new))
                for t, _, sig in I.transit(s):
                    if sig:
                        continue            # property L05
                    for i, (n, e) in enumerate(keys):
                        v = read(P, I, t, ('O', 'tp%d' % i))
                        if (n == old and e) or (n == new and not e):
                            w, why = mk('time'), 'the transition time'
                        elif new == 'INACTIVE':
                            w, why = None, 'unknown'
                        else:
                            w, why = mk('before', (n, e)), 'what it was'
                        rep.check(v == w, 'timepoint', '%s|%s>%s|%s|%s' % (cls, old, new, n, e),
                                  '%s %s -> %s: timepoint %s.%s is %s instead of %s' %
                                  (cls, old, new, n, 'END' if e else 'START', 'unknown' if v is None else v, why),
                                  sample='%s %s -> %s: %s.%s is %s' % (cls, old, new, n, 'END' if e else 'START', why))
                        if w != mk('before', (n, e)):
                            rep.check(any(x[0] == 'tpchange' and x[1] == 'tp%d' % i for x in t.trace), 'announced',
                                      '%s|%s>%s' % (cls, old, new), '%s %s -> %s: the change of timepoint %s.%s is not announced' %
                                      (cls, old, new, n, 'END' if e else 'START'))
                    f = P.find('NodeImpl::getCurrentStateStartTime', 0)[0]
                    for _, v, sg in I.start(f, t.fork(), ptr(NODE), []):
                        rep.check(v == mk('time'), 'current', '%s|%s>%s' % (cls, old, new),
                                  '%s %s -> %s: the start time of the current state is then %s' % (cls, old, new, v))
        rep.floor('transitions of ' + kind, len(seen), 7)
        rep.fn(*I.analysed)
    ensure(P, rep, E, states)


def ensure(P, rep, E, states):
    """the timepoint an expression gets is the one for the state and end it names"""
    f = P.find('NodeImpl::ensureTimepoint', 2)[0]
    I = TpI(P, 'PLEXIL::NodeImpl', E)
    I.presence, I.mutexes, I.locals_ = set(), False, False
    chain, keys = build(P, I, states)
    for full in (True, False, 'one'):
        for i, (n, e) in enumerate(keys):
            s = State()
            if full is True:
                s = chain.fork()
                s.mem[('F', ('F', NODE, 'm_timepoints'), '$p')] = ptr(('O', 'tp0'))
            elif full == 'one':
                j = (i + 1) % len(keys)
                s = chain.fork()
                s = I.start(method(P, 'setNext', 1), s, ptr(('O', 'tp%d' % j)), [0])[0][0]
                s.mem[('F', ('F', NODE, 'm_timepoints'), '$p')] = ptr(('O', 'tp%d' % j))
            else:
                s.mem[('F', ('F', NODE, 'm_timepoints'), '$p')] = 0
            for t, v, sig in I.start(f, s, ptr(NODE), [states[n], e]):
                ok = sig is None and isinstance(v, Ptr)
                if ok:
                    g = lambda m: I.start(method(P, m, 0), t.fork(), v, [])[0][1]
                    ok = g('state') == states[n] and bool(g('isEnd')) == e
                    x, seen = t.mem.get(('F', ('F', NODE, 'm_timepoints'), '$p')), []
                    while isinstance(x, Ptr) and x not in seen:
                        seen.append(x)
                        x = I.start(method(P, 'next', 0), t.fork(), x, [])[0][1]
                    want = len(keys) if full is True else 1 if not full else 2
                    ok = ok and v in seen and len(seen) == want
                rep.check(ok, 'lookup', '%s|%s|%s' % (n, e, full), 'the timepoint for %s.%s of a node is not the one it updates' %
                          (n, 'END' if e else 'START'))
    rep.fn(*I.analysed)
