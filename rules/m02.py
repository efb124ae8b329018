"""M02: one holder, no lost waiter."""
from lib_node import *
import m01

MIN_OBLIGATIONS = 60
R = ('O', 'resource')


class ResI(Interp):
    def __init__(self, P, cls):
        Interp.__init__(self, P)
        self.rcls = cls

    def dyn_class(self, st, a, static):
        return self.rcls if a == R else None

    def on_call(self, st, ctx):
        if ctx.this is not None and isinstance(ctx.this, Ptr) and ctx.this.addr[0] == 'O' and ctx.this.addr[1].startswith('node'):
            st.ev('call', ctx.name, ctx.this)
            return [(st, mk('nodeinfo', ctx.name))]
        return None

    def initial(self, st, a, t):
        if a[0] == 'G':
            return 0
        return Interp.initial(self, st, a, t)


def run(P, rep):
    rep.rule('typestate closure of each Reservable class from its constructed state under acquire, release, addWaitingNode and '
             'removeWaitingNode by distinct nodes, against the holder/waiter reference: granted only when free, freed only by the '
             'holder, every registered waiter told when it is freed, nobody else told')
    ops = {n: P.find('Reservable::' + n, 1)[0] for n in ('acquire', 'release', 'addWaitingNode', 'removeWaitingNode')}
    gh = P.find('Reservable::getHolder', 0)[0]
    ctor = [f for f in P.fns.values() if f.get('cls') == 'PLEXIL::Reservable' and 'inits' in f and not f['params']]
    if not ctor:
        raise AnalysisBroken('no default constructor of Reservable')
    seen_impl = set()
    n = 0
    nodes = ['node0', 'node1'] + (['node2'] if rep.tier == 'thorough' else [])
    for cls in sorted({'PLEXIL::Reservable'} | set(P.subclasses('PLEXIL::Reservable'))):
        impl = {k: (P.dispatch(cls, f['key']) or f['key']) for k, f in list(ops.items()) + [('getHolder', gh)]}
        sig_ = tuple(sorted(impl.items()))
        if sig_ in seen_impl or any(v not in P.fns for v in impl.values()):
            continue
        seen_impl.add(sig_)
        I = ResI(P, cls)
        I.concrete_bound = 200
        starts = I.start(ctor[0], State(), ptr(R), [])
        work = [(s, (None, frozenset(), frozenset())) for s, v, sig in starts if sig is None]
        seen = set()
        while work:
            st, (holder, must, may) = work.pop(0)
            st = st.fork()
            st.trace, st.facts, st.cnt = (), {}, {}
            for k in [k for k in st.mem if k[0] in ('L', 'TMP') or k[0] == 'D']:
                del st.mem[k]
            key = (frozenset(st.mem.items()), holder, must, may)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 1500:
                raise AnalysisBroken('Reservable state space does not close')
            for opn in sorted(ops):
                for nd in nodes:
                    for s, v, sig in I.start(P.fns[impl[opn]], st.fork(), ptr(R), [ptr(('O', nd))]):
                        n += 1
                        told = {e[2].addr[1] for e in s.trace if e[0] == 'call' and e[1] == 'notifyResourceAvailable'}
                        lab = '%s::%s(%s) with holder %s, waiting {%s}' % (fmtc(cls), opn, nd, holder, ', '.join(sorted(may)))
                        rk = fmtc(cls) + '|' + opn
                        if not rep.check(sig is None, 'resource', rk + '|error', lab + ' raises an error'):
                            continue
                        h2, must2, may2 = holder, must, may
                        if opn == 'acquire':
                            want = holder is None
                            for s1, b in I.truth(s, v):
                                rep.check(b == want, 'resource', rk + '|grant', '%s answers %s' % (lab, b),
                                          sample='%s -> %s' % (lab, b))
                            if want:
                                h2, must2, may2 = nd, must - {nd}, may - {nd}
                            elif nd != holder:
                                must2, may2 = must | {nd}, may | {nd}
                            else:
                                may2 = may | {nd}
                        elif opn == 'addWaitingNode':
                            must2, may2 = must | {nd}, may | {nd}
                        elif opn == 'removeWaitingNode':
                            must2, may2 = must - {nd}, may - {nd}
                        elif opn == 'release' and nd == holder:
                            rep.check(must <= told, 'resource', rk + '|lost', '%s does not tell %s' % (lab, ', '.join(sorted(must - told))),
                                      sample='%s tells %s' % (lab, ', '.join(sorted(told)) or 'nobody'))
                            rep.check(told <= may, 'resource', rk + '|extra', '%s tells %s, not waiting' % (lab, ', '.join(sorted(told - may))))
                            h2, must2 = None, must - told
                        if opn != 'release' or nd != holder:
                            rep.check(not told, 'resource', rk + '|spurious', '%s tells %s' % (lab, ', '.join(sorted(told))))
                        for s3, hv, sg in I.start(P.fns[impl['getHolder']], s.fork(), ptr(R), []):
                            got = addr_of(hv)[1] if isinstance(hv, Ptr) else None
                            rep.check(got == h2, 'resource', rk + '|holder', '%s leaves holder %s' % (lab, got))
                        work.append((s, (h2, must2, may2)))
        rep.count('resource states', len(seen))
        rep.fn(*I.analysed)
    rep.floor('operations on resource states', n, 60)
    m01.acquisition(P, rep)


def fmtc(c):
    return c.replace('PLEXIL::', '')
