"""M01: a node leaving execution holds nothing any more."""
from lib_sim import *

MIN_OBLIGATIONS = 100


def run(P, rep):
    rep.rule('life-cycle simulation with every resource granted or refused: a node gets all its mutexes and (assignment) '
             'its variable or keeps none; it holds all of them from EXECUTING until it is in ITERATION_ENDED or FINISHED, '
             'where it holds none; while refused it waits for each of them, and stops waiting when taken off the queue')
    for I, E, cls, pres, states, steps in runs(P, rep, rep.tier == 'thorough'):
        kind = KIND[cls]
        allr = ([('O', 'm:0'), ('O', 'm:1')] if I.mutexes else []) + ([('O', 'basevar')] if kind == 'assignment' else [])
        for s in steps:
            if s.sig is not None or s.to is None:
                continue
            k = '%s|%s>%s' % (cls, s.frm, s.to)
            held = {addr_of(x[1]) for x, v in s.post.aux.items() if x[0] == 'held' and v}
            busy = s.to in ('EXECUTING', 'FINISHING', 'FAILING')
            for r in allr:
                nm = 'the assigned variable' if r[1] == 'basevar' else 'its mutex'
                rep.check((r in held) == busy, 'held', k + '|' + r[1], '%s: the node %s %s' %
                          (label(s), 'holds' if r in held else 'does not hold', nm),
                          sample='%s %s -> %s: %s %s' % (cls, s.frm, s.to, r[1], 'held' if busy else 'free'))
    acquisition(P, rep)


class AcqI(SimI):
    def reservable(self, st, ctx):
        r = SimI.reservable(self, st, ctx)
        return r

    def decide(self, st, a):
        return None


def acquisition(P, rep):
    E = enums(P)
    acq = P.find('NodeImpl::tryResourceAcquisition', 0)[0]
    rel = P.find('NodeImpl::releaseResourceReservations', 0)[0]
    need = P.find('NodeImpl::acquiresResources', 0)[0]
    n = 0
    for cls in CLASSES:
        kind = KIND[cls]
        for mutexes in (True, False):
            I = SimI(P, cls, E)
            I.presence, I.mutexes = set(), mutexes
            st = clean(I.fresh(True))
            allr = ([('O', 'm:0'), ('O', 'm:1')] if mutexes else []) + ([('O', 'basevar')] if kind == 'assignment' else [])
            f = P.fns[P.dispatch(cls, need['key']) or need['key']]
            for s, v, sig in I.start(f, st.fork(), ptr(NODE), []):
                for s2, b in I.truth(s, v):
                    rep.check(sig is None and b == bool(allr), 'needs', cls, '%s: acquiresResources answers %s for a node with %d '
                              'resource(s) to reserve' % (cls, b, len(allr)))
            if not allr:
                continue
            for s, v, sig in I.start(P.fns[P.dispatch(cls, acq['key']) or acq['key']], st.fork(), ptr(NODE), []):
                if sig is not None:
                    continue
                n += 1
                held = {addr_of(x[1]) for x, b in s.aux.items() if x[0] == 'held' and b}
                asked = {addr_of(e[1]) for e in s.trace if e[0] == 'acquire'}
                waits = set()
                for e in s.trace:
                    a = addr_of(e[1]) if len(e) > 1 else None
                    if e[0] == 'acquire':
                        (waits.discard if e[2] else waits.add)(a)
                    elif e[0] == 'addWaitingNode':
                        waits.add(a)
                    elif e[0] == 'removeWaitingNode':
                        waits.discard(a)
                rep.check(held == (set(allr) if v else set()), 'acquire', cls + '|held',
                          '%s: tryResourceAcquisition returns %s while the node holds %s' %
                          (cls, v, ', '.join(sorted(x[1] for x in held)) or 'nothing'))
                rep.check(v or waits == set(allr), 'acquire', cls + '|waits',
                          '%s: refused, the node does not wait for %s' % (cls, ', '.join(sorted(x[1] for x in set(allr) - waits))),
                          sample='%s refused: waits for all' % cls)
            for s, v, sig in I.start(P.fns[P.dispatch(cls, rel['key']) or rel['key']], st.fork(), ptr(NODE), []):
                gone = {addr_of(e[1]) for e in s.trace if e[0] == 'removeWaitingNode'}
                rep.check(sig is None and gone == set(allr), 'acquire', cls + '|unwait',
                          '%s: taken off the queue, the node still waits for %s' % (cls, ', '.join(sorted(x[1] for x in set(allr) - gone))))
            rep.fn(*I.analysed)
    rep.floor('acquisition paths', n, 10)
