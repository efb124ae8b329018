"""L04: activations and deactivations balance on every life-cycle path."""
from lib_sim import *

MIN_OBLIGATIONS = 150


def run(P, rep):
    rep.rule('life-cycle simulation from the constructor to a fixpoint: no condition, variable or action is deactivated '
             'more often than activated, its activation count depends on the state only (so no path through the cycle '
             'accumulates), and it is zero whenever the node is inactive or finished')
    for I, E, cls, pres, states, steps in runs(P, rep, rep.tier == 'thorough'):
        base = {}
        for s in steps:
            if s.sig is not None or s.to is None:
                continue
            under = [e[1] for e in s.post.trace if e[0] == 'underflow']
            rep.check(not under, 'balance', '%s|%s>%s|under|%s' % (cls, s.frm, s.to, under[:1]),
                      '%s: %s is deactivated although it is not active' % (label(s), ', '.join(under)))
            now = {k[1]: v for k, v in s.post.aux.items() if k[0] == 'act' and v}
            if s.to in ('INACTIVE', 'FINISHED'):
                want = {}
            else:
                want = base.setdefault(s.to, now)
            for n in set(now) | set(want):
                a, b = now.get(n, 0), want.get(n, 0)
                rep.check(a == b, 'balance', '%s|%s>%s|%s' % (cls, s.frm, s.to, n),
                          '%s: %s is active %d time(s) on entering %s, %s' %
                          (label(s), n, a, s.to, 'but is not needed there any more' if not b and s.to in ('INACTIVE', 'FINISHED')
                           else 'but %d time(s) on another path' % b))
            rep.check(all(v == 1 for v in now.values()), 'balance', '%s|%s>%s|twice' % (cls, s.frm, s.to),
                      '%s: active more than once: %s' % (label(s), ', '.join(k for k, v in now.items() if v != 1)),
                      sample='%s %s -> %s: %s' % (cls, s.frm, s.to, ', '.join(sorted(now)) or 'nothing active'))
