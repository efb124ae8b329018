"""L02: outcome and failure type recorded by every life-cycle transition."""
from lib_sim import *

MIN_OBLIGATIONS = 200


def run(P, rep):
    rep.rule('life-cycle simulation from the constructor to a fixpoint: after each transition the recorded outcome and '
             'failure type equal those the life-cycle table prescribes for the conditions that led there')
    for I, E, cls, pres, states, steps in runs(P, rep, rep.tier == 'thorough', True):
        oc = {v: k for k, v in E.items() if k.endswith('_OUTCOME')}
        ft = {v: k for k, v in E.items() if k in ('NO_FAILURE', 'PRE_CONDITION_FAILED', 'POST_CONDITION_FAILED',
                                                  'INVARIANT_CONDITION_FAILED', 'PARENT_FAILED', 'EXITED', 'PARENT_EXITED')}
        for s in steps:
            if s.sig is not None or s.to is None:
                continue
            o = lambda st: oc.get(I.get(st, 'getOutcome'), str(I.get(st, 'getOutcome'))).replace('_OUTCOME', '')
            f = lambda st: ft.get(I.get(st, 'getFailureType'), str(I.get(st, 'getFailureType')))
            pre, got = (o(s.pre), f(s.pre)), (o(s.post), f(s.post))
            for want, ex in s.wants.items():
                if want is None or want[0] != s.to:
                    continue           # choice itself is property L01
                if (s.frm, s.to) in (('ITERATION_ENDED', 'WAITING'), ('FINISHED', 'INACTIVE')):
                    w = ('NO', 'NO_FAILURE')
                elif want[1] is None:
                    w = pre
                else:
                    w = (want[1], want[2])
                rep.check(got == w, 'outcome', '%s|%s>%s|%s' % (cls, s.frm, s.to, want[1:]),
                          '%s: with %s the outcome is %s/%s instead of %s/%s' % (label(s), fmt(ex), got[0], got[1], w[0], w[1]),
                          sample='%s %s -> %s: %s/%s' % (cls, s.frm, s.to, w[0], w[1]))
