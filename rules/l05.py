"""L05: every transition a node chooses is carried out without error."""
from lib_sim import *

MIN_OBLIGATIONS = 150


def run(P, rep):
    rep.rule('life-cycle simulation from the constructor to a fixpoint: each choice of getDestState is given to '
             'transition, which must end normally in the chosen state with the choice consumed')
    for I, E, cls, pres, states, steps in runs(P, rep, rep.tier == 'thorough'):
        names = {v: k[:-6] for k, v in E.items() if k.endswith('_STATE') and k != 'NO_NODE_STATE'}
        for s in steps:
            k = '%s|%s>%s' % (cls, s.frm, s.to)
            if s.to is None:
                rep.check(False, 'accepted', k, '%s (%s): looking for the next state from %s ends in %s' %
                          (cls, s.variant, s.frm, s.sig[1]))
                continue
            if not rep.check(s.sig is None, 'accepted', k, '%s: the transition ends in %s' % (label(s), s.sig and s.sig[1])):
                continue
            got = names.get(I.get(s.post, 'getState'))
            rep.check(got == s.to, 'accepted', k + '|state', '%s: the node is then in state %s' % (label(s), got),
                      sample='%s %s -> %s' % (cls, s.frm, s.to))
            nx = I.get(s.post, 'getNextState')
            rep.check(nx == E['NO_NODE_STATE'], 'accepted', k + '|next', '%s: the choice is not consumed' % label(s))
