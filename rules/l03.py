"""L03: in every state the conditions the node consults there are active and listened to."""
from lib_sim import *

MIN_OBLIGATIONS = 200


def run(P, rep):
    rep.rule('life-cycle simulation from the constructor to a fixpoint: in each state reached, every present condition '
             'getDestState reads there is active; a list node keeps the conditions it hands to its children active while '
             'it executes, finishes or fails; finalizeConditions makes the node a listener of every condition that can '
             'make it leave a state, and cleanUpConditions ends that')
    E = enums(P)
    for I, E, cls, pres, states, steps in runs(P, rep, rep.tier == 'thorough'):
        kind = KIND[cls]
        for s in steps:
            if s.sig is not None or s.to is None:
                continue
            reads = consulted(kind, s.to, 'NO_FAILURE') - set(ANC)
            if kind == 'list' and s.to in ('EXECUTING', 'FINISHING', 'FAILING'):
                reads |= {'childAncestorExit', 'childAncestorInvariant', 'childAncestorEnd'}
            for c in reads:
                if c not in I.presence and c not in ALWAYS[kind]:
                    continue
                n = s.post.aux.get(('act', c), 0)
                nm = c if not c.startswith('child') else c[5:] + ' (as its children see it)'
                rep.check(n >= 1, 'active', '%s|%s>%s|%s' % (cls, s.frm, s.to, c),
                          '%s: the %s condition is consulted in state %s but is not active' % (label(s), nm, s.to),
                          sample='%s %s: %s active' % (cls, s.to, c))
            if s.to == 'EXECUTING':
                for v in ('local0', 'local1') if I.locals_ else ():
                    rep.check(s.post.aux.get(('act', v), 0) >= 1, 'active', '%s|locals' % cls,
                              '%s: a local variable of the executing node is not active' % label(s))
    listeners(P, rep, E)


class ListenI(NodeI):
    def initial(self, st, addr, typ):
        if addr[0] == 'I' and addr[1] == ('F', NODE, 'm_garbageConditions'):
            return False
        return NodeI.initial(self, st, addr, typ)

    def on_call(self, st, ctx):
        if ctx.name == 'specializedCreateConditionWrappers':
            return [(st, None)]
        if ctx.name == 'makeFunction' or ctx.name == 'instance':
            return [(st, mk('other'))]
        return NodeI.on_call(self, st, ctx)


def listeners(P, rep, E):
    fin = P.find('NodeImpl::finalizeConditions', 0)[0]
    cln = P.find('NodeImpl::cleanUpConditions', 0)[0]
    for cls in CLASSES:
        kind = KIND[cls]
        must = set()
        for st in REACHABLE[kind]:
            for fts in ('NO_FAILURE', 'PARENT_FAILED'):
                must |= consulted(kind, st, fts)
        must -= {'pre', 'post'}       # read only when another condition has already made the node due
        for present in (set(OWN + ANC + ['childAncestorExit', 'childAncestorInvariant', 'childAncestorEnd']), {'exit', 'ancestorEnd'}, {'ancestorExit', 'start'}):
            I = ListenI(P, cls, E)
            I.presence = present
            st = I.fresh(True)
            for s, _, sig in I.start(fin, st, ptr(NODE), []):
                if sig:
                    rep.check(False, 'listens', cls + '|error', '%s: finalizeConditions ends in %s' % (cls, sig[1]))
                    continue
                got = [e[1] for e in s.trace if e[0] == 'addListener' and addr_of(e[2]) is not None and base_is_node(e[2])]
                for c in sorted(must):
                    if c in present or c in ALWAYS[kind]:
                        rep.check(c in got, 'listens', '%s|%s' % (cls, c),
                                  '%s never hears of changes of its %s condition' % (cls, c),
                                  sample='%s listens to %s' % (cls, c))
                c2 = clean(s)
                c2.trace = ()
                for s2, _, sg in I.start(P.fns[P.dispatch(cls, cln['key']) or cln['key']], c2, ptr(NODE), []):
                    gone = [e[1] for e in s2.trace if e[0] == 'removeListener' and base_is_node(e[2])]
                    for c in sorted(set(got)):
                        rep.check(sg is None and c in gone, 'listens', '%s|%s|cleanup' % (cls, c),
                                  '%s: after cleanUpConditions the %s condition still notifies the node' % (cls, c))
            rep.fn(*I.analysed)


def base_is_node(v):
    a = addr_of(v)
    while a and a[0] == 'F':
        a = a[1]
    return a == NODE
