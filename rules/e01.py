"""E01: NOT/AND/OR/XOR/IsKnown compute Kleene logic for every combination of operand
truth values.  Each operator's evaluation members are abstractly interpreted with
every operand assigned one of {true, false, unknown}; n-ary members for every
argument count up to the bound (the members' own state is a few booleans, so the
product with the reference automaton repeats well below it)."""
import itertools
from interp import State
from lib_expr import ExprI, obj, result_slot, ref_result
from facts import AnalysisBroken

U = 'U'


def k_not(a):
    return U if a == U else (not a)


def k_or(*v):
    return True if True in v else (U if U in v else False)


def k_and(*v):
    return False if False in v else (U if U in v else True)


def k_xor(*v):
    if U in v:
        return U
    r = False
    for x in v:
        r ^= x
    return r


def k_known(a):
    return a != U


OPS = {'BooleanNot': (k_not, (1,)), 'BooleanOr': (k_or, None), 'BooleanAnd': (k_and, None),
       'BooleanXor': (k_xor, None), 'IsKnown': (k_known, (1,))}


def method(P, cls, kind):
    """the operator() evaluated for the given argument form, by dynamic dispatch"""
    want = {1: ['const Expression *'], 2: ['const Expression *'] * 2, 'n': ['const Function &']}[kind]
    base = None
    for m in P.cls('Operator')['methods']:
        pass
    cands = []
    for c in ['PLEXIL::' + cls] + P.bases('PLEXIL::' + cls):
        for f in P.find(c + '::operator()', required=False) + P.find(c + '::calc', required=False):
            ts = [p['t'].replace('PLEXIL::', '') for p in f['params']]
            if ts and ts[0] == 'bool &' and [t for t in ts[1:]] == want:
                cands.append(f)
        if cands:
            break
    return cands[0] if cands else None


def run(P, rep):
    rep.rule('for every assignment of true/false/unknown to the operands, the abstract result of the operator member '
             'equals the Kleene table')
    nmax = 7 if rep.tier == 'thorough' else 5
    members = 0
    for op, (spec, counts) in OPS.items():
        P.cls(op)
        forms = [1, 2, 'n'] if counts is None else list(counts)
        for form in forms:
            f = method(P, op, form)
            if f is None:
                raise AnalysisBroken('no evaluation member of %s for %s operands' % (op, form))
            members += 1
            rep.fn(f['key'])
            for n in ([form] if form != 'n' else range(3, nmax + 1)):
                bad = None
                for vals in itertools.product((True, False, U), repeat=n):
                    I = ExprI(P)
                    I.env = {'a%d' % i: v for i, v in enumerate(vals)}
                    I.nargs = n
                    st = State()
                    args = [result_slot()] + ([obj('a%d' % i) for i in range(n)] if form != 'n' else [obj('args')])
                    want = spec(*vals)
                    rs = I.start(f, st, this=obj('op'), args=args)
                    got = set()
                    for s, v, sig in rs:
                        if sig:
                            got.add('signal ' + str(sig[1]))
                        elif isinstance(v, bool):
                            got.add(U if not v else ref_result(s))
                        else:
                            got.add('undetermined')
                    rep.ok('kleene', '%s%r = %r' % (op, vals, want) if n == 2 else None)
                    if got != {want} and bad is None:
                        bad = (vals, want, got)
                    rep.fn(*I.analysed)
                if bad:
                    vals, want, got = bad
                    rep.violation('kleene', '%s/%s' % (op, form),
                                  '%s (%s:%s) with %d operands: for operands %r the result must be %r but is %s' %
                                  (f['key'], f['file'], f['ln'], n, vals, want, sorted(map(str, got))))
                    break
    rep.floor('operator members', members, 11)


MIN_OBLIGATIONS = 300
