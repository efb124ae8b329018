"""E02: strict operators.  For every operator class other than the Kleene connectives,
and every operand form it accepts, each operand is either unknown or known with a
symbolic value; on every path:
 - if some operand is unknown the result is unknown;
 - a known result was stored on that path;
 - with all operands known, unknown is allowed only for operators with a domain, and
   only on a path where a test on the operand values decided it."""
from interp import State, T, Broken
from lib_ops import *

KLEENE = {'BooleanNot', 'BooleanOr', 'BooleanAnd', 'BooleanXor', 'IsKnown'}
DOMAIN = {'Division', 'Modulo', 'SquareRoot', 'RealToInteger'}    # and the integer conversions
INTCONV = {'Ceiling', 'Floor', 'Round', 'Truncate'}
TYPES = ['BOOLEAN_TYPE', 'INTEGER_TYPE', 'REAL_TYPE', 'STRING_TYPE', 'BOOLEAN_ARRAY_TYPE', 'INTEGER_ARRAY_TYPE',
         'REAL_ARRAY_TYPE', 'STRING_ARRAY_TYPE', 'NODE_STATE_TYPE', 'OUTCOME_TYPE', 'FAILURE_TYPE',
         'COMMAND_HANDLE_TYPE', 'DATE_TYPE', 'DURATION_TYPE']


class SI(OpI):
    def inline(self, key, fn, ctx):
        # the comparison of two arrays is the arrays' own business (V04)
        c = fn.get('cls') or ''
        return not (c == 'PLEXIL::Array' or c.startswith('PLEXIL::ArrayImpl<'))


def vtypes(P, c, n):
    """operand type combinations to examine"""
    if base_name(c) in ('Equal', 'NotEqual'):
        e = {x['n']: x['v'] for x in P.enum('ValueType')['vals']}
        num = [e[t] for t in TYPES if t in ('INTEGER_TYPE', 'REAL_TYPE', 'DATE_TYPE', 'DURATION_TYPE')]
        out = [(e[t], e[t]) for t in TYPES]
        out += [(a, b) for a in num for b in num if a != b]
        names = {v: k for k, v in e.items()}
        return [({'a0': a, 'a1': b}, '%s/%s' % (names[a], names[b])) for a, b in out]
    return [({}, '')]


def run(P, rep):
    rep.rule('an operator path with an unknown operand yields unknown; a known result is stored on that path; unknown '
             'with all operands known only for operators with a domain and only after a test of the operand values')
    ops = [c for c in concrete_ops(P) if base_name(c) not in KLEENE]
    rep.floor('strict operator classes', len(ops), 30)
    nmax = 5 if rep.tier == 'thorough' else 4
    for c in ops:
        rts = [result_type(P, c)] + (['double'] if result_type(P, c) == 'int' else [])
        for rt in rts:
            for form, n in forms(P, c, result_type(P, c), nmax):
                for vt, vn in vtypes(P, c, n):
                    one(P, rep, c, rt, form, n, vt, vn)


def one(P, rep, c, rt, form, n, vt, vn):
    env = {'a%d' % i: None for i in range(n)}
    f, I, rs = evaluate(P, c, rt, form, n, env, vt, SI)
    rep.fn(f['key'], *I.analysed)
    who = '%s(%s)%s' % (c.replace('PLEXIL::', '').replace(STRT, 'string'), 'n=%d' % n, ' on ' + vn if vn else '')
    key = '%s->%s/%s%s' % (c.replace('PLEXIL::', '').replace(STRT, 'string'), rt, form, '/' + vn if vn else '')
    at = '%s:%s' % (f['file'], f['ln'])
    anyknown = False
    for s, k, v, sig in rs:
        rep.ok('strict')
        if sig:
            rep.violation('strict', key, '%s: %s ends in %s for accepted operands' % (at, who, sig[1]))
            continue
        if not isinstance(k, bool):
            for s2, k2 in I.truth(s, k):
                anyknown |= judge(P, rep, c, key, at, who, n, s2, k2, v)
        else:
            anyknown |= judge(P, rep, c, key, at, who, n, s, k, v)
    rep.check(anyknown, 'computes', key, '%s: %s never yields a known result, whatever the operands' % (at, who))


def judge(P, rep, c, key, at, who, n, s, k, v):
    known = [s.facts.get(T(('known', 'a%d' % i))) for i in range(n)]
    vals = {T(('val', 'a%d' % i)) for i in range(n)}
    if k:
        if not all(x is True for x in known):
            bad = [i for i, x in enumerate(known) if x is not True]
            rep.violation('strict', key, '%s: %s yields a known result on a path where operand %s may be unknown' %
                          (at, who, bad))
        if v is None:
            rep.violation('result-stored', key, '%s: %s reports a known result without storing one' % (at, who))
        return True
    if all(x is True for x in known):
        dom = base_name(c) in DOMAIN or (base_name(c) in INTCONV and 'int' in c)
        tested = any(mentions(t, vals) for t in s.facts)
        if not (dom and tested):
            rep.violation('total', key, '%s: %s is unknown although every operand is known%s' %
                          (at, who, '' if dom else ' and the operation is defined everywhere'))
    return False


def mentions(t, vals):
    if t in vals:
        return True
    return isinstance(t, tuple) and any(mentions(x, vals) for x in t)


MIN_OBLIGATIONS = 150
