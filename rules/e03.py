"""E03: arithmetic never traps.  Every operator is interpreted with symbolic operands;
at each integer division or remainder the path must exclude a zero divisor and the
overflowing quotient (minimum divided by -1), at each square root a negative argument,
and at each conversion from real to integer both ends of the integer range."""
from interp import State, T, mk, base_type, INT_BITS, Broken
from lib_ops import *
from lib_bounds import can_be, at_least, at_most, below, isnum


class TrapI(OpI):
    def inline(self, key, fn, ctx):
        c = fn.get('cls') or ''
        return not (c == 'PLEXIL::Array' or c.startswith('PLEXIL::ArrayImpl<'))

    def __init__(self, P):
        OpI.__init__(self, P)
        self.sites = {}     # (kind, fn, line) -> [msg]
        self.hit = {}

    def site(self, kind, n, bad):
        k = (kind, self.callstack[-1] if self.callstack else '?', n.get('ln') if n else None)
        self.hit[k] = self.hit.get(k, 0) + 1
        if bad:
            self.sites.setdefault(k, bad)

    def on_arith(self, st, op, a, b, n):
        t = base_type(n.get('t', ''))
        if op in ('/', '%') and t in INT_BITS:
            bits, sg = INT_BITS[t]
            bad = None
            if can_be(st, b, 0):
                bad = 'the divisor may be zero'
            elif sg and can_be(st, b, -1) and can_be(st, a, -(1 << (bits - 1))):
                bad = 'the quotient may overflow (minimum value divided by -1)'
            self.site('integer ' + op, n, bad)
        return None

    def fcast(self, st, ck, v, n):
        if ck == 'FloatingToIntegral':
            t = base_type(n['t'])
            bits, sg = INT_BITS.get(t, (64, True))
            lo = -(1 << (bits - 1)) if sg else 0
            hi = (1 << (bits - 1 if sg else bits)) - 1
            bad = None
            if not at_least(st, v, lo):
                bad = 'the value may lie below the integer range'
            elif not (at_most(st, v, hi) or below(st, v, hi + 1)):
                bad = 'the value may lie above the integer range'
            self.site('real to ' + t + ' conversion', n, bad)
        return OpI.fcast(self, st, ck, v, n)

    def on_call(self, st, ctx):
        if ctx.name == 'sqrt' and ctx.cls is None:
            a = ctx.args[0]
            self.site('sqrt', ctx.node, None if at_least(st, a, 0) else 'the argument may be negative')
        return OpI.on_call(self, st, ctx)


def run(P, rep):
    rep.rule('at every integer division/remainder, square root and real-to-integer conversion reached from an operator, '
             'the path conditions exclude the undefined operands')
    rep.assume('NaN operands are not excluded: a real comparison with NaN is false, and a NaN fails the integrality test '
               'after the conversion')
    sites = {}
    hits = {}
    conv = 0
    for c in concrete_ops(P):
        rt = result_type(P, c)
        for r in [rt] + (['double'] if rt == 'int' else []):
            for form, n in forms(P, c, rt, 3):
                vt = {'a%d' % i: 2 for i in range(n)} if base_name(c) in ('Equal', 'NotEqual') else {}
                f, I, rs = evaluate(P, c, r, form, n, {'a%d' % i: None for i in range(n)}, vt, TrapI)
                rep.fn(f['key'], *I.analysed)
                for k in I.hit:
                    hits[k] = hits.get(k, 0) + I.hit[k]
                for k, m in I.sites.items():
                    sites.setdefault((k, c), m)
                if base_name(c) in ('Division', 'Modulo', 'SquareRoot', 'RealToInteger', 'Ceiling', 'Floor', 'Round', 'Truncate'):
                    conv += 1
                    if not I.hit and r == 'int' :
                        # the operation must be guarded somewhere: an integer result without any partial operation
                        rep.notes.append('%s performs no partial operation' % c)
    for k, n in hits.items():
        rep.ok('guarded', '%s in %s line %s: %d paths' % (k[0], short(k[1]), k[2], n))
        rep.count('paths', n)
    for (k, c), m in sites.items():
        fn = P.fns[k[1]]
        rep.violation('guarded', '%s in %s' % (k[0], short(k[1])), '%s:%s: %s in %s (operator %s): %s' %
                      (fn['file'], k[2], k[0], short(k[1]), c.replace('PLEXIL::', ''), m))
    rep.floor('partial operators', conv, 8)
    rep.floor('partial operation sites', len(hits), 3)


MIN_OBLIGATIONS = 3
