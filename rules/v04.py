"""V04: comparison of values, arrays, states and cached values is a consistent equality and order."""
import itertools
from lib_var import *
from interp import Interp
from v05 import ConcI, VT

MIN_OBLIGATIONS = 2000
EN = {'NodeState': 'INACTIVE_STATE WAITING_STATE', 'NodeOutcome': 'SUCCESS_OUTCOME FAILURE_OUTCOME',
      'FailureType': 'PRE_CONDITION_FAILED POST_CONDITION_FAILED', 'CommandHandleValue': 'COMMAND_SENT_TO_SYSTEM COMMAND_SUCCESS'}


def atom(kind, n):
    """the n-th of a chain of values of this kind, in increasing order"""
    return bool(n) if kind == 'Boolean' else mk('rank', 'num' if kind in ('Integer', 'Real') else kind, n)


class OrdI(ConcI):
    """element values are ranks of a total order: every comparison of two of them is decided by rank"""
    def strip(self, v):
        if isinstance(v, Ptr):
            return v
        while isinstance(v, T) and v[0] in ('fcast', 'cast'):
            v = v[-1]
        return v

    def compare(self, st, op, a, b):
        x, y = self.strip(a), self.strip(b)
        if isinstance(x, T) and isinstance(y, T) and x[0] == 'rank' and y[0] == 'rank':
            p, q = x[2], y[2]
            if x[1] != y[1]:
                raise Broken('values of different kinds compared: %s %s' % (x, y))
            return {'==': p == q, '!=': p != q, '<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[op]
        return Interp.compare(self, st, op, a, b)


def truth1(I, outs):
    """the decided answer of a comparison, or a description of why there is none"""
    r = set()
    for s, v, sig in outs:
        r.add('error' if sig else bool(v) if isinstance(v, (bool, int)) else 'undecided (%s)' % str(v)[:60])
    return r.pop() if len(r) == 1 else 'depends on something other than the contents' if r else 'no outcome'


def orders(rep, fam, objs, ask, want, ops=('eq', 'lt')):
    """objs: [(label, reference content)]; ask(op, i, j) -> decided answer; equality as want(i, j), order consistent"""
    n = len(objs)
    E, L = {}, {}
    for i in range(n):
        for j in range(n):
            w = want(objs[i][1], objs[j][1])
            E[i, j] = e = ask('eq', i, j)
            lab = '%s and %s' % (objs[i][0], objs[j][0])
            rep.check(e is w, 'equality', '%s|%s|%s' % (fam, objs[i][0].split()[0], objs[j][0].split()[0]),
                      '%s: equality of %s is %s, not %s' % (fam, lab, e, w), {'family': fam, 'pair': lab})
            if 'ne' in ops:
                rep.check(ask('ne', i, j) is (not w), 'inequality', '%s|%s' % (fam, objs[i][0].split()[0]),
                          '%s: inequality of %s is not %s' % (fam, lab, not w))
            if 'lt' not in ops:
                continue
            L[i, j] = ask('lt', i, j)
            rep.check(isinstance(L[i, j], bool), 'order', '%s|%s|%s' % (fam, objs[i][0].split()[0], objs[j][0].split()[0]),
                      '%s: "<" of %s: %s' % (fam, lab, L[i, j]))
    if 'lt' not in ops:
        return
    for i in range(n):
        for j in range(n):
            lab = '%s and %s' % (objs[i][0], objs[j][0])
            k = '%s|%s|%s' % (fam, objs[i][0].split()[0], objs[j][0].split()[0])
            eq = want(objs[i][1], objs[j][1])
            rep.check((L[i, j] is True) + (L[j, i] is True) + eq == 1, 'order', k,
                      '%s: of %s, exactly one of equal, less, greater must hold; equal %s, less %s, greater %s' %
                      (fam, lab, eq, L[i, j], L[j, i]))
            if 'le' in ops:
                for op, w in (('le', not L[j, i]), ('gt', L[j, i]), ('ge', not L[i, j])):
                    rep.check(ask(op, i, j) is w, 'derived', '%s|%s' % (fam, op), '%s: %s of %s disagrees with "<"' % (fam, op, lab))
    bad = [(i, j, k) for i, j, k in itertools.product(range(n), repeat=3) if L[i, j] is True and L[j, k] is True and L[i, k] is not True]
    rep.check(not bad, 'order', fam + '|transitive', '%s: order is not transitive: %s' % (fam, ['%s < %s < %s' % tuple(objs[x][0] for x in b) for b in bad[:1]]))


def arrays(I, kind):
    """[(label, reference, builder)]: sizes 0..2, every known pattern, different leftovers under unknown elements"""
    out = []
    for n in (0, 1, 2):
        for pat in itertools.product(('U0', 'U1', 0, 1), repeat=n):
            out.append(('<%s>' % ' '.join(str(p) for p in pat), tuple('U' if isinstance(p, str) else p for p in pat), pat))
    return out


def build_array(I, st, kind, pat):
    st, a = I.one(st, 'arr_new_' + kind, len(pat))
    for i, p in enumerate(pat):
        x = int(p[1]) if isinstance(p, str) else p
        st.mem[('O', 'tmpel')] = atom(kind, x)
        st, _ = I.one(st, 'arr_set_' + kind, a, i, ptr(('O', 'tmpel')))
        if isinstance(p, str):
            st, _ = I.one(st, 'arr_unk', a, i)
    return st, a


def run(P, rep):
    rep.rule('comparison members abstractly interpreted on every pair of a representative family per type: contents are ranks in a total '
             'order (all the comparisons can observe), plus unknown, and unknown elements with leftover contents; equality against the '
             'reference, exactly one of <, ==, > for each pair, transitivity over all triples')
    I = OrdI(P)
    TV = {i['n']: i['v'] for i in P.enum('ValueType')['vals']}

    def asker(st, pre, addrs, suf=''):
        cache = {}

        def ask(op, i, j):
            if (op, i, j) not in cache:
                cache[op, i, j] = truth1(I, I.w(clean(st.fork()), '%s_%s%s' % (pre, op, suf), addrs[i], addrs[j]))
            return cache[op, i, j]
        return ask
    # ---- arrays
    same = lambda a, b: a == b
    ALL = ('eq', 'ne', 'lt', 'le', 'gt')
    for kind in ('Boolean', 'Integer', 'Real', 'String'):
        st, objs, addrs = State(), [], []
        for lab, ref, pat in arrays(I, kind):
            st, a = build_array(I, st, kind, pat)
            objs.append((lab, ref))
            addrs.append(a)
        orders(rep, kind + 'Array', objs, asker(st, 'arr', addrs, '_' + kind), same, ('eq', 'ne', 'lt', 'le', 'gt', 'ge'))
        # through the base class
        ask = asker(st, 'arr', addrs)
        orders(rep, kind + 'Array as Array', objs, lambda op, i, j: ask('v' + op, i, j), same, ('eq',))
    # ---- generic values
    st, objs, addrs, vals = State(), [], [], {}

    def add(lab, ref, st, v):
        objs.append((lab, ref))
        addrs.append(v)
        return st
    for t in ('UNKNOWN_TYPE',) + tuple(VT.values()) + ('NODE_STATE_TYPE', 'OUTCOME_TYPE', 'FAILURE_TYPE', 'COMMAND_HANDLE_TYPE'):
        st, v = I.one(st, 'v_unk', TV[t])
        st = add('unknown-%s' % t, ('U', 'num' if t in ('INTEGER_TYPE', 'REAL_TYPE') else t), st, v)
    st, v = I.one(st, 'v_from_Integer', atom('Integer', 0))
    st, _ = I.one(st, 'v_setUnknown', v)
    st = add('Integer set unknown', None, st, v)
    s, t, _ = I.w(st, 'v_type', v)[0]
    tn = [k for k, x in TV.items() if x == t]
    objs[-1] = (objs[-1][0], ('U', 'num' if tn and tn[0] == 'INTEGER_TYPE' else tn[0] if tn else '?'))
    for kind in ('Boolean', 'Integer', 'Real'):
        for n in ((0, 1) if kind == 'Boolean' else (0, 1, 2)):
            if kind == 'Integer' and n == 1:
                continue
            st, v = I.one(st, 'v_from_' + kind, atom(kind, n))
            st = add('%s %d' % (kind, n), ('num' if kind != 'Boolean' else kind, n), st, v)
    for n in (0, 1):
        st.mem[('O', 'str%d' % n)] = atom('String', n)
        st, v = I.one(st, 'v_from_String', ptr(('O', 'str%d' % n)))
        st = add('String %d' % n, ('String', n), st, v)
    for e, ns in EN.items():
        ev = {i['n']: i['v'] for i in P.enum(e)['vals']}
        for n in ns.split():
            st, v = I.one(st, 'v_from_' + e, ev[n])
            st = add('%s %s' % (e, n), (e, n), st, v)
    for kind in ('Boolean', 'Integer', 'Real', 'String'):
        for pat in ((), (0,), ('U0',), ('U1',), (1, 0)):
            st, a = build_array(I, st, kind, pat)
            st, v = I.one(st, 'v_from_%sArray' % kind, a)
            st = add('%sArray %s' % (kind, list(pat)), (kind + 'Array', tuple('U' if isinstance(p, str) else p for p in pat)), st, v)
    orders(rep, 'Value', objs, asker(st, 'v', addrs), same, ('eq', 'ne', 'lt', 'le', 'gt', 'ge'))
    # ---- states: name, then arity, then parameters
    sobjs, saddrs = [], []
    pick = [i for i, o in enumerate(objs) if o[0] in ('unknown-UNKNOWN_TYPE', 'unknown-INTEGER_TYPE', 'unknown-REAL_TYPE', 'Integer 0', 'Real 0', 'Real 1', 'String 0', 'Boolean 1')]
    for nm in (0, 1):
        st.mem[('O', 'name%d' % nm)] = atom('String', nm)
        st, x = I.one(st, 's_new', atom('String', nm), 0)
        sobjs.append(('name%d()' % nm, (nm,)))
        saddrs.append(x)
        for i in pick if nm == 0 else pick[:2]:
            st, x = I.one(st, 's_new1', ptr(('O', 'name%d' % nm)), addrs[i])
            sobjs.append(('name%d(%s)' % (nm, objs[i][0]), (nm, objs[i][1])))
            saddrs.append(x)
        for i, j in itertools.product([i for i in pick if objs[i][0] in ('Integer 0', 'Real 1', 'unknown-REAL_TYPE')], repeat=2):
            st, x = I.one(st, 's_new', atom('String', nm), 2)
            st, _ = I.one(st, 's_setParam', x, 0, addrs[i])
            st, _ = I.one(st, 's_setParam', x, 1, addrs[j])
            sobjs.append(('name%d(%s,%s)' % (nm, objs[i][0], objs[j][0]), (nm, objs[i][1], objs[j][1])))
            saddrs.append(x)
    orders(rep, 'State', sobjs, asker(st, 's', saddrs), same, ('eq', 'lt'))
    # ---- cached values: equal when both unknown, or same type and content
    cobjs, caddrs = [('unknown void', 'U')], []
    st, c = I.one(st, 'cv_new', TV['UNKNOWN_TYPE'])
    caddrs.append(c)
    for kind in VT:
        ary, el = kind.endswith('Array'), kind[:-5] if kind.endswith('Array') else kind
        st, c = I.one(st, 'cv_new', TV[VT[kind]])
        cobjs.append(('unknown ' + kind, 'U'))
        caddrs.append(c)
        for n in (0, 1) if not ary else ((0,), (1,), (0, 'U0'), (0, 'U1')):
            for gone in (False, True):
                st, c = I.one(st, 'cv_new', TV[VT[kind]])
                if ary:
                    st, a = build_array(I, st, el, n)
                    st, _ = I.one(st, 'cv_updatePtr_' + kind, c, 1, a)
                else:
                    st.mem[('O', 'cvx')] = atom(kind, n)
                    st, _ = I.one(st, 'cv_update_' + kind, c, 1, ptr(('O', 'cvx')))
                if gone:
                    st, _ = I.one(st, 'cv_setUnknown', c, 2)
                    cobjs.append(('unknown-again %s (was %s)' % (kind, n), 'U'))
                else:
                    cobjs.append(('known %s %s' % (kind, n), (kind, tuple('U' if isinstance(p, str) else p for p in n) if ary else n)))
                caddrs.append(c)
    orders(rep, 'CachedValue', cobjs, asker(st, 'cv', caddrs), same, ('eq',))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.assume('real numbers are not NaN (NaN equals nothing, so no comparison of reals is an equivalence with it)')
    rep.count('values in the families', len(objs) + len(sobjs) + len(cobjs))
