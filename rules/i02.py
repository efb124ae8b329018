"""I02: a change lookup tells of every change of at least its tolerance; the thresholds asked of the outside are the tightest needed."""
from i01 import *

MIN_OBLIGATIONS = 300


class Change:
    """what one change lookup should have reported"""
    def __init__(self, tol):
        self.on, self.tol, self.rep = False, tol, 'none'   # rep: last reported value


class World2:
    """lookups of one state whose tolerances are variables"""
    def __init__(self, I, num, kinds):
        self.I, self.num = I, num
        st = State()
        self.cur = None
        self.asked = None                # thresholds in force outside: (hi, lo) or None
        self.lks, self.exprs, self.tols = [], [], []
        st.mem[('O', 'cname')] = A
        for i, k in enumerate(kinds):
            st, ne, _ = I.do(st, 'lk_const', ptr(('O', 'cname')))
            if k == 'now':
                st, e, _ = I.do(st, 'lk_new', ne, I.vts['UNKNOWN_TYPE'], 0)
                self.tols.append(None)
                self.lks.append(Change('now'))
            else:
                st, t = I.variable(st, num, k)
                st, e, _ = I.do(st, 'lk_change', ne, I.vts['UNKNOWN_TYPE'], t, 0)
                self.tols.append(t)
                self.lks.append(Change(k))
            st, _, _ = I.do(st, 'x_listen', e, ptr(('O', 'ear%d' % i)))
            self.exprs.append(e)
        self.st = clean(st)

    def fork(self):
        w = World2.__new__(World2)
        w.__dict__.update(self.__dict__)
        w.lks = []
        for l in self.lks:
            m = Change(l.tol)
            m.on, m.rep = l.on, l.rep
            w.lks.append(m)
        w.st = clean(self.st.fork())
        return w

    def apply(self, op):
        w, I = self.fork(), self.I
        c = op[0]
        I.world = {(A, ()): w.cur}
        if c == 'on':
            w.lks[op[1]].on = True
            w.st, _, sig = I.do(w.st, 'x_activate', w.exprs[op[1]])
        elif c == 'off':
            w.lks[op[1]].on = False
            w.lks[op[1]].rep = 'none'
            w.st, _, sig = I.do(w.st, 'x_deactivate', w.exprs[op[1]])
        elif c == 'tol':
            w.lks[op[1]].tol = op[2]
            w.st, _, sig = I.setv(w.st, w.tols[op[1]], op[2])
        elif c == 'cycle':
            w.st, _, sig = I.do(w.st, 'sc_cycle')
        else:
            w.cur = op[1]
            s, val = I.value_obj(w.st, op[1])
            I.put_state(s, ptr(('O', 'key')), A)
            w.st, _, sig = I.do(s, 'sc_return', ptr(('O', 'key')), val)
        return w, sig

    def read(self, i):
        s, v, sig = self.I.do(self.st.fork(), 'x_valuep', self.exprs[i])
        if sig:
            return 'error'
        r = self.I.raw(s, v)
        return None if r == U else r


def must_tell(rep, cur, tol):
    """True / False / None (either is fine): does a lookup that last reported rep have to report cur?"""
    if rep == 'none':
        return True
    if rep is None or cur is None:
        return None if rep is cur else True
    if tol is None or tol == 'now':
        return None if rep == cur else True
    d = abs(cur - rep)
    if d == 0:
        return None
    return d >= abs(tol)


def opname(op):
    return {'on': 'activate lookup %s', 'off': 'deactivate lookup %s', 'tol': 'tolerance of lookup %s becomes %s', 'cycle': 'new cycle',
            'val': 'value %s'}[op[0]] % tuple(op[1:])


def drive(rep, I, what, num, kinds, ops, depth, start=()):
    n = 0
    w0 = World2(I, num, kinds)
    todo = [(w0, ())]
    seen = set()
    while todo:
        w, hist = todo.pop(0)
        globs = sorted({r for r in map(root, w.st.mem) if r[0] == 'G'}, key=repr)
        k = (canon(w.st, *([addr_of(e) for e in w.exprs] + globs)), w.cur, w.asked, tuple((l.on, l.tol, l.rep) for l in w.lks))
        if k in seen:
            continue
        seen.add(k)
        if len(hist) >= depth + len(start):
            continue
        for op in (ops if len(hist) >= len(start) else [start[len(hist)]]):
            if op[0] == 'on' and w.lks[op[1]].on or op[0] == 'off' and not w.lks[op[1]].on:
                continue
            if op[0] == 'tol' and w.lks[op[1]].tol == op[2]:
                continue
            n += 1
            w2, sig = w.apply(op)
            h2 = hist + (op,)
            txt = '%s: %s' % (what, ', '.join(map(opname, h2)))
            key = '%s|%s' % (what, op[0])
            if not rep.check(sig is None, 'I02-error', key, '%s ends in an error %s' % (txt, sig)):
                continue
            told = [e[1] for e in w2.st.trace if e[0] == 'notify']
            bad = False
            for i, l in enumerate(w2.lks):
                if not l.on:
                    continue
                got = w2.read(i)
                need = must_tell(l.rep, w2.cur, l.tol)
                if l.rep == 'none':                       # just activated: starts from the current value
                    bad |= not rep.check(got == w2.cur, 'I02-starts', key, '%s: lookup %d starts at %s, the state is %s' % (txt, i, got, w2.cur),
                                         sample='%s: starts from the current value' % what)
                    l.rep = w2.cur
                    continue
                if need is True:
                    bad |= not rep.check(got == w2.cur and str(i) in told, 'I02-tells', key,
                                         '%s: lookup %d (tolerance %s) last reported %s, the state is %s, and it %s' %
                                         (txt, i, l.tol, l.rep, w2.cur, 'tells nobody' if got == w2.cur else 'still reads %s' % got),
                                         sample='%s: a change of the tolerance or more is told' % what)
                    l.rep = w2.cur
                elif need is False:
                    bad |= not rep.check(got == l.rep, 'I02-holds', key, '%s: lookup %d (tolerance %s) moves from %s to %s' % (txt, i, l.tol, l.rep, got),
                                         sample='%s: a smaller change is kept back' % what)
                else:
                    bad |= not rep.check(got == w2.cur or got == l.rep, 'I02-holds', key, '%s: lookup %d reads %s' % (txt, i, got))
            for e in w2.st.trace:
                if e[0] == 'outside' and e[1] == 'setThresholds':
                    w2.asked = (e[3], e[4])
                elif e[0] == 'outside' and e[1] == 'clearThresholds':
                    w2.asked = None
            lim = [(l.rep + abs(l.tol), l.rep - abs(l.tol)) for l in w2.lks if l.on and l.tol not in (None, 'now') and l.rep is not None]
            want = (min(h for h, _ in lim), max(x for _, x in lim)) if lim else None
            ok = w2.asked == want
            bad |= not rep.check(ok, 'I02-outside', key, '%s: the outside is asked to report %s, needed is %s' % (txt, band(w2.asked), band(want)),
                                 sample='%s: tightest thresholds in force' % what)
            if not bad:
                todo.append((w2, h2))
    return n


def band(t):
    return 'everything (no thresholds)' if t is None else 'at %s and above, at %s and below' % t


def run(P, rep):
    rep.rule('change lookups interpreted with the state cache over bounded histories of values, tolerances and activation: each tells '
             'and then reads every value that differs from its last report by its tolerance or more, and every known/unknown edge; the '
             'thresholds last given to the outside are the tightest over the active lookups, and withdrawn when there are none')
    I = LkI(P)
    deep = rep.tier == 'thorough'
    n = 0
    for num, u in (('Integer', 1), ('Real', 0.5)):
        v = [10, 12, 15, 13, 8] if num == 'Integer' else [10.0, 12.25, 15.0, 12.5, 7.5]
        T = [2, 5] if num == 'Integer' else [2.5, 5.0]
        vals = [('val', x) for x in v] + [('val', None)]
        on = [('on', 0)]
        n += drive(rep, I, num + ' change lookup', num, [T[0]], vals + on + [('off', 0)], 3 + deep, (('val', v[0]), ('on', 0)))
        n += drive(rep, I, num + ' change lookup before any value', num, [T[0]], vals + [('off', 0)], 2 + deep, (('on', 0),))
        n += drive(rep, I, num + ' change lookup, negative tolerance', num, [-T[0]], vals, 2 + deep, (('val', v[0]), ('on', 0)))
        n += drive(rep, I, num + ' change lookup, zero tolerance', num, [0 * T[0]], vals, 2 + deep, (('val', v[0]), ('on', 0)))
        n += drive(rep, I, num + ' change lookup, changing tolerance', num, [T[1]],
                   vals[1:3] + [('val', None), ('tol', 0, T[0]), ('tol', 0, T[1]), ('tol', 0, None)] + [('off', 0), ('on', 0)], 3 + deep,
                   (('val', v[0]), ('on', 0)))
        n += drive(rep, I, num + ' change lookups with two tolerances', num, [T[0], T[1]],
                   vals[1:3] + [('val', None), ('on', 0), ('on', 1), ('off', 0), ('off', 1)], 3 + deep, (('val', v[0]), ('on', 0), ('on', 1)))
        n += drive(rep, I, num + ' change lookup beside a plain one', num, [T[0], 'now'],
                   vals[1:3] + [('on', 0), ('on', 1), ('off', 0), ('off', 1)], 3 + deep, (('val', v[0]), ('on', 0), ('on', 1)))
        n += drive(rep, I, num + ' change lookups, one changing tolerance', num, [T[0], T[1]],
                   vals[1:3] + [('tol', 1, T[0] / 2 if num == 'Real' else 1), ('tol', 0, T[1]), ('off', 0)], 3 + deep,
                   (('val', v[0]), ('on', 1), ('on', 0)))
    rep.floor('operations', n, 300)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
