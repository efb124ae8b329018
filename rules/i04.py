"""I04: accepted commands stay within capacity, higher priority first; the requests judged are those of the moment of issue."""
import itertools
from i03 import *

MIN_OBLIGATIONS = 200


def outcomes(acc, cmds):
    """every set of accepted commands that considering them by priority can give (equal priorities in either order)"""
    out = []
    with_ = [c for c in cmds if c[1]]
    for order in itertools.permutations(with_):
        pr = [c[1][0][1] for c in order]
        if pr != sorted(pr):
            continue
        a = acc.copy()
        y, n = a.batch([c for c in cmds if not c[1]] + list(order))
        out.append((sorted(y), a))
    return out


class Scene4(Scene):
    def __init__(self, I, pool):
        Scene.__init__(self, I, pool)
        self.memo = {(): (self.st, Accounts())}

    def run(self, rep, what, batches):
        """batches of names issued one after the other; None: the previous batch's accepted commands are done"""
        I, done = self.I, ()
        st, acc = self.memo[()]
        last = []
        for b in batches:
            done += (b,)
            if done in self.memo:
                if self.memo[done] is None:
                    return
                st, acc, last = self.memo[done]
                continue
            st, acc = st.fork(), acc.copy()
            txt = '%s: %s' % (what, '; then '.join('all done' if x is None else 'commands ' + ', '.join(self.name(n) for n in x) for x in done))
            key = '%s|%s' % (what, 'done' if b is None else '+'.join(sorted(b)))
            if b is None:
                for n in last:
                    st, _, sig = I.do(st, 'ra_off', self.cmds[n], self.arb)
                    st = clean(st)
                    acc.done(n)
                    if not rep.check(sig is None, 'I04-error', key, '%s ends in an error %s' % (txt, sig)):
                        self.memo[done] = None
                        return
                last = []
            else:
                want = outcomes(acc, [(n, self.pool[n]) for n in b])
                st, y, n, q, sig = self.issue(st, b)
                if not rep.check(sig is None, 'I04-error', key, '%s ends in an error %s' % (txt, sig)):
                    self.memo[done] = None
                    return
                match = [a for s, a in want if s == sorted(y)]
                ok = rep.check(bool(match), 'I04-greedy', key, '%s: accepted %s; by priority and capacity it is %s' %
                               (txt, sorted(y) or 'none', ' or '.join(str(s or 'none') for s in sorted(set(map(str, (x[0] for x in want)))))),
                               sample='%s: accepted by priority as far as capacity goes' % what)
                pr = [self.pool[x][0][1] for x in y if self.pool[x]]
                ok &= rep.check(pr == sorted(pr), 'I04-order', key, '%s: accepted in the order %s' % (txt, y), sample='accepted commands in order of priority')
                if not ok:
                    self.memo[done] = None
                    return
                acc = match[0]
                over = [(r, u) for r, u in acc.used.items() if not 0 <= u <= cap(r)]
                rep.check(not over or any(w < 0 for x in b for _, _, w, _ in self.pool[x] if w is not None), 'I04-capacity', key,
                          '%s: in use afterwards %s' % (txt, over), sample='use within capacity')
                last = last + list(b)
            self.memo[done] = (st, acc, last)

    def name(self, n):
        return '%s[%s]' % (n, ' '.join('%s:%s%s p%d' % (r, 1.0 if u is None else u, ' kept' if rel is False else '', p) for r, p, u, rel in self.pool[n]))


AMOUNTS = {
    'p1a6': [('A', 1, 6.0, None)], 'p2a5': [('A', 2, 5.0, None)], 'p3a4': [('A', 3, 4.0, None)], 'p2a4': [('A', 2, 4.0, None)],
    'p0a11': [('A', 0, 11.0, None)], 'p4a1': [('A', 4, 1.0, None)], 'p3a10': [('A', 3, 10.0, None)],
}
SIGNS = {
    'p1a9': [('A', 1, 9.0, None)], 'p2a-3': [('A', 2, -3.0, None)], 'p3a4': [('A', 3, 4.0, None)], 'p0a-3': [('A', 0, -3.0, None)],
    'p4a3keep': [('A', 4, 3.0, False)], 'p5a-1keep': [('A', 5, -1.0, False)],
}
MANY = {
    'p1ab': [('A', 1, 6.0, None), ('B', 1, 3.0, None)], 'p2b': [('B', 2, 3.0, None)], 'p3a': [('A', 3, 4.0, None)], 'p2p': [('P', 2, 4.0, None)],
    'p3q': [('Q', 3, 1.0, None)], 'p4d': [('D', 4, 20.0, None)], 'p0ba': [('B', 0, 2.5, None), ('A', 0, 11.0, None)], 'p9': [], 'p5x': [('X', 5, None, None)],
}

WIDE = {
    'p1a6d2x5': [('A', 1, 6.0, None), ('D', 1, 2.0, None), ('X', 1, 5.0, None)], 'p2a6': [('A', 2, 6.0, None)],
    'p3d19b1a1': [('D', 3, 19.0, None), ('B', 3, 1.0, None), ('A', 3, 1.0, None)], 'p0x5d20a9b1': [('X', 0, 5.0, None), ('D', 0, 20.0, None), ('A', 0, 9.0, None), ('B', 0, 1.0, None)],
}


def run(P, rep):
    rep.rule('the arbiter and real commands interpreted over batches of up to four commands, alone and after earlier ones: the commands '
             'accepted are those that considering the batch by priority against the capacities gives; a denied command takes nothing '
             'from the later ones; the requests judged are the values of their expressions at the time of issue')
    I = setup(P)
    deep = rep.tier == 'thorough'
    n = 0
    jobs = {}

    def add(what, pool, sub, batches):
        jobs.setdefault((what.split(',')[0], tuple(sorted(sub))), []).append((what, pool, batches))
    for what, pool in (('one resource', AMOUNTS), ('giving and taking', SIGNS), ('several resources', MANY), ('many needs', WIDE)):
        for k in (2, 3):
            for sub in itertools.combinations(pool, k):
                for order in itertools.permutations(sub):
                    add(what, pool, sub, [order])
        for sub in itertools.permutations(pool, 3):
            if not deep and pool is not SIGNS and (list(pool).index(sub[0]) + list(pool).index(sub[1])) % 3:
                continue
            add(what + ', earlier ones in use', pool, sub, [sub[:1], sub[1:]])
            add(what + ', earlier ones done', pool, sub, [sub[:2], None, sub[2:] + sub[:1]])
            add(what + ', one by one', pool, sub, [sub[:1], sub[1:2], sub[2:]])
        for sub in itertools.combinations(list(pool)[:7 if deep else 4], 4):
            for order in itertools.permutations(sub):
                add(what, pool, sub, [order])
    n = sum(map(len, jobs.values()))

    def part(k):
        def go(rep):
            pool = jobs[k][0][1]
            sc = Scene4(I, {x: pool[x] for x in k[1]})
            for what, _, batches in jobs[k]:
                sc.run(rep, what, batches)
        return go
    rep.floor('batches', n, 150)
    Scene(I, {})
    par.each(rep, I, [lambda r: values(r, I)] + [part(k) for k in jobs])
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def values(rep, I):
    """each part of a request given by an expression: the value when issued counts"""
    for what, kind, v1, v2, mk_, judge in (
            ('amount', 'Real', 4.0, 7.0, lambda x: ('A', 1, x, None), lambda sc, s, v: (sc.fits(s, 'A', 10 - v), sc.fits(s, 'A', 10.25 - v)) == (True, False)),
            ('integer amount', 'Integer', 4, 7, lambda x: ('A', 1, x, None), lambda sc, s, v: (sc.fits(s, 'A', 10.0 - v), sc.fits(s, 'A', 10.25 - v)) == (True, False)),
            ('name', 'String', 'A', 'B', lambda x: (x, 1, 2.0, None),
             lambda sc, s, v: (sc.fits(s, v, CAP[v] - 2), sc.fits(s, v, CAP[v] - 1.75), sc.fits(s, 'A' if v == 'B' else 'B', CAP['A' if v == 'B' else 'B'])) == (True, False, True))):
        sc = Scene(I, {})
        st, x = I.variable(sc.st, kind, v1)
        st, c = I.command(st, 'c', [mk_(x)])
        st = clean(st)
        for vals in ((v1, v2), (v2, v1), (v1, v1)):
            s = st.fork()
            h = []
            for v in vals:
                s, _, sig = I.setv(s, x, v)
                s, _, _ = I.do(s, 'ra_on', c)
                s, _, sig = I.do(s, 'ra_fix', c)
                s, y, n, q, sig = I.arbitrate(s, sc.arb, [c])
                h.append(v)
                ok = sig is None and len(y) == 1 and judge(sc, s, v)
                if not rep.check(ok, 'I04-values', what, 'a request whose %s is an expression, issued with the values %s: judged otherwise than by %s' % (what, h, v),
                                 sample='%s of a request as when issued' % what):
                    break
                s, _, _ = I.do(s, 'ra_off', c, sc.arb)
                s = clean(s)
    # priority: two commands that cannot both have the resource
    sc = Scene(I, {'other': [('A', 5, 8.0, None)]})
    st, x = I.variable(sc.st, 'Integer', 1)
    st, c = I.command(st, 'c', [('A', x, 8.0, None)])
    st = clean(st)
    for vals in ((1, 9), (9, 1)):
        s, h = st.fork(), []
        for v in vals:
            s, _, _ = I.setv(s, x, v)
            for e in (c, sc.cmds['other']):
                s, _, _ = I.do(s, 'ra_on', e)
                s, _, _ = I.do(s, 'ra_fix', e)
            s, y, n, q, sig = I.arbitrate(s, sc.arb, [c, sc.cmds['other']])
            h.append(v)
            want = c if v < 5 else sc.cmds['other']
            if not rep.check(sig is None and y == [want], 'I04-values', 'priority', 'a command whose priority is an expression, issued with the values %s against one of '
                             'priority 5: the one with the higher priority value wins' % h, sample='priority of a request as when issued'):
                break
            for e in (c, sc.cmds['other']):
                s, _, _ = I.do(s, 'ra_off', e, sc.arb)
            s = clean(s)
    # whether the resource is returned
    sc = Scene(I, {})
    st, x = I.variable(sc.st, 'Boolean', True)
    st, c = I.command(st, 'c', [('A', 1, 3.0, x)])
    st = clean(st)
    for vals in ((True, False), (False, True), (True, True)):
        s, used, h = st.fork(), 0.0, []
        for v in vals:
            s, _, _ = I.setv(s, x, v)
            s, _, _ = I.do(s, 'ra_on', c)
            s, _, _ = I.do(s, 'ra_fix', c)
            s, _, _ = I.setv(s, x, not v)                       # after the issue: of no effect
            s, y, n, q, sig = I.arbitrate(s, sc.arb, [c])
            s, _, _ = I.do(s, 'ra_off', c, sc.arb)
            s = clean(s)
            used += 0.0 if v else 3.0
            h.append(v)
            ok = sig is None and (sc.fits(s, 'A', 10 - used), sc.fits(s, 'A', 10.25 - used)) == (True, False)
            if not rep.check(ok, 'I04-values', 'return', 'a command whose resource is returned by the value of an expression, issued and done with the values %s: '
                             'afterwards not %s in use' % (h, used), sample='return of a resource as when issued'):
                break
