"""I03: each issued command is dispatched or denied, and its resources come back; I04: capacity and priority."""
import itertools
import par
from lib_res import *

MIN_OBLIGATIONS = 200

FILE = '''% test resources
A 10
B 5.5
P 8   2 A  1.5 C
Q 4 0.5 P
C 3
D 20 4 A
'''
CAP = {'A': 10.0, 'B': 5.5, 'P': 8.0, 'Q': 4.0, 'C': 3.0, 'D': 20.0}
KIDS = {'P': [('A', 2.0), ('C', 1.5)], 'Q': [('P', 0.5)], 'D': [('A', 4.0)]}


def cap(r):
    return CAP.get(r, 1.0)


def needs(reqs):
    """resource -> (amount, returned): what is asked for explicitly, and what that depends on unless asked for explicitly"""
    out = {}
    for r, p, u, rel in reqs:
        rel = True if rel is None else rel

        def kids(r):
            for c, w in KIDS.get(r, ()):
                out.setdefault(c, (w, rel))
                kids(c)
        kids(r)
    for r, p, u, rel in reqs:
        out[r] = (1.0 if u is None else float(u), True if rel is None else rel)
    return out


class Accounts:
    def __init__(self):
        self.used = {}
        self.held = {}

    def copy(self):
        a = Accounts()
        a.used, a.held = dict(self.used), dict(self.held)
        return a

    def batch(self, cmds):
        """[(name, reqs)] -> accepted names in order, rejected names"""
        acc = [n for n, r in cmds if not r]
        rej = []
        hi, lo = {}, {}
        base = dict(self.used)
        for n, r in sorted((c for c in cmds if c[1]), key=lambda c: c[1][0][1]):
            nd = needs(r)
            ok = True
            for x, (w, _) in nd.items():
                b = base.get(x, 0.0)
                h = b + hi.get(x, 0.0) + max(w, 0)
                l = b + lo.get(x, 0.0) + min(w, 0)
                if h > cap(x) or l < 0 or h < 0 or l > cap(x):
                    ok = False
            if not ok:
                rej.append(n)
                continue
            acc.append(n)
            for x, (w, _) in nd.items():
                hi[x] = hi.get(x, 0.0) + max(w, 0)
                lo[x] = lo.get(x, 0.0) + min(w, 0)
                self.used[x] = self.used.get(x, 0.0) + w
            self.held[n] = nd
        return acc, rej

    def done(self, n):
        for x, (w, rel) in self.held.pop(n, {}).items():
            if rel:
                self.used[x] -= w


# command name -> requests (resource, priority, upper bound, returned at the end)
POOL = {
    'none': [],
    'a4': [('A', 2, 4.0, None)],
    'a7': [('A', 1, 7.0, True)],
    'a3keep': [('A', 3, 3.0, False)],
    'a-2': [('A', 0, -2.0, None)],
    'a10': [('A', 5, 10.0, None)],
    'b': [('B', 2, 5.5, None)],
    'ab': [('A', 4, 6.0, None), ('B', 4, 1.5, None)],
    'p': [('P', 1, 5.0, None)],
    'pkeep': [('P', 2, 5.0, False)],
    'q': [('Q', 2, 1.0, None)],
    'pa': [('P', 2, 2.0, None), ('A', 2, 5.0, None)],
    'ap': [('A', 2, 5.0, None), ('P', 2, 2.0, None)],
    'x': [('X', 3, None, None)],
    'x0.75': [('X', 3, 0.75, None)],
    'd': [('D', 0, 1.0, None)],
}


class Scene:
    def __init__(self, I, pool):
        self.I = I
        if not hasattr(I, 'base'):
            st = State()
            st, arb, _ = I.do(st, 'ra_new')
            st, v, sig = I.file(st, arb, FILE)
            if sig or v is not True:
                raise Broken('a well-formed resource file is not read: %s %s' % (v, sig))
            I.base = (st, arb)
        st, self.arb = I.base[0].fork(), I.base[1]
        self.cmds, self.back = {}, {}
        for n in pool:
            st, c = I.command(st, n, pool[n])
            self.cmds[n] = c
            self.back[c.addr] = n
        self.pool = pool
        self.probes = {}
        self.st = clean(st)

    def issue(self, st, names):
        I = self.I
        for n in names:
            st, _, sig = I.do(st, 'ra_on', self.cmds[n])
            if sig:
                return st, None, None, None, sig
            st, _, sig = I.do(st, 'ra_fix', self.cmds[n])
            if sig:
                return st, None, None, None, sig
        s, y, n, q, sig = I.arbitrate(st, self.arb, [self.cmds[x] for x in names])
        if sig:
            return s, None, None, None, sig
        nm = lambda l: [self.back.get(c.addr, '?') for c in l]
        return s, nm(y), nm(n), nm(q), None

    def fits(self, st, r, amount):
        """would a command that needs this amount be accepted now?"""
        I = self.I
        s = st.fork()
        s, c = I.command(s, 'probe', [(r, 9, amount, None)])
        s, _, _ = I.do(s, 'ra_on', c)
        s, _, _ = I.do(s, 'ra_fix', c)
        s, y, n, q, sig = I.arbitrate(s, self.arb, [c])
        if sig:
            return 'error'
        return len(y) == 1


def leaf_probe(sc, st, acc, rep, rule, what, key, res, low=False):
    """the accounts are what they should be: exactly the rest fits, a little more does not"""
    ok = True
    for r in res:
        u = acc.used.get(r, 0.0)
        if r in KIDS or u < 0:                                  # a giver outlasting its takers: nothing sensible to ask
            continue
        free = cap(r) - u
        ask = [free, free + 0.25] + ([-u, -u - 0.25] if low else [])
        got = [sc.fits(st, r, x) for x in ask]
        ok &= rep.check(got == [True, False] * (len(ask) // 2), rule, key,
                        '%s: of %s %s are in use, yet a request for %s' %
                        (what, r, u, ', for '.join('%s is %s' % (a, 'accepted' if g else 'denied') for a, g in zip(ask, got))),
                        sample='%s: accounts exact' % key)
    return ok


def touched(names, pool):
    out = set()
    for n in names:
        out |= set(needs(pool[n])) if pool[n] else set()
    return sorted(r for r in out if r not in KIDS)


def history(rep, sc, steps, rules, seen, memo):
    """steps: ('issue', names) | ('done', name, handle or None)"""
    I = sc.I
    done = ()
    st, acc = memo[()]
    for step in steps:
        done += (step,)
        if done in memo:
            st, acc = memo[done]
            if st is None:
                return
            continue
        what = '; '.join(map(say, done))
        st, acc = st.fork(), acc.copy()
        if step[0] == 'issue':
            names = step[1]
            before = acc.copy()
            want, deny = acc.batch([(n, sc.pool[n]) for n in names])
            st, y, n, q, sig = sc.issue(st, names)
            key = 'batch of ' + '+'.join(names)
            if not rep.check(sig is None, rules['error'], key, '%s ends in an error %s' % (what, sig)):
                memo[done] = (None, None)
                return
            ok = rep.check(sorted(y + n) == sorted(names) and not q, rules['once'], key,
                           '%s: accepted %s, denied %s, left over %s' % (what, y, n, q), sample='each command either accepted or denied')
            ok &= rep.check(sorted(y) == sorted(want), rules['greedy'], key,
                            '%s: accepted %s; by priority and capacity it is %s' % (what, sorted(y), sorted(want)),
                            sample='accepted by priority as far as capacity goes')
            pr = [sc.pool[x][0][1] for x in y if sc.pool[x]]
            ok &= rep.check(pr == sorted(pr), rules['greedy'], key + '|order', '%s: accepted in the order %s' % (what, y))
            res = touched(names, sc.pool)
        else:
            _, name, h = step
            key = 'end of %s%s' % (name, ' (%s)' % h if h else '')
            if h:
                st, _, sig = I.do(st, 'ra_handle', sc.cmds[name], I.handles[h])
            st, _, sig = I.do(st, 'ra_off', sc.cmds[name], sc.arb)
            st = clean(st)
            if not rep.check(sig is None, rules['error'], key, '%s ends in an error %s' % (what, sig)):
                memo[done] = (None, None)
                return
            acc.done(name)
            ok = True
            res = touched([name], sc.pool)
        if ok and rules.get('accounts'):
            ok &= leaf_probe(sc, st, acc, rep, rules['accounts'], what, key, res, len(done) == 1)
        if not ok:
            memo[done] = (None, None)
            return
        memo[done] = (st, acc)


def say(step):
    if step[0] == 'issue':
        return 'commands ' + ', '.join('%s[%s]' % (n, ' '.join('%s:%s%s p%d' % (r, 1.0 if u is None else u, ' kept' if rel is False else '', p)
                                                               for r, p, u, rel in POOL.get(n, ()) or RATES.get(n, ()))) for n in step[1])
    return '%s is done%s' % (step[1], ' with ' + step[2] if step[2] else '')


# amounts that do not add up exactly in binary
RATES = {'r0.7': [('X', 1, 0.7, None)], 'r0.1': [('X', 2, 0.1, None)], 'r0.2': [('X', 3, 0.2, None)]}


def setup(P):
    I = RaI(P)
    I.handles = {i['n']: i['v'] for i in P.enum('CommandHandleValue')['vals']}
    return I


def run(P, rep):
    rep.rule('the arbiter and real commands interpreted over bounded histories of batches and completions: every command of a batch '
             'comes out accepted or denied, exactly once; after every step the accounts, probed by further requests, are those of the '
             'accepted commands that are not done')
    I = setup(P)
    deep = rep.tier == 'thorough'
    rules = {'error': 'I03-error', 'once': 'I03-once', 'greedy': 'I04-greedy', 'accounts': 'I03-accounts'}

    class Only:
        """report I03 rules only"""
        def __init__(self, r):
            self.r = r

        def check(self, c, rule, *a, **k):
            return self.r.check(c, rule, *a, **k) if rule.startswith('I03') else bool(c)
    todo = {}

    def hist(steps):
        todo.setdefault(tuple(sorted({n for s in steps for n in (s[1] if s[0] == 'issue' else [s[1]])})), []).append(steps)

    def part(ns):
        """each set of commands has a world of its own"""
        def go(rep):
            sc = Scene(I, {n: POOL[n] for n in ns})
            memo = {(): (sc.st, Accounts())}
            for steps in todo[ns]:
                history(Only(rep), sc, steps, rules, None, memo)
        return go
    H = [h for h in I.handles if h not in ('NO_COMMAND_HANDLE', 'COMMAND_HANDLE_MAX')]
    n = 0
    names = list(POOL)
    for a in names:                                             # one command, issued, done, issued again
        for h in [None] + (H if a in ('a4', 'p') else ['COMMAND_SUCCESS']):
            for tail in ((), (('issue', (a,)),)):
                hist((('issue', (a,)), ('done', a, h)) + tail)
                n += 1
    for a, b in itertools.permutations(names, 2):               # pairs, in one batch
        if not deep and not (set(needs(POOL[a])) & set(needs(POOL[b]))):
            continue
        hist((('issue', (a, b)),))
        n += 1
    for a, b in itertools.permutations(['a4', 'a7', 'a3keep', 'ab', 'p', 'x', 'pkeep', 'a-2'] + (['a10', 'q', 'pa', 'b'] if deep else []), 2):
        hist((('issue', (a,)), ('issue', (b,)), ('done', a, None)))
        n += 1
        hist((('issue', (a, b)), ('done', b, 'COMMAND_FAILED'), ('done', a, None)))
        n += 1
    for a in ['a4', 'a7', 'a3keep', 'ab', 'p', 'pa']:           # an amount given back in advance is taken again at its end
        hist((('issue', (a,)), ('issue', ('a-2',)), ('done', 'a-2', 'COMMAND_SUCCESS'), ('done', a, None)))
        n += 1
    for a, b in (('a4', 'a10'), ('p', 'a10'), ('ab', 'a10'), ('x', 'x0.75'), ('q', 'a10'), ('b', 'ab'), ('a3keep', 'a10')):
        again = (('issue', (a,)), ('done', a, 'COMMAND_SUCCESS'), ('issue', (b,)), ('issue', (a,)), ('done', a, None))
        hist(again + (('done', b, None),))                      # done and issued once more, denied, done
        n += 1
    rep.floor('histories', n, 100)
    Scene(I, {})
    par.each(rep, I, [lambda r: rounding(r, I), lambda r: files(r, I)] + [part(ns) for ns in sorted(todo, key=lambda x: -len(todo[x]))])
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def rounding(rep, I):
    sc = Scene(I, RATES)
    for k in range(2, 4):
        for names in itertools.combinations(RATES, k):
            st, y, n, q, sig = sc.issue(sc.st, names)
            if sig or n:
                continue                                        # whether a sum at the very limit fits is left open
            for order in itertools.permutations(names):
                s = st.fork()
                for x in order:
                    s, _, sig = I.do(s, 'ra_off', sc.cmds[x], sc.arb)
                    s = clean(s)
                ok = sc.fits(s, 'X', 0.5)
                rep.check(ok is True, 'I03-accounts', 'all returned', 'commands %s accepted and done in the order %s: nothing is in use, yet a request for half '
                          'of the resource is denied' % (', '.join(names), ', '.join(order)), sample='all resources returned: a request for half fits')


BAD = [('amount missing', 'A\n'), ('amount no number', 'A ten\n'), ('defined twice', 'A 1\nA 2\n'), ('child without name', 'A 1 2\n'),
       ('child weight no number', 'A 1 B 2\n'), ('second child without name', 'A 1 2 B 3\n'), ('bad line after good ones', 'A 1\nB 2\nC\n')]
GOOD = [('plain', 'X 10', 10.0), ('comment', '% X 3\nX 10\n', 10.0), ('blank lines', '\n  \nX 10\n\n', 10.0), ('tabs', '\tX\t10\t\n', 10.0),
        ('children', 'Y 5 2 X\nX 10 1 Z 2 W\nZ 9\nW 20\n', 10.0), ('no last newline', 'Y 1\nX 10 ', 10.0), ('comment last', 'X 10\n%', 10.0),
        ('trailing blank after child', 'X 10 1 Z \nZ 20', 10.0), ('decimal', 'X 2.5e1\n', 25.0)]


def files(rep, I):
    for lab, text in BAD:
        st = State()
        st, arb, _ = I.do(st, 'ra_new')
        st, v, sig = I.file(st, arb, text)
        rep.check(sig is None and v is False, 'I03-file', lab, 'a resource file with %s (%r) is read as %s' % (lab, text, sig or v),
                  sample='malformed file refused')
    for lab, text, c in GOOD:
        st = State()
        st, arb, _ = I.do(st, 'ra_new')
        st, v, sig = I.file(st, arb, text)
        if not rep.check(sig is None and v is True, 'I03-file', lab, 'a well-formed resource file (%s: %r) is refused: %s' % (lab, text, sig or v), sample='well-formed file read'):
            continue
        sc = Scene.__new__(Scene)
        sc.I, sc.arb = I, arb
        got = (sc.fits(st, 'X', c), sc.fits(st, 'X', c + 0.25))
        rep.check(got == (True, False), 'I03-file', lab + '|capacity', 'resource file %r: the capacity of X is not %s' % (text, c),
                  sample='capacity as in the file')
