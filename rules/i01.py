"""I01: an active lookup always reads the cached value of its current state; an inactive one leaves no trace."""
import itertools
import par
from lib_lookup import *

MIN_OBLIGATIONS = 400
A, B = 'sA', 'sB'


class Lk:
    """one lookup under test and what it should be reading"""
    def __init__(self, i, expr, name, param, inner=None):
        self.i, self.expr, self.name, self.param, self.inner = i, expr, name, param, inner
        self.on = 0


class World:
    def __init__(self, P, I, kinds):
        """kinds: per lookup (now|change, const|var|nested, param?)"""
        self.I = I
        st = State()
        self.vars = {}
        self.val = {'name': A, 'param': 1}
        st, self.vars['name'] = I.variable(st, 'String', A)
        st, self.vars['param'] = I.variable(st, 'Integer', 1)
        self.lks = []
        self.out = {(A, ()): 10, (B, ()): 20, (A, (1,)): 30, (A, (2,)): 40, (B, (1,)): None}
        for i, (k, n, p) in enumerate(kinds):
            vec = 0
            if p:
                st, vec, _ = I.do(st, 'new_Vec', 1)
                st, _, _ = I.do(st, 'vec_arg', vec, 0, self.vars['param'])
            inner = None
            if n == 'const':
                st.mem[('O', 'cname')] = A
                st, ne, _ = I.do(st, 'lk_const', ptr(('O', 'cname')))
                nm = A
            elif n == 'var':
                ne, nm = self.vars['name'], 'name'
            else:
                self.out[(A, ())] = B
                inner = self.lks[n]
                ne, nm = inner.expr, None
            if k == 'now':
                st, e, sig = I.do(st, 'lk_new', ne, I.vts['UNKNOWN_TYPE'], vec)
            else:
                st, tol = I.variable(st, 'Integer', 1)
                st, e, sig = I.do(st, 'lk_change', ne, I.vts['UNKNOWN_TYPE'], tol, vec)
            if sig:
                raise AnalysisBroken('lookup could not be made: %s' % (sig,))
            st, _, _ = I.do(st, 'x_listen', e, ptr(('O', 'ear%d' % i)))
            self.lks.append(Lk(i, e, nm, 'param' if p else None, inner))
        self.st = clean(st)

    def fork(self):
        w = World.__new__(World)
        w.__dict__.update(self.__dict__)
        w.val, w.out = dict(self.val), dict(self.out)
        w.lks = []
        for l in self.lks:
            m = Lk.__new__(Lk)
            m.__dict__.update(l.__dict__)
            if l.inner is not None:
                m.inner = w.lks[l.inner.i]
            w.lks.append(m)
        w.st = clean(self.st.fork())
        return w

    def state_of(self, l):
        """the state an active lookup is about, or None"""
        if l.inner is not None:
            n = self.reading(l.inner) if l.inner.on or l.on else None
        else:
            n = self.val[l.name] if l.name == 'name' else l.name
        if n is None or not isinstance(n, str):
            return None
        if l.param:
            p = self.val['param']
            return None if p is None else (n, (p,))
        return (n, ())

    def active(self, l):
        return l.on > 0 or any(m.inner is l and self.active(m) for m in self.lks)

    def reading(self, l):
        if not self.active(l):
            return None
        k = self.state_of(l)
        return None if k is None else self.out.get(k)

    def apply(self, op):
        """-> (world after, error)"""
        w = self.fork()
        I, c = w.I, op[0]
        I.world = w.out
        if c in ('on', 'off'):
            l = w.lks[op[1]]
            l.on += 1 if c == 'on' else -1
            w.st, _, sig = I.do(w.st, 'x_activate' if c == 'on' else 'x_deactivate', l.expr)
        elif c in ('name', 'param'):
            w.val[c] = op[1]
            w.st, _, sig = I.setv(w.st, w.vars[c], op[1])
        elif c == 'cycle':
            w.st, _, sig = I.do(w.st, 'sc_cycle')
        elif c == 'drift':                       # the outside changes, unreported, and a new cycle begins
            for k, v in op[1].items():
                w.out[k] = v
            w.st, _, sig = I.do(w.st, 'sc_cycle')
        else:
            key, v = op[1], op[2]
            w.out[key] = v
            s, val = I.value_obj(w.st, v)
            I.put_state(s, ptr(('O', 'key')), *key)
            w.st, _, sig = I.do(s, 'sc_return', ptr(('O', 'key')), val)
        return w, sig

    def read(self, l):
        """what a reader of the lookup sees"""
        I = self.I
        s, k, sig = I.do(self.st.fork(), 'x_known', l.expr)
        if sig:
            return ('error', sig)
        s, v, sig = I.do(s, 'x_valuep', l.expr)
        if sig:
            return ('error', sig)
        r = I.raw(s, v)
        r = None if r == U else r
        if bool(k) != (r is not None):
            return ('isKnown says %s' % bool(k), r)
        return r

    def registered(self, key):
        s = self.st.fork()
        self.I.put_state(s, ptr(('O', 'key')), *key)
        s, v, sig = self.I.do(s, 'sc_has', ptr(('O', 'key')))
        return v


def legal(w, op):
    if op[0] == 'off':
        return w.lks[op[1]].on > 0
    if op[0] == 'on':
        return w.lks[op[1]].on < 1
    if op[0] in ('name', 'param'):
        return w.val[op[0]] != op[1]
    return True


def describe(op):
    if op[0] == 'return':
        return '%s%s becomes %s' % (op[1][0], list(op[1][1]) or '', op[2])
    if op[0] == 'drift':
        return 'new cycle, outside values differ'
    return ' '.join(map(str, op))


class Judge:
    def __init__(self, rep, what):
        self.rep, self.what, self.n = rep, what, 0
        self.stale = {}

    def step(self, w, op, hist):
        before = [w.reading(l) if w.active(l) else None for l in w.lks]
        act = [w.active(l) for l in w.lks]
        w2, sig = w.apply(op)
        self.n += 1
        rep, key = self.rep, '%s|%s' % (self.what, op[0])
        txt = '%s: %s' % (self.what, ', '.join(map(describe, hist + (op,))))
        if not rep.check(sig is None, 'I01-error', key, '%s ends in an error %s' % (txt, sig)):
            return None
        rep.check(not any(e[0] == 'modified while iterated' for e in w2.st.trace), 'I01-iterate', key,
                  '%s: the set of lookups is changed while it is being walked' % txt, sample='%s: registration never disturbs a walk' % self.what)
        rep.check(not any(e[0] == 'dead' for e in w2.st.trace), 'I01-dead', key,
                  '%s: uses an object that was deleted' % txt, sample='%s: deleted entries are not used' % self.what)
        told = [e[1] for e in w2.st.trace if e[0] == 'notify']
        asked = [e[2] for e in w2.st.trace if e[0] == 'outside' and e[1] == 'lookupNow']
        for l in w2.lks:
            want = w2.reading(l)
            got = w2.read(l)
            now = w2.active(l)
            rep.check(got == want, 'I01-reads', key,
                      '%s; lookup %d reads %s, its state %s has %s' % (txt, l.i, got, w2.state_of(l) if now else '(inactive)', want),
                      sample='%s: lookup %d reads the cached value' % (self.what, l.i))
            if act[l.i] and now and before[l.i] != want:
                rep.check(str(l.i) in told, 'I01-told', key, '%s; lookup %d goes from %s to %s and nobody is told' % (txt, l.i, before[l.i], want),
                          sample='%s: change announced' % self.what)
            if not act[l.i] and not now:
                rep.check(str(l.i) not in told, 'I01-silent', key, '%s; inactive lookup %d announces a change' % (txt, l.i),
                          sample='%s: inactive and silent' % self.what)
        want = {w2.state_of(l) for l in w2.lks if w2.active(l)} - {None}
        for k in sorted(w2.out, key=repr):
            rep.check(bool(w2.registered(k)) == (k in want), 'I01-registered', key,
                      '%s; state %s%s %s' % (txt, k[0], list(k[1]) or '', 'has no registered lookup although one is active' if k in want
                                             else 'still has a registered lookup although none is active'),
                      sample='%s: registered while active' % self.what)
        return w2


def explore(rep, I, P, what, kinds, ops, depth, start=()):
    w = World(P, I, kinds)
    J = Judge(rep, what)
    for op in start:
        w = J.step(w, op, ())
        if w is None:
            return J.n
    todo = [(w, start)]
    seen = set()
    while todo:
        w, hist = todo.pop(0)
        globs = sorted({r for r in map(root, w.st.mem) if r[0] == 'G'}, key=repr)
        k = (canon(w.st, *([addr_of(l.expr) for l in w.lks] + globs)), tuple(sorted(w.val.items(), key=repr)),
             tuple(sorted(w.out.items(), key=repr)), tuple(l.on for l in w.lks))
        if k in seen:
            continue
        seen.add(k)
        if len(hist) - len(start) >= depth:
            continue
        for op in ops:
            if not legal(w, op):
                continue
            w2 = J.step(w, op, hist)
            if w2 is not None:
                todo.append((w2, hist + (op,)))
    return J.n


def ret(k, v, p=()):
    return ('return', (k, tuple(p)), v)


MSG = {1: ('m1', (7, 'x'), 'from1', 1.5), 2: ('m2', (), 'from2', 2.5), 3: ('m3', (9,), 'from3', 3.5)}
H = 'h1'


def field(m, state):
    """what a lookup of a message's handle reads"""
    n, ps = state
    text, args, sender, t = MSG[m]
    if n == 'MessageParameter':
        return args[ps[1]] if ps[1] < len(args) else None
    return {'MessageText': text, 'MessageParameterCount': len(args), 'MessageSender': sender, 'MessageArrived': t}[n]


def messages(rep, I, P, deep):
    """the lookups about a received message, from the assignment of its handle to the release"""
    n = 0
    for state in (('MessageText', (H,)), ('MessageParameterCount', (H,)), ('MessageParameter', (H, 0)), ('MessageParameter', (H, 1)),
                  ('MessageSender', (H,)), ('MessageArrived', (H,))):
        for const in (True, False):
            st = State()
            st.mem[('O', 'sname')] = state[0]
            st, ne, _ = I.do(st, 'lk_const', ptr(('O', 'sname')))
            st, vec, _ = I.do(st, 'new_Vec', len(state[1]))
            for i, p in enumerate(state[1]):
                if const and isinstance(p, str):
                    st.mem[('O', 'pname')] = p
                    st, pe, _ = I.do(st, 'lk_const', ptr(('O', 'pname')))
                else:
                    st, pe = I.variable(st, 'String' if isinstance(p, str) else 'Integer', p)
                st, _, _ = I.do(st, 'vec_arg', vec, i, pe)
            st, e, sig = I.do(st, 'lk_new', ne, I.vts['UNKNOWN_TYPE'], vec)
            st, _, _ = I.do(st, 'x_listen', e, ptr(('O', 'ear0')))
            what = '%s lookup with a %s handle' % (state[0], 'constant' if const else 'variable')
            todo = [(clean(st), (), 0, 0)]
            while todo:
                s0, hist, on, m = todo.pop(0)
                if len(hist) > 4 + deep:
                    continue
                ops = ['off' if on else 'on'] + (['release'] if m else [('assign', 1), ('assign', 3)] + ([('assign', 2)] if deep else []))
                for op in ops:
                    n += 1
                    I.world = {}
                    s = clean(s0.fork())
                    h2, on2, m2 = hist + (op,), on, m
                    txt = '%s: %s' % (what, ', '.join(str(o) if isinstance(o, str) else 'message %d' % o[1] for o in h2))
                    key = what + '|' + (op if isinstance(op, str) else op[0])
                    if op in ('on', 'off'):
                        s, _, sig = I.do(s, 'x_activate' if op == 'on' else 'x_deactivate', e)
                        on2 = op == 'on'
                    elif op == 'release':
                        s.mem[('O', 'h')] = H
                        s, _, sig = I.do(s, 'sc_release', ptr(('O', 'h')))
                        m2 = 0
                    else:
                        m2 = op[1]
                        text, args, sender, t = MSG[m2]
                        I.put_state(s, ptr(('O', 'ms')), text, args)
                        s.mem[('O', 'sender')] = sender
                        s.mem[('O', 'h')] = H
                        s, mo, sig = I.do(s, 'sc_msg', ptr(('O', 'ms')), ptr(('O', 'sender')), t)
                        s, _, sig = I.do(clean(s), 'sc_assign', mo, ptr(('O', 'h')))
                        gone = mo.addr in s.aux.get('dead', ())
                        rep.check(gone, 'I01-message', key, '%s: the message is not freed' % txt, sample='%s: message freed' % what)
                    if not rep.check(sig is None, 'I01-error', key, '%s ends in an error %s' % (txt, sig)):
                        continue
                    rep.check(not any(x[0] == 'dead' for x in s.trace), 'I01-dead', key, '%s: uses an object that was deleted' % txt,
                              sample='%s: deleted entries are not used' % what)
                    if on2 and m2:
                        s3, v, sg = I.do(clean(s.fork()), 'x_valuep', e)
                        got = None if sg else I.raw(s3, v)
                        got = None if got == U else got
                        rep.check(got == field(m2, state), 'I01-reads', key, '%s: reads %s, the message says %s' % (txt, got, field(m2, state)),
                                  sample='%s: reads the message' % what)
                    if op == 'release':
                        ks = [k[1] for a, v in s.mem.items() if a[0] == 'F' and a[-1] == '$keys' for k in v if isinstance(k, tuple) and k[0] == 'state']
                        left = [k for k in ks if k[0].startswith('Message') and not (on2 and k == state)
                                and not (k[0] == 'MessageParameter' and k[1][1] >= len(MSG[m][1]))]
                        rep.check(not left, 'I01-forget', key, '%s: the cache still has %s' % (txt, ', '.join('%s%s' % (k[0], list(k[1])) for k in left)),
                                  sample='%s: every entry of the handle is gone' % what)
                    if not (on2 and not m2):
                        todo.append((clean(s), h2, on2, m2))
                    elif op == 'release':
                        s4, _, sg = I.do(clean(s), 'x_deactivate', e)
                        todo.append((clean(s4), h2 + ('off',), False, 0))
    return n


def fresh(rep, I, P, k, k2):
    """a lookup that starts to look at a state gets a value of the current cycle"""
    for what, kinds, pre, op in (
            ('first', 'const', (), ('on', 0)), ('again', 'const', (('on', 0), ('off', 0)), ('on', 0)), ('second', 'const', (('on', 1),), ('on', 0)),
            ('after another', 'const', (('on', 1), ('off', 1)), ('on', 0)), ('renamed', 'var', (('on', 0), ('name', B)), ('name', A)),
            ('renamed to one in use', 'var', (('on', 0), ('on', 1), ('name', B)), ('name', A))):
        w = World(P, I, [(k, kinds, False), (k2, 'const', False)])
        for o in pre:
            w, sig = w.apply(o)
        for cycles in (1, 2):
            v = w.fork()
            key = (A, ())
            v.out = dict(v.out)
            v.out[key] = 99                                     # the outside moves on without a report
            for _ in range(cycles):
                v.st, _, sig = I.do(v.st, 'sc_cycle')
            was = v.active(v.lks[1])
            v, sig = v.apply(op)
            txt = 'a %s lookup of a state %s, %s cycle(s) after its last report (%s; %s)' % (k, what, cycles, ', '.join(map(describe, pre)), describe(op))
            asked = [e[2] for e in v.st.trace if e[0] == 'outside' and e[1] == 'lookupNow']
            rep.check(sig is None and key in asked and v.read(v.lks[0]) == 99, 'I01-fresh', '%s|%s' % (k, what),
                      '%s: the outside, which has 99, is %s, and the lookup reads %s' % (txt, 'asked' if key in asked else 'not asked', sig or v.read(v.lks[0])),
                      sample='a lookup starting to look gets a value of this cycle')
            if was:
                told = [e[1] for e in v.st.trace if e[0] == 'notify']
                rep.check(v.read(v.lks[1]) == 99 and '1' in told, 'I01-fresh', '%s|%s|other' % (k2, what),
                          '%s: the other lookup of the state reads %s' % (txt, v.read(v.lks[1])), sample='and so does every other lookup of the state')


def run(P, rep):
    rep.rule('the state cache and lookups interpreted together: after every operation of every bounded history each lookup reads the '
             'value last delivered for its current state if active and is unknown otherwise; a changed reading is announced; a state '
             'has a registered lookup exactly while an active lookup is about it')
    I = LkI(P)
    deep = rep.tier == 'thorough'
    jobs = []

    def add(*a):
        def go(r):
            r.count('operations', explore(r, I, P, *a))
        jobs.append(go)
    one = [('on', 0), ('off', 0)]
    vals = [ret(A, 11), ret(A, 12), ret(A, None), ('cycle',), ret(B, 21)]
    for k in ('now', 'change'):
        add(k + ' lookup, constant name', [(k, 'const', False)], one + vals, 4 + deep)
        add(k + ' lookup, variable name', [(k, 'var', False)],
                     one + [('name', A), ('name', B), ('name', None), ret(A, 11), ret(B, 21), ret(B, None)], 3 + deep)
        add(k + ' lookup with a parameter', [(k, 'const', True)],
                     one + [('param', 1), ('param', 2), ('param', None), ret(A, 31, (1,)), ret(A, 41, (2,)), ret(A, None, (2,))], 3 + deep)
        add(k + ' lookup, variable name and parameter', [(k, 'var', True)],
                     one + [('name', B), ('name', None), ('name', A), ('param', 2), ('param', None), ret(B, 51, (1,)), ret(B, 52, (2,))], 3 + deep,
                     (('on', 0),))
        for k2 in ('now', 'change'):
            add('a %s and a %s lookup of one state' % (k, k2), [(k, 'const', False), (k2, 'const', False)],
                         [('on', 0), ('off', 0), ('on', 1), ('off', 1), ret(A, 11), ret(A, 12), ('cycle',)], 4 + deep)
    add('three lookups of one state', [('now', 'const', False), ('change', 'const', False), ('now', 'var', False)],
                 [('off', 0), ('off', 1), ('off', 2), ('on', 1), ret(A, 11), ret(A, 12), ('name', B)], 3 + deep, (('on', 0), ('on', 1), ('on', 2)))
    for k in ('now', 'change'):
        add('a %s lookup named by another lookup' % k, [('now', 'const', False), (k, 0, False)],
                     [('on', 1), ('off', 1), ('on', 0), ret(A, B), ret(A, 'sC'), ret(B, 21), ret('sC', 61)] + ([ret(A, A)] if k == 'now' else []), 3 + deep)
    for k in ('now', 'change'):
        for k2 in ('now', 'change'):
            jobs.append(lambda r, k=k, k2=k2: fresh(r, I, P, k, k2))
    jobs.append(lambda r: r.count('message operations', messages(r, I, P, deep)))
    par.each(rep, I, jobs)
    rep.floor('operations', rep.counts.get('operations', 0), 100)
    rep.floor('message operations', rep.counts.get('message operations', 0), 50)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
