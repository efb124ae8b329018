"""C05: listeners receive every event exactly once, in order, filtered only by their filter."""
from c07 import *

MIN_OBLIGATIONS = 100


class HubI(RegI):
    """the listener hub interpreted over recording listeners; a filter's answers are chosen by the analysis"""
    answers = {}

    def on_call(self, st, ctx):
        nm, this = ctx.name, ctx.this
        if not ctx.cls and nm in ('rec_transition', 'rec_plan', 'rec_library', 'rec_assign', 'rec_stop'):
            st.ev('rec', nm[4:], ctx.args[0], *[self.event(st, nm, i, a) for i, a in enumerate(ctx.args[1:])])
            return [(st, None)]
        if not ctx.cls and nm in ('ask_transition', 'ask_plan', 'ask_library', 'ask_assign'):
            e = self.event(st, nm, 0, ctx.args[1])
            return [(st, accept(self.answers[ctx.args[0]], int(''.join(c for c in str(getattr(e, 'addr', ('', e))[1]) if c.isdigit()))))]
        if not ctx.cls and nm in ('ask_initialize', 'ask_start'):
            st.ev('rec', nm[4:], ctx.args[0])
            return [(st, self.answers[nm[4:], ctx.args[0]])]
        if ctx.cls == 'pugi::xml_node' and nm == 'xml_node':
            if ctx.args:
                st.mem[('F', addr_of(this), '$xml')] = self.xml(st, ctx.args[0])
            return [(st, this)]
        if ctx.cls == 'pugi::xml_node' and nm == 'operator=':
            st.mem[('F', addr_of(this), '$xml')] = self.xml(st, ctx.args[0])
            return [(st, this)]
        return RegI.on_call(self, st, ctx)

    def xml(self, st, a):
        return st.mem.get(('F', addr_of(a), '$xml'), 'none')

    def event(self, st, nm, i, a):
        if nm.endswith(('plan', 'library')):
            return self.xml(st, a)
        if nm.endswith('transition'):
            n = st.mem.get(('F', addr_of(a), 'node'))
            return mk('tr', n, st.mem.get(('F', addr_of(a), 'oldState')), st.mem.get(('F', addr_of(a), 'newState'))) if nm.startswith('rec') else n
        if nm.endswith('assign'):
            return a if i == 0 else st.mem.get(addr_of(a)) if i == 1 else self.vraw(st, a)
        return a


def run(P, rep):
    rep.rule('the listener hub interpreted with up to three recording listeners, with and without filters: for every short '
             'history of transitions, assignments, plans, libraries and step ends, each listener is told exactly the events its '
             'filter accepts, once and in order, transitions and assignments at the next step end')
    I = HubI(P)
    n = 0
    deep = rep.tier == 'thorough'
    for nl in (0, 1, 2, 3):
        for filters in patterns(nl):
            for h in HIST + (MORE if deep else ()):
                n += one(I, rep, nl, filters, h)
    rep.floor('histories', n, 100)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def patterns(n):
    """filter of each listener: None, or which of two alternating answers it gives"""
    if n == 0:
        return [()]
    return [p + (x,) for p in patterns(n - 1) for x in (None, 'odd', 'even', 'no')] if n < 3 else \
        [(None, None, None), ('odd', None, 'even'), ('no', None, None), ('even', 'odd', 'odd')]


HIST = (('t1',), ('t1', '|'), ('t2', '|'), ('t1', 't1', '|'), ('t2', 't1', '|', 't1', '|'), ('t1', '|', '|'), ('a', '|'), ('a', 'a', '|'),
        ('t2', 'a', 't1', 'a', '|', 'a', '|', '|'), ('p',), ('l',), ('p', 'p', 'l', '|'), ('t1', 'p', 'a', 'l', '|', 'p', 't2', '|'), ('|',))
MORE = tuple(tuple(h) + ('|',) for k in (3, 4) for h in __import__('itertools').product(('t1', 't2', 'a', 'p', '|'), repeat=k))


def one(I, rep, nl, filters, h):
    s, hub = I.one(State(), 'hub_new')
    ls = []
    I.answers = {}
    for i in range(nl):
        s, l = I.one(clean(s), 'hub_listener')
        if filters[i]:
            s, f = I.one(clean(s), 'hub_filter', l)
            I.answers[f] = filters[i]
        s, _ = I.one(clean(s), 'hub_add', hub, l)
        ls.append(l)
    lab = '%d listener(s), filters %s: %s' % (nl, list(filters), ' '.join(h))
    k = 0
    pend_t, pend_a = [], []
    for x in h:
        now = {l: [] for l in ls}
        if x in ('t1', 't2'):
            args = []
            for _ in range(int(x[1])):
                k += 1
                a = ('O', 'tr%d' % k)
                s.cls[a] = 'PLEXIL::NodeTransition'
                for f in ('node', 'oldState', 'newState'):
                    s.mem[('F', a, f)] = ptr(('O', 'node%d' % k)) if f == 'node' else k + int(f == 'newState')
                args.append(ptr(a))
                pend_t.append(('transition', mk('tr', ptr(('O', 'node%d' % k)), k, k + 1), k))
            r = I.w(clean(s), 'hub_transitions' + x[1], hub, *args)
        elif x == 'a':
            k += 1
            e, nm, v = ptr(('O', 'var%d' % k)), ('O', 'nm%d' % k), ('O', 'av%d' % k)
            s.mem[nm] = 'name%d' % k
            I.vset(s, v, mk('payload', 'av%d' % k))
            pend_a.append(('assign', e, k))
            r = I.w(clean(s), 'hub_assign', hub, e, ptr(nm), ptr(v))
        elif x in 'pl':
            k += 1
            a = ('O', 'xml%d' % k)
            s.mem[('F', a, '$xml')] = 'xml%d' % k
            kind = {'p': 'plan', 'l': 'library'}[x]
            for i, l in enumerate(ls):
                if accept(filters[i], k):
                    now[l].append((kind, 'xml%d' % k))
            r = I.w(clean(s), 'hub_' + kind, hub, ptr(a))
        else:
            for i, l in enumerate(ls):
                now[l] = [(e[0], e[1]) for e in pend_t + pend_a if accept(filters[i], e[2])]
            pend_t, pend_a = [], []
            r = I.w(clean(s), 'hub_step', hub)
        if not rep.check(len(r) == 1 and r[0][2] is None, 'deliver', 'error', '%s: ends in an error or an undecided delivery' % lab):
            return 1
        s = r[0][0]
        for i, l in enumerate(ls):
            got = [(e[1], e[3]) for e in s.trace if e[0] == 'rec' and e[2] == l]
            rep.check(got == now[l], 'deliver', {'t': 'transitions', 'a': 'assignment', 'p': 'plan', 'l': 'library', '|': 'step'}[x[0]],
                      '%s: at %s listener %d is told %s instead of %s' % (lab, x, i + 1, sh(got), sh(now[l])), sample='%s: %s' % (lab, sh(got)))
            for e in s.trace:
                if e[0] == 'rec' and e[1] == 'assign' and e[2] == l:
                    j = e[3].addr[1][3:]
                    rep.check(e[4] == 'name' + j and e[5] == mk('payload', 'av' + j), 'deliver', 'payload',
                              '%s: the assignment is reported with name %s and value %s' % (lab, e[4], e[5]))
    return 1


def accept(f, k):
    return f is None or (f == 'odd' and k % 2 == 1) or (f == 'even' and k % 2 == 0)


def sh(ev):
    return ', '.join('%s %s' % (a, getattr(b, 'addr', ('', b))[1]) for a, b in ev) or 'nothing'
