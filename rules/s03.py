"""S03: the intrusive queues keep exactly the inserted elements, in priority then arrival order."""
from interp import Interp, State, T, Ptr, mk, ptr, addr_of, Broken
from facts import AnalysisBroken

MIN_OBLIGATIONS = 300
Q = ('O', 'queue')
PRIO = {'x0': 1, 'x1': 1, 'x2': 0, 'x3': 2}


class QI(Interp):
    concrete_bound = 30

    def on_new(self, st, addr, cls, node):
        st.aux['new'] = addr

    def initial(self, st, a, t):
        if a[0] == 'F' and a[1][0] == 'O' and a[1][1] in PRIO:
            return PRIO[a[1][1]] if a[2] == 'm_prio' else 0
        return Interp.initial(self, st, a, t)


def run(P, rep):
    rep.rule('typestate closure of LinkedQueue and PriorityQueue (instantiated at a neutral element type) from the empty queue under '
             'every member operation, against the list reference: front, size, emptiness and iteration order after each operation')
    W = {f['key'].split('(')[0].split('::')[-1]: f for f in P.fns.values() if f['key'].startswith('witness::')}
    if 'q_push' not in W or 'p_insert' not in W:
        raise AnalysisBroken('queue witness was not compiled')
    items = ['x0', 'x1', 'x2'] + (['x3'] if rep.tier == 'thorough' else [])
    n = 0
    for kind in ('LinkedQueue', 'PriorityQueue'):
        pre = 'q_' if kind == 'LinkedQueue' else 'p_'
        I = QI(P)

        def call(nm, st, *a):
            return I.start(W[pre + nm], st.fork(), None, [ptr(q)] + list(a))
        q = None
        outs = I.start(W['newQueue' if pre == 'q_' else 'newPQueue'], State(), None, [])
        if len(outs) != 1 or outs[0][2]:
            raise AnalysisBroken('queue constructor has several outcomes')
        st0, v0, _ = outs[0]
        q = addr_of(v0)
        work, seen = [(st0, ())], {}
        while work:
            st, ref = work.pop(0)
            st = st.fork()
            st.trace, st.facts, st.cnt, st.aux = (), {}, {}, {}
            for k in [k for k in st.mem if k[0] in ('L', 'TMP') or (k[0] == 'F' and k[1][0] in ('L', 'TMP'))]:
                del st.mem[k]
            key = (frozenset((k, v) for k, v in st.mem.items() if not (k[0] == 'F' and k[1][0] == 'O' and k[1][1] not in ref)), ref)
            if key in seen:
                continue
            seen[key] = 1
            if len(seen) > 2500:
                raise AnalysisBroken('queue state space does not close')
            ops = []
            for x in items:
                if x not in ref:
                    if kind == 'LinkedQueue':
                        ops.append(('push', x, ref + (x,)))
                        ops.append(('insertEnd', x, ref + (x,)))
                        ops.append(('insertFirst', x, ref[:1] + (x,) + ref[1:]))
                        ops.append(('insertSecond', x, ref[:2] + (x,) + ref[2:] if len(ref) > 1 else ref + (x,)))
                    else:
                        i = next((i for i, y in enumerate(ref) if PRIO[x] < PRIO[y]), len(ref))
                        ops.append(('insert', x, ref[:i] + (x,) + ref[i:]))
                r2 = tuple(y for y in ref if y != x)
                ops.append(('remove', x, r2))
                if kind == 'LinkedQueue':
                    ops.append(('removeIf', x, r2))
                    ops.append(('findIf', x, ref))
            ops += [('pop', None, ref[1:]), ('clear', None, ())]
            for op, x, want in ops:
                for s, v, sig in call(op, st, *([ptr(('O', x))] if x else [])):
                    n += 1
                    lab = '%s(%s) on <%s>' % (op, x or '', ' '.join(ref))
                    rk = kind + '|' + op
                    if not rep.check(sig is None, 'queue', rk + '|error', '%s: %s raises an error' % (kind, lab)):
                        continue
                    if op in ('removeIf', 'findIf'):
                        rep.check((addr_of(v) == ('O', x) if isinstance(v, Ptr) else v == 0) if x in ref else not isinstance(v, Ptr) and v == 0,
                                  'queue', rk + '|result', '%s: %s returns %s' % (kind, lab, v))
                    got = observe(I, call, s, kind, len(want))
                    rep.check(got == want, 'queue', rk + '|content', '%s: %s leaves <%s> instead of <%s>' %
                              (kind, lab, ' '.join(map(str, got)), ' '.join(want)), sample='%s: %s -> <%s>' % (kind, lab, ' '.join(want)))
                    if kind == 'PriorityQueue':
                        fc = sum(1 for y in want if PRIO[y] == PRIO[want[0]]) if want else 0
                        for s1, v1, sg in call('frontCount', s):
                            rep.check(v1 == fc, 'queue', kind + '|front_count', 'front_count on <%s> answers %s' % (' '.join(want), v1))
                    gone = [y for y in ref if y not in want]
                    for y in gone:
                        a = ('F', ('O', y), 'm_next')
                        rep.check(s.mem.get(a, 0) == 0, 'queue', rk + '|dangling', '%s: %s leaves a link in the removed element %s' % (kind, lab, y))
                    if got == want:
                        work.append((s, want))
        rep.count('queue states', len(seen))
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('queue operations', n, 200)
    priority(P, rep)


def observe(I, call, s, kind, n):
    out = []
    sz = [v for _, v, sg in call('size', s)]
    em = [v for _, v, sg in call('empty', s)]
    fr = [v for _, v, sg in call('front', s)]
    if len(sz) != 1 or sz[0] != n:
        return ('size=%s' % sz,)
    if len(em) != 1 or bool(em[0]) != (n == 0):
        return ('empty=%s' % em,)
    for i in range(n + 1):
        r = call('nth', s, i)
        if len(r) != 1 or r[0][2]:
            return ('unbounded iteration',)
        v = r[0][1]
        if isinstance(v, Ptr):
            out.append(addr_of(v)[1])
        elif v != 0:
            out.append(str(v))
    if n and (not isinstance(fr[0], Ptr) or addr_of(fr[0])[1] != (out or [None])[0]):
        return ('front=%s' % fr[0],)
    return tuple(out)


def priority(P, rep):
    """the executive's ordering of the pending queue is by ascending node priority"""
    from lib_exec import order_of_pending
    order_of_pending(P, rep)
