"""C01: everything reported through the adapter interface reaches the executive, unaltered and in order."""
from lib_var import *
from lib_value import U

MIN_OBLIGATIONS = 300
NULL = 0
STATE = 'PLEXIL::State'
IM = 'PLEXIL::InterfaceManager'


class AppI(VarI):
    """InterfaceManager over its real queue; states and values are opaque payloads, sinks are recorded"""
    def __init__(self, P):
        VarI.__init__(self, P)
        self.parsefails = False
        self.cmdvals = P.enum('CommandHandleValue')['vals']

    def on_call(self, st, ctx):
        nm, this = ctx.name, ctx.this
        if ctx.cls == STATE and isinstance(this, Ptr):
            if nm == 'State':
                src = ctx.args[0] if ctx.args else None
                st.mem[('F', addr_of(this), '$state')] = self.sget(st, src) if src is not None else 'default'
                return [(st, this)]
            if nm == 'operator=':
                st.mem[('F', addr_of(this), '$state')] = self.sget(st, ctx.args[0])
                return [(st, this)]
        q = ctx.key.split('(')[0]
        if q.endswith('StateCache::instance') or nm == 'instance' and q.startswith('PLEXIL::StateCache'):
            return [(st, ptr(('O', 'cache')))]
        if ctx.cls == 'PLEXIL::StateCache':
            if nm == 'lookupReturn':
                st.ev('sink', 'lookup', self.sget(st, ctx.args[0]), self.vraw(st, ctx.args[1]))
                return [(st, None)]
            if nm in ('messageReceived', 'messageQueueEmpty', 'assignMessageHandle', 'releaseMessageHandle'):
                st.ev('sink', nm, *[self.sval(st, a) for a in ctx.args])
                return [(st, None)]
        if nm in ('commandHandleReturn', 'commandReturn', 'commandAbortAcknowledge') and not ctx.cls:
            v = self.vraw(st, ctx.args[1]) if nm == 'commandReturn' else ctx.args[1]
            st.ev('sink', nm, ctx.args[0], v)
            return [(st, None)]
        if isinstance(this, Ptr) and this.addr[0] == 'O' and this.addr[1] in ('upd', 'cmd', 'exec', 'app', 'plan', 'cfg', 'hub', 'msg'):
            who = this.addr[1]
            if who == 'upd' and nm == 'acknowledge':
                st.ev('sink', 'updateAck', this, ctx.args[0])
                return [(st, None)]
            if who == 'app' and nm == 'markProcessed':
                st.ev('sink', 'mark', ctx.args[0])
                return [(st, None)]
            if who == 'app' and nm == 'listenerHub':
                return [(st, ptr(('O', 'hub')))]
            if who == 'app':
                st.ev('app', nm)
                return [(st, None)]
            if who == 'exec' and nm == 'addPlan':
                st.ev('sink', 'plan', ctx.args[0])
                return [(st, None)]
            if who == 'hub':
                st.ev('hub', nm)
                return [(st, None)]
            if who in ('cmd', 'upd', 'plan'):
                return [(st, mk('of', who, nm))]
        if nm == 'parsePlan':
            r = [(st, ptr(('O', 'plan')))]
            return r
        return VarI.on_call(self, st, ctx)

    def sget(self, st, x):
        v = st.mem.get(('F', addr_of(x), '$state'))
        if v is None:
            raise Broken('state payload lost')
        return v

    def sval(self, st, a):
        if isinstance(a, Ptr) and a.addr in st.mem and not (a.addr[0] == 'O' and a.addr[1] == 'msg'):
            return st.mem[a.addr]
        return a

    def initial(self, st, a, typ):
        if a[0] == 'G' and a[1].endswith('g_exec'):
            return ptr(('O', 'exec'))
        return VarI.initial(self, st, a, typ)

    def on_delete(self, st, val, node):
        a = addr_of(val)
        if ('dead', a) in st.aux:
            st.ev('double-delete', a)
        st.aux[('dead', a)] = True
        return VarI.on_delete(self, st, val, node)

    def on_new(self, st, addr, cls, node):
        if cls == STATE:
            st.aux[('live', addr)] = True


def posts(I):
    """kind -> (witness, argument builder, expected sink entry or None)"""
    def V(st, i):
        a = ('O', 'val%d' % i)
        I.vset(st, a, mk('payload', 'v%d' % i))
        return ptr(a)

    def N(st, i):
        a = ('O', 'unk%d' % i)
        I.vset(st, a, U)
        return ptr(a)

    def S(st, i):
        a = ('O', 'state%d' % i)
        st.mem[('F', a, '$state')] = mk('payload', 's%d' % i)
        return ptr(a)

    def H(st, i):
        a = ('O', 'handle%d' % i)
        st.mem[a] = 'handle%d' % i
        return ptr(a)
    C = lambda i: ptr(('O', 'cmd', i))
    U_ = lambda i: ptr(('O', 'upd', i))
    G = lambda i: ptr(('O', 'msg', i))
    out = {}
    for k in ('CC', 'CM', 'MC', 'MM'):
        out['value' + k] = ('im_value' + k, lambda st, i: [S(st, i), V(st, i)],
                            lambda i: ('lookup', mk('payload', 's%d' % i), mk('payload', 'v%d' % i)))
        out['unknown' + k] = ('im_value' + k, lambda st, i: [S(st, i), N(st, i)], lambda i: ('lookup', mk('payload', 's%d' % i), U))
    names = {v['n']: v['v'] for v in I.cmdvals}
    lo, hi = names['NO_COMMAND_HANDLE'], names['COMMAND_HANDLE_MAX']
    for n, v in names.items():
        want = v if lo < v < hi else names['COMMAND_INTERFACE_ERROR']
        out['ack ' + n] = ('im_ack', lambda st, i, v=v: [C(i), v], lambda i, want=want: ('commandHandleReturn', C(i), want))
    for k in 'CM':
        out['return' + k] = ('im_return' + k, lambda st, i: [C(i), V(st, i)], lambda i: ('commandReturn', C(i), mk('payload', 'v%d' % i)))
        out['returnUnknown' + k] = ('im_return' + k, lambda st, i: [C(i), N(st, i)], lambda i: ('commandReturn', C(i), U))
    for b in (True, False):
        out['abort %s' % b] = ('im_abort', lambda st, i, b=b: [C(i), b], lambda i, b=b: ('commandAbortAcknowledge', C(i), b))
        out['update %s' % b] = ('im_update', lambda st, i, b=b: [U_(i), b], lambda i, b=b: ('updateAck', U_(i), b))
    out['message'] = ('im_message', lambda st, i: [G(i)], lambda i: ('messageReceived', G(i)))
    out['queueEmpty'] = ('im_empty', lambda st, i: [], lambda i: ('messageQueueEmpty',))
    out['accept'] = ('im_accept', lambda st, i: [G(i), H(st, i)], lambda i: ('assignMessageHandle', G(i), 'handle%d' % i))
    out['released'] = ('im_released', lambda st, i: [H(st, i)], lambda i: ('releaseMessageHandle', 'handle%d' % i))
    out['plan'] = ('im_plan', lambda st, i: [ptr(('O', 'xml', i))], lambda i: ('plan', ptr(('O', 'plan'))))
    out['mark'] = ('im_mark', lambda st, i: [], 'mark')
    for k, w, n in (('null ack', 'im_ack', 2), ('null return', 'im_returnC', 2), ('null abort', 'im_abort', 2), ('null update', 'im_update', 2),
                    ('null message', 'im_message', 1)):
        out[k] = (w, lambda st, i, k=k, n=n: [NULL] + ([V(st, i) if 'return' in k else True] if n > 1 else []), None)
    return out


def same(a, b):
    return len(a) == len(b) and all(x == y and (isinstance(x, bool) == isinstance(y, bool) or x in (0, 1)) for x, y in zip(a, b))


def run(P, rep):
    rep.rule('the interface manager interpreted over its real input queue: every history of posts of every kind (payloads opaque) '
             'followed by queue processing makes the matching calls, in posting order, with the payloads posted; entries are '
             'recycled between kinds; every input queue class delivers first-in first-out for every short operation history')
    I = AppI(P)
    K = posts(I)
    for w in {x[0] for x in K.values()}:
        if w not in I.W:
            raise AnalysisBroken('witness %s was not compiled' % w)
    st, im = I.one(State(), 'im_new', ptr(('O', 'app')), ptr(('O', 'cfg')))
    st.cls[('O', 'cfg')] = cfgclass(P)
    outs = [o for o in I.w(st, 'im_init', im) if o[2] is None]
    rep.check(len(outs) == 1 and outs[0][1] in (True, 1), 'queue', 'initialize', 'the interface manager has no input queue after initialisation')
    st = outs[0][0]
    n = 0
    kinds = sorted(K)
    short = [k for k in kinds if not k.startswith('ack ') or k in ('ack COMMAND_SUCCESS', 'ack NO_COMMAND_HANDLE')]
    hist = [(k,) for k in kinds] + [(a, b) for a in short for b in short] + [(a, '|', b) for a in short for b in short]
    if rep.tier == 'thorough':
        core = ['valueCC', 'valueMM', 'ack COMMAND_SUCCESS', 'returnM', 'update True', 'message', 'accept', 'released', 'plan', 'mark', 'null ack']
        hist += [(a, s, b, t, c) for a in core for b in core for c in core for s in ('', '|') for t in ('', '|')]
    hist += [(k, '|', '|', k, k, '|', k) for k in kinds] + [()]
    for h in hist:
        n += one(I, rep, st, im, K, [x for x in h if x])
    rep.floor('post histories', n, 300)
    queues(P, rep)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def cfgclass(P):
    c = [x for x in P.subclasses('PLEXIL::AdapterConfiguration') if x != 'PLEXIL::AdapterConfiguration']
    if len(c) != 1:
        raise AnalysisBroken('one adapter configuration class expected, found %s' % c)
    return c[0]


def one(I, rep, st0, im, K, h):
    s = clean(st0.fork())
    want, marks, pend = [], 0, []
    lab = ' '.join(h) or 'nothing'
    i = 0
    got = []
    for x in list(h) + ['|']:
        if x == '|':
            r = I.w(clean(s), 'im_process', im)
            if not rep.check(len(r) == 1 and r[0][2] is None, 'delivery', 'processing', 'posting %s: processing the queue ends in an error (%s)' %
                             (lab, r[0][2] if r else 'cut')):
                return 1
            s, v, _ = r[0]
            sinks = [e[1:] for e in s.trace if e[0] == 'sink']
            ok = len(sinks) == len(pend) and all(same(a, b) for a, b in zip(sinks, pend))
            bad = next((p[0] for p, g in zip(pend, sinks + [()] * len(pend)) if not same(p, g)), None) or (sinks[len(pend)][0] if len(sinks) > len(pend) else '')
            rep.check(ok, 'delivery', bad or 'ok', 'posting %s: the executive is given %s instead of %s' % (lab, brief(sinks), brief(pend)),
                      sample='%s: %s' % (lab, brief(sinks)))
            rep.check(bool(v) == any(p[0] != 'mark' for p in pend), 'step', 'processQueue', 'posting %s: processing reports %s' %
                      (lab, 'work to do' if v else 'nothing to do'))
            for e in s.trace:
                rep.check(e[0] != 'double-delete', 'payload', 'double', 'posting %s: a payload is released twice' % lab)
            pend = []
            balance(rep, s, lab)
            continue
        wname, build, exp = K[x]
        args = build(s, i)
        r = I.w(clean(s), wname, im, *args)
        if not rep.check(len(r) == 1 and r[0][2] is None, 'post', x, 'posting %s ends in an error (%s)' % (x, r[0][2] if r else 'cut')):
            return 1
        s, v, _ = r[0]
        rep.check(not any(e[0] == 'sink' for e in s.trace), 'post', x, 'posting %s acts on the executive directly' % x)
        balance(rep, s, lab)
        if exp == 'mark':
            marks += 1
            rep.check(v == marks, 'mark', 'markQueue', 'mark number %s is called %s' % (marks, v))
            pend.append(('mark', marks))
        elif exp is not None:
            pend.append(exp(i))
        i += 1
    left = [a for (k, a) in [x for x in s.aux if x[0] == 'live'] if ('dead', a) not in s.aux]
    rep.check(not left, 'payload', 'state', 'posting %s: %d state payloads are never released' % (lab, len(left)))
    return 1


def brief(xs):
    return [' '.join(str(getattr(a, 'addr', a)) for a in x)[:60] for x in xs]


def balance(rep, s, lab):
    held = []
    for e in s.trace:
        if e[0] in ('lock', 'trylock'):
            rep.check(e[1] not in held, 'lock', 'held', '%s: a lock already held is taken again' % lab)
            held.append(e[1])
        elif e[0] == 'unlock' and e[1] in held:
            held.remove(e[1])
    rep.check(not held, 'lock', 'kept', '%s: a lock is still held on return' % lab)


def queues(P, rep):
    """FIFO contract of each input queue class: every history of allocate-and-put, get, release, flush"""
    n = 0
    for w, cls in (('iq_serialized', 'SerializedInputQueue'), ('iq_simple', 'SimpleInputQueue')):
        I = AppI(P)
        if w not in I.W:
            raise AnalysisBroken('witness %s was not compiled' % w)
        st, q = I.one(State(), w)
        depth = 7 if rep.tier == 'thorough' else 5
        # model: queued entries, entries taken and not yet released
        todo = [((), st, [], [])]
        seen = set()
        while todo:
            lab, s, fifo, out = todo.pop()
            s2, e = I.one(clean(s.fork()), 'iq_empty', q)
            n += 1
            rep.check(bool(e) == (not fifo), 'fifo', cls + '|empty', '%s after %s: isEmpty answers %s with %d entries queued' % (cls, ' '.join(lab), e, len(fifo)))
            if len(lab) == depth:
                continue
            for op in ('put', 'get', 'release', 'flush'):
                if op == 'release' and not out or op == 'flush' and not fifo:
                    continue
                f, o = list(fifo), list(out)
                ls = ' '.join(lab + (op,))
                if op == 'put':
                    s2, ent = I.one(clean(s.fork()), 'iq_allocate', q)
                    rep.check(isinstance(ent, Ptr) and ent not in f and ent not in o, 'fifo', cls + '|allocate',
                              '%s after %s: an entry still in use is handed out again' % (cls, ls))
                    s2, _ = I.one(clean(s2), 'iq_put', q, ent)
                    balance(rep, s2, cls + ' put')
                    f.append(ent)
                elif op == 'get':
                    s2, ent = I.one(clean(s.fork()), 'iq_get', q)
                    balance(rep, s2, cls + ' get')
                    want = f.pop(0) if f else 0
                    rep.check(ent == want, 'fifo', cls + '|get', '%s after %s: get returns %s instead of the oldest entry' %
                              (cls, ls, 'nothing' if isconst(ent) else 'another entry'), sample='%s %s' % (cls, ls))
                    if want:
                        o.append(want)
                elif op == 'release':
                    s2, _ = I.one(clean(s.fork()), 'iq_release', q, o.pop(0))
                    balance(rep, s2, cls + ' release')
                else:
                    r = I.w(clean(s.fork()), 'iq_flush', q)
                    s2 = r[0][0]
                    balance(rep, s2, cls + ' flush')
                    f = []
                todo.append((lab + (op,), s2, f, o))
        rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    rep.floor('queue histories', n, 100)
