"""U02: messages and their waiting receivers are paired first-in first-out, without loss and without duplication."""
import itertools
import par
from lib_msg import *
from interp import Fn

MIN_OBLIGATIONS = 300
QUIET = ('wake',)


class Model:
    """what the queues of one map should hold"""
    def __init__(self):
        self.rq, self.mq, self.dup = {}, {}, True

    def copy(self):
        m = Model()
        m.rq = {k: list(v) for k, v in self.rq.items()}
        m.mq = {k: list(v) for k, v in self.mq.items()}
        m.dup = self.dup
        return m

    def pair(self, n):
        out = []
        r, q = self.rq.setdefault(n, []), self.mq.setdefault(n, [])
        while r and q:
            out.append((cmd(r.pop(0)), q.pop(0)))
        return out

    def recipient(self, n, c):
        self.rq.setdefault(n, []).append(c)
        return self.pair(n)

    def message(self, n, v):
        q = self.mq.setdefault(n, [])
        if not self.dup:
            del q[:]
        q.append(v)
        return self.pair(n)

    def allow(self, b):
        self.dup = b
        if not b:
            for q in self.mq.values():
                del q[:-1]
        return []

    def remove(self, c):
        for q in self.rq.values():
            q[:] = [x for x in q if x != c]
        return []


class Map:
    """one message queue map driven through its members"""
    def __init__(self, I, where):
        self.I, self.where = I, where
        P = I.P
        self.f = {'recipient': member(P, MQ, 'addRecipient', 2), 'message': member(P, MQ, 'addMessage', 1),
                  'value': member(P, MQ, 'addMessage', 2), 'allow': member(P, MQ, 'setAllowDuplicateMessages', 1)}
        st = State()
        for n in ('m', 'n', 'mm'):
            st.mem[('O', 'name', n)] = n
        self.a = ptr(('O', 'mqm'))
        st.cls[('O', 'mqm')] = MQ
        ctor = member(P, MQ, 'MessageQueueMap', 2, lambda f: 'MessageQueueMap &' not in f['key'])
        outs = I.start(ctor, st, self.a, [INTF, True])
        if len(outs) != 1 or outs[0][2]:
            raise AnalysisBroken('the constructor of the message queue map is not decided')
        self.st = clean(outs[0][0])

    def do(self, st, op, i):
        I = self.I
        s = clean(st.fork())
        nm = lambda n: ptr(('O', 'name', n))
        if op[0] == 'recipient':
            a = [nm(op[1]), cmd(i)]
        elif op[0] == 'message':
            a = [nm(op[1])]
        elif op[0] == 'value':
            v = ('O', 'v%d' % i)
            I.vset(s, v, mk('payload', 'v%d' % i))
            a = [nm(op[1]), ptr(v)]
        else:
            a = [op[1]]
        outs = I.start(self.f[op[0]], s, self.a, a)
        if op[0] == 'value':
            for o in outs:
                o[0].mem.pop(('F', ('O', 'v%d' % i), '$val'), None)      # the caller's value is gone afterwards
        return outs


def text(h):
    return '; '.join(('a receiver of "%s"' % o[1] if o[0] == 'recipient' else 'message "%s"' % o[1] if o[0] == 'message' else
                      'message "%s" with a value' % o[1] if o[0] == 'value' else 'duplicates %s' % ('allowed' if o[1] else 'disallowed')) for o in h)


def expected(m, op, i):
    if op[0] == 'recipient':
        return m.recipient(op[1], i)
    if op[0] == 'message':
        return m.message(op[1], op[1])
    if op[0] == 'value':
        return m.message(op[1], mk('payload', 'v%d' % i))
    return m.allow(op[1])


def judge(rep, rule, where, txt, outs, want):
    """exactly the expected deliveries, in order, then a wake-up when there was one"""
    if not rep.check(len(outs) == 1 and outs[0][2] is None, rule, where + ':end', '%s: %s ends in %s' %
                     (where, txt, 'an error' if outs and outs[0][2] else 'different ways for the same history')):
        return None
    s = outs[0][0]
    ev = [t for t in s.trace if t[0] in ('return', 'wake', 'bad', 'ack', 'abortack')]
    bad = [t for t in ev if t[0] == 'bad']
    rep.check(not bad, rule, where + ':empty', '%s: %s: %s' % (where, txt, bad[0][1] if bad else ''))
    got = [(t[1], t[2]) for t in ev if t[0] == 'return']
    ok = rep.check(got == want, rule, where + ':pairing', '%s: %s delivers %s instead of %s' % (where, txt, show(got), show(want)), sample=txt)
    if want:
        rep.check(ev and ev[-1][0] == 'wake', rule, where + ':wake', '%s: %s delivers a message without waking the executive afterwards' % (where, txt))
    return s if ok else None


def show(l):
    return ', '.join('%s to receiver %s' % (v[1] if isinstance(v, T) and len(v) > 1 else v, c.addr[2] if isinstance(c, Ptr) and len(c.addr) > 2 else c) for c, v in l) or 'nothing'


def run(P, rep):
    rep.rule('the message queue maps of every adapter interpreted over bounded histories of receivers, messages and changes of the duplicates '
             'setting: each step delivers exactly the messages a first-in first-out pairing delivers, to the receivers it names, once; '
             'the message adapter interpreted over bounded histories of messages and commands against a queue model, each command '
             'answered exactly once; a receiver whose command was aborted takes no message')
    vs = views(P, MQ)
    rep.floor('copies of the message queue map', len(vs), 1)
    for d, Q in vs:
        maps(Q, rep, os.path.basename(d))
    jobs = [lambda rep, Q=Q, d=d: receivers(Q, rep, os.path.basename(d)) for d, Q in vs] + [lambda rep: adapter(P, rep)]
    par.each(rep, MsgI(P), jobs)


def maps(P, rep, where):
    I = MsgI(P)
    M = Map(I, where)
    ops = [('recipient', 'm'), ('value', 'm'), ('message', 'm'), ('recipient', 'n'), ('value', 'n'), ('allow', False), ('allow', True)]
    depth = 6 if rep.tier == 'thorough' else 5

    def job(first):
        def go(rep):
            walk(rep, M.st, Model(), [], first, depth)
        return go

    def walk(rep, st, m, h, firsts, left):
        for op in (firsts or ops):
            if op[0] == 'allow' and h and h[-1][0] == 'allow':
                continue
            h2 = h + [op]
            m2 = m.copy()
            want = expected(m2, op, len(h2))
            s = judge(rep, 'U02-fifo', where, text(h2), M.do(st, op, len(h2)), want)
            if s is not None and left > 1:
                walk(rep, s, m2, h2, None, left - 1)
    par.each(rep, I, [job([o]) for o in ops])
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


# ------------------------------------------------------------------ the message adapter
MA = 'PLEXIL::MessageAdapterImpl'


class MaI(MsgI):
    def __init__(self, P):
        MsgI.__init__(self, P)
        self.reg = {}

    def on_call(self, st, ctx):
        if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'cfg'):
            if ctx.name == 'registerCommandHandlerFunction':
                fn = []
                for x in ctx.args[1:]:
                    if isinstance(x, Ptr):
                        x = st.mem.get(x.addr, x)
                    fn.append(x)
                n = ctx.args[0]
                if isinstance(n, Ptr):
                    n = self.rd(st, n, 'std::string')
                self.reg[n] = fn
                return [(st, None)]
            return [(st, None)]
        return MsgI.on_call(self, st, ctx)

    def on_delete(self, st, val, node):
        a = addr_of(val)
        if ('dead', a) in st.aux:
            st.ev('bad', 'a message is deleted twice')
        st.aux[('dead', a)] = True
        return VarI.on_delete(self, st, val, node)


class Ma:
    """the message adapter and what its queue should hold"""
    def __init__(self, P):
        I = self.I = MaI(P)
        st = State()
        self.a = ptr(('O', 'ma'))
        st.cls[('O', 'ma')] = MA
        st.mem[('O', 'cname')] = 'cmd'
        ctor = member(P, MA, MA.rsplit('::', 1)[-1], 2)
        outs = I.start(ctor, st, self.a, [INTF, ptr(('O', 'conf'))])
        if len(outs) != 1 or outs[0][2]:
            raise AnalysisBroken('the constructor of the message adapter is not decided')
        outs = I.start(member(P, MA, 'initialize', 1), outs[0][0], self.a, [ptr(('O', 'cfg'))])
        if len(outs) != 1 or outs[0][2]:
            raise AnalysisBroken('the initialisation of the message adapter is not decided')
        self.st = clean(outs[0][0])
        for n in ('GetMessageHandle', 'ReleaseMessageHandle', 'PublishMessage', 'SendMessage'):
            if n not in I.reg or not isinstance(I.reg[n][0], Fn):
                raise AnalysisBroken('no handler registered for %s' % n)
        self.rx = {n: member(P, MA, n, k) for n, k in (('receiveMessage', 2), ('receiveMessageAnonymously', 1))}

    def receive(self, st, i, sender):
        s = clean(st.fork())
        a = ('O', 'msg', i)
        s.mem[('F', a, '$state')] = mk('payload', 'm%d' % i)
        if sender:
            s.mem[('O', 'sender')] = 'from %d' % i
            return self.I.start(self.rx['receiveMessage'], s, self.a, [ptr(('O', 'sender')), ptr(a)])
        return self.I.start(self.rx['receiveMessageAnonymously'], s, self.a, [ptr(a)])

    def command(self, st, name, i, vals):
        s = clean(st.fork())
        self.I.args(s, i, vals)
        return self.I.call_value(s, self.I.reg[name][0], [cmd(i), INTF], {'k': 'Call', 'a': [], 't': 'void', 'ln': 0}, ())

    def message(self, st, p):
        """(content, sender) of a message object"""
        if not isinstance(p, Ptr) or ('dead', p.addr) in st.aux:
            return None
        return st.mem.get(('F', ('F', p.addr, 'message'), '$state')), st.mem.get(('F', p.addr, 'sender'))


STR_ = 'STRING_TYPE'


def answered(rep, key, txt, outs, handle, I):
    """one acknowledgement of the command, then a wake-up; -> (state, events) or None"""
    if not rep.check(len(outs) == 1 and outs[0][2] is None, 'U02-adapter', key + ':end', '%s ends in %s' %
                     (txt, 'an error' if outs and outs[0][2] else 'different ways')):
        return None
    s = outs[0][0]
    ev = [t for t in s.trace if t[0] in ('return', 'wake', 'bad', 'ack', 'abortack', 'received', 'none', 'accepted', 'released', 'intf')]
    bad = [t for t in ev if t[0] == 'bad']
    rep.check(not bad, 'U02-adapter', key + ':access', '%s: %s' % (txt, bad[0][1] if bad else ''))
    acks = [t for t in ev if t[0] == 'ack']
    if handle is not None:
        nm = {v: k for k, v in I.handles.items()}
        rep.check([t[2] for t in acks] == [I.handles[handle]], 'U02-adapter', key + ':answer', '%s is answered with %s instead of %s' %
                  (txt, ' and '.join(str(nm.get(t[2], t[2])) for t in acks) or 'nothing', handle), sample=txt)
        rep.check(not acks or any(t[0] == 'wake' for t in ev[ev.index(acks[-1]):]), 'U02-adapter', key + ':wake',
                  '%s is answered without waking the executive afterwards' % txt)
    return s, ev


def adapter(P, rep):
    M = Ma(P)
    I = M.I
    KNOWN, UNK, INT = (STR_, 'text'), (STR_, U), ('INTEGER_TYPE', 3)
    # ---- each command with every list of parameters
    for name, need in (('ReleaseMessageHandle', 1), ('PublishMessage', 1), ('SendMessage', 2)):
        lists = [l for n in range(need + 1) for l in itertools.product((KNOWN, UNK, INT), repeat=n)]
        if need == 1:
            lists = [l for l in lists] + [(KNOWN, KNOWN)] * (name != 'ReleaseMessageHandle')
        else:
            lists += [(KNOWN, KNOWN, INT)]
        for l in lists:
            good = len(l) >= need and all(x[0] == STR_ for x in l[:need])
            known = good and all(x[1] != U for x in l[:need])
            h = 'COMMAND_SUCCESS' if known or good and name == 'ReleaseMessageHandle' else 'COMMAND_FAILED'
            txt = '%s with %s' % (name, ', '.join('an integer' if x is INT else 'a text' if x is KNOWN else 'an unknown text' for x in l) or 'no parameters')
            r = answered(rep, name, txt, M.command(M.st, name, 1, l), h, I)
            if r and name == 'ReleaseMessageHandle':
                rel = [t[1] for t in r[1] if t[0] == 'released']
                rep.check(rel == (['text'] if known else []), 'U02-adapter', name + ':handle', '%s releases %s' % (txt, rel or 'nothing'))
    # ---- histories of messages and accepting commands
    ops = ('message', 'anonymous', 'get')
    depth = 7 if rep.tier == 'thorough' else 6

    def walk(st, q, peek, used, h):
        for op in ops:
            h2 = h + (op,)
            i = len(h2)
            txt = 'after %s, ' % ', '.join(h) + op if h else op
            q2, used2 = list(q), used
            if op == 'get':
                r = answered(rep, 'GetMessageHandle', txt, M.command(st, 'GetMessageHandle', i, []), 'COMMAND_SUCCESS', I)
            else:
                r = answered(rep, 'receive', txt, M.receive(st, i, op == 'message'), None, I)
                q2.append((mk('payload', 'm%d' % i), 'from %d' % i if op == 'message' else ''))
            if not r:
                continue
            s, ev = r
            if op == 'get':
                ret = [t for t in ev if t[0] == 'return']
                acc = [t for t in ev if t[0] == 'accepted']
                if not q:
                    rep.check([t[1:] for t in ret] == [(cmd(i), U)] and not acc, 'U02-adapter', 'empty', '%s with no message waiting returns %s' % (txt, ret))
                else:
                    q2.pop(0)
                    m = M.message(s, acc[0][1]) if len(acc) == 1 else None
                    hd = acc[0][2] if len(acc) == 1 else None
                    rep.check(m == q[0], 'U02-adapter', 'accept', '%s hands over %s instead of the oldest message %s' % (txt, m, q[0]))
                    rep.check(len(ret) == 1 and ret[0][1] == cmd(i) and ret[0][2] == hd and hd not in ('', U, None), 'U02-adapter', 'handle',
                              '%s returns %r as the handle of a message handed over under %r' % (txt, ret[0][2] if ret else None, hd))
                    rep.check(hd not in used, 'U02-adapter', 'reuse', '%s hands a message over under the handle %r of an earlier one' % (txt, hd))
                    rep.check(not (acc and ret) or ev.index(acc[0]) < ev.index(ret[0]), 'U02-adapter', 'order', '%s returns the handle before the message is handed over' % txt)
                    used2 = used + (hd,)
            p2 = peek
            for t in ev:
                if t[0] == 'received':
                    p2 = M.message(s, t[1])
                elif t[0] == 'none':
                    p2 = None
            want = q2[0] if q2 else None
            rep.check(p2 == want, 'U02-adapter', 'head', '%s leaves %s announced as the oldest message instead of %s' % (txt, p2, want))
            rep.check(p2 == peek or any(t[0] == 'wake' for t in ev), 'U02-adapter', 'head-wake', '%s announces a message without waking the executive' % txt)
            if i < depth:
                walk(s, q2, p2, used2, h2)
    walk(M.st, [], None, (), ())
    # ---- messages left at the end are given back once
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


# ------------------------------------------------------------------ receivers that are aborted or refused
class AdI(MaI):
    """an adapter with a message queue map; names given to the map are noted"""
    def on_call(self, st, ctx):
        if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'cfg') and ctx.name == 'registerCommandHandler' and len(ctx.args) == 2:
            n = ctx.args[1]
            if isinstance(n, Ptr):
                n = self.rd(st, n, 'std::string')
            p = ctx.args[0]
            if isinstance(p, Ptr):
                p = st.mem.get(('F', p.addr, '$p'), p)
            self.reg[n] = p
            return [(st, None)]
        if (ctx.cls or '').startswith('pugi::'):
            if ctx.name == ctx.cls.split('::')[-1]:
                return [(st, ctx.this)]
            return [(st, ctx.args[0] if ctx.name.startswith('as_') and ctx.args else ctx.name in ('empty', 'operator!'))]
        if ctx.cls == 'PLEXIL::InterfaceAdapter' and ctx.name == 'configuration':
            return [(st, ptr(('O', 'conf')))]
        if ctx.cls == MQ and ctx.name == 'addRecipient':
            st.aux['queue name'] = self.rd(st, ctx.args[0], 'std::string')
        if ctx.cls == 'PLEXIL::InterfaceAdapter' and ctx.name not in ('InterfaceAdapter', 'getInterface'):
            return [(st, mk('conf', ctx.name))]
        if ctx.key.startswith('PLEXIL::defaultAbortCommandHandler') or ctx.name == 'print_buffer':
            return None
        return MaI.on_call(self, st, ctx)

    def sget(self, st, x):
        return st.mem.get(('F', addr_of(x), '$state')) or mk('state of', addr_of(x))

    def map_key(self, st, v, kt):
        import models
        if 'basic_string' in kt or kt.startswith('std::string'):
            x = models.strval(self, st, v)
            return x if isinstance(x, str) or x is None else ('t', repr(x))
        return None


def quiet(I, st):
    for _, f in I.P.all_fields('PLEXIL::AdapterConf') if 'PLEXIL::AdapterConf' in I.P.classes else ():
        if f['t'] == 'bool':
            st.mem[('F', ('O', 'conf'), f['n'])] = False
        elif f['t'].startswith(('std::vector', 'std::set')):
            st.mem[('F', ('F', ('O', 'conf'), f['n']), '$len')] = 0
            st.mem[('F', ('F', ('O', 'conf'), f['n']), '$keys')] = ()


def receivers(P, rep, where):
    users = [c for c in P.classes if c != MQ and any(f.get('rec') == MQ or f['t'] == MQ for f in P.classes[c]['fields'])
             and os.path.basename(os.path.dirname(P.classes[c].get('file', ''))) == where]
    for c in users:
        receiver(P, rep, c)


def receiver(P, rep, cls):
    I = AdI(P)
    name = cls.split('::')[-1]
    st = State()
    a = ptr(('O', 'ad'))
    st.cls[('O', 'ad')] = cls
    st.mem[('O', 'cname')] = 'cmd'
    quiet(I, st)
    f = [x for x in P.classes[cls]['fields'] if x['t'] == MQ]
    if len(f) != 1:
        raise AnalysisBroken('%d message queue maps in %s' % (len(f), cls))
    q = ptr(('F', ('O', 'ad'), f[0]['n']))
    ctor = member(P, MQ, 'MessageQueueMap', 2, lambda f: 'MessageQueueMap &' not in f['key'])
    st.cls[q.addr] = MQ
    st = I.start(ctor, st, q, [INTF, True])[0][0]
    outs = [o for o in I.start(member(P, cls, 'initialize', 1), clean(st), a, [ptr(('O', 'cfg'))]) if not o[2]]
    if not outs or not I.reg:
        raise AnalysisBroken('no command handlers registered by %s' % cls)
    st = clean(outs[0][0])
    N = {'k': 'Call', 'a': [], 't': 'void', 'ln': 0}

    def handler(s, h, which, c):
        """run the execute (0) or abort (1) part of a registered handler"""
        s = clean(s.fork())
        I.args(s, c, vals)
        if isinstance(h, Ptr):
            dyn = s.cls.get(h.addr)
            nm = ('executeCommand', 'abortCommand')[which]
            key = P.dispatch(dyn, 'PLEXIL::CommandHandler::%s(PLEXIL::Command *, PLEXIL::AdapterExecInterface *)' % nm) if dyn else None
            if key not in P.fns:
                raise AnalysisBroken('no %s of the handler of %s' % (nm, dyn))
            r = I.start(P.fns[key], s, h, [cmd(c), INTF])
        else:
            if len(h) <= which:
                raise AnalysisBroken('no abort function')
            r = I.call_value(s, h[which], [cmd(c), INTF], N, ())
        return [o for o in r if not o[2]]

    seen = 0
    add = member(P, MQ, 'addMessage', 2)

    def message(s, tag):
        s = clean(s.fork())
        v = ('O', 'v' + tag)
        I.vset(s, v, mk('payload', tag))
        n = s.aux['queue name']
        s.mem[('O', 'qname')] = n
        return [([t[1] for t in o[0].trace if t[0] == 'return'], o[0]) for o in I.start(add, s, q, [ptr(('O', 'qname')), ptr(v)])]

    for nm in sorted(I.reg, key=str):
        h = I.reg[nm]
        for vals in ([(STR_, 'm')], [(STR_, 'm'), ('INTEGER_TYPE', 0)]):
            for s in [o[0] for o in handler(st, h, 0, 1)]:
                if 'queue name' not in s.aux:
                    continue
                acks = [t[2] for t in s.trace if t[0] == 'ack']
                if acks == [I.handles['COMMAND_FAILED']]:
                    got = message(s, 'late')
                    seen += 1
                    rep.check(all(not g for g, _ in got), 'U02-receiver', '%s:%s:refused' % (name, nm),
                              '%s: a %s command answered COMMAND_FAILED still takes the next message' % (name, nm), sample='%s refused' % nm)
                    continue
                if acks != [I.handles['COMMAND_SENT_TO_SYSTEM']]:
                    continue
                SENT = [I.handles['COMMAND_SENT_TO_SYSTEM']]

                def more(s, c):
                    return [o[0] for o in handler(s, h, 0, c) if [t[2] for t in o[0].trace if t[0] == 'ack'] == SENT]
                for who in (1, 2, 3):
                    for s2 in [z for y in more(s, 2) for z in more(y, 3)]:
                        for s3 in [o[0] for o in handler(s2, h, 1, who)]:
                            if [t[2] for t in s3.trace if t[0] == 'abortack'] != [True]:
                                continue
                            seen += 1
                            want = [cmd(c) for c in (1, 2, 3) if c != who]
                            for g, s4 in message(s3, 'late'):
                                for g2, s5 in message(s4, 'later'):
                                    rep.check(g + g2 == want, 'U02-receiver', '%s:%s:aborted' % (name, nm),
                                              '%s: three %s commands wait for the same message and number %d is aborted: the next two messages go to %s, not to the '
                                              'other two in their order' % (name, nm, who, ' and '.join('number %d' % c for x in g + g2 for c in (1, 2, 3) if x == cmd(c)) or 'nobody'),
                                              sample='%s aborted' % nm)
    rep.floor('aborted or refused receivers of %s' % name, seen, 2)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
