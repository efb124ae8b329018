"""U03: a requested wake-up happens - the timebases and the time adapter over a recording clock and timer."""
import itertools
import par
from lib_var import *
from interp import Fn
from lib_msg import member

MIN_OBLIGATIONS = 300
NS = 10 ** 9
SLACK = 8000                         # each conversion of a deadline may cut off less than a microsecond
TB = 'PLEXIL::Timebase'
TA = 'PLEXIL::TimeAdapter'


class TbI(VarI):
    """clock and timers as a world: 'now' in ns; 'armed' absolute ns or None; 'period' ns"""
    run_statics = True
    concrete_bound = 200
    model_maps = True

    def __init__(self, P):
        VarI.__init__(self, P)
        self.oserr = None

    def w_(self, st, k, d=None):
        return st.aux.get(('world', k), d)

    def put(self, st, k, v):
        st.aux[('world', k)] = v

    def initial(self, st, a, typ):
        if a[0] == 'G' and a[1].endswith('s_instance'):
            return 0
        return VarI.initial(self, st, a, typ)

    def spec(self, st, p, sub, unit):
        """a timespec/timeval read as ns"""
        a = addr_of(p)
        if sub:
            a = ('F', a, sub)
        s = self.load(st, ('F', a, 'tv_sec'), 'long')
        n = self.load(st, ('F', a, 'tv_' + unit), 'long')
        if not (isinstance(s, int) and isinstance(n, int)):
            raise Broken('undecided time given to the operating system')
        return s * NS + n * (1 if unit == 'nsec' else 1000), n

    def arm(self, st, val, period, frac, unit, ab):
        if frac < 0 or frac >= (NS if unit == 'nsec' else NS // 1000) or val < 0:
            return [(st, -1)]                                   # EINVAL
        if not val:
            self.put(st, 'armed', None)
        else:
            self.put(st, 'armed', val if ab else val + self.w_(st, 'now'))
        self.put(st, 'period', period if val else 0)
        return [(st, 0)]

    def on_call(self, st, ctx):
        nm, args = ctx.name, ctx.args
        if not ctx.cls:
            if self.oserr == nm:
                return [(st, -1)]
            if nm in ('clock_gettime', 'gettimeofday'):
                p, unit = (args[1], 'nsec') if nm == 'clock_gettime' else (args[0], 'usec')
                now = self.w_(st, 'now')
                a = addr_of(p)
                st.mem[('F', a, 'tv_sec')] = now // NS
                st.mem[('F', a, 'tv_' + unit)] = now % NS // (1 if unit == 'nsec' else 1000)
                return [(st, 0)]
            if nm == 'timer_create':
                e = addr_of(args[1])
                k = [st.mem[x] for x in st.mem if root_of(x) == e and x[0] == 'F' and x[-1] in ('sigev_notify_function', '_function')]
                v = [st.mem[x] for x in st.mem if root_of(x) == e and x[0] == 'F' and x[-1] == 'sival_ptr']
                if len(k) != 1 or len(v) != 1:
                    raise Broken('timer notification not found')
                self.put(st, 'handler', (k[0], v[0]))
                self.put(st, 'timer', True)
                return [(st, 0)]
            if nm == 'timer_delete':
                self.put(st, 'timer', False)
                self.put(st, 'armed', None)
                return [(st, 0)]
            if nm == 'timer_settime':
                if not self.w_(st, 'timer'):
                    return [(st, -1)]
                v, f = self.spec(st, args[2], 'it_value', 'nsec')
                p, f2 = self.spec(st, args[2], 'it_interval', 'nsec')
                if not isinstance(args[1], int):
                    raise Broken('undecided timer flags')
                return self.arm(st, v, p, f, 'nsec', bool(args[1] & 1))
            if nm == 'setitimer':
                v, f = self.spec(st, args[1], 'it_value', 'usec')
                p, f2 = self.spec(st, args[1], 'it_interval', 'usec')
                return self.arm(st, v, p, f, 'usec', False)
            if nm == 'sigaction':
                a = addr_of(args[1])
                h = [st.mem.get(x) for x in st.mem if x[0] == 'F' and x[-1] == 'sa_handler' and root_of(x) == a]
                self.put(st, 'handler', (h[0], None) if h and isinstance(h[0], Fn) else None)
                return [(st, 0)]
            if nm in ('sigemptyset', 'sigaddset', 'sigfillset', 'sigdelset'):
                return [(st, 0)]
            if nm == 'makeTimebase':
                return self.make_tb(st, ctx)
            if nm == 'modf' and isinstance(args[0], float):
                import math
                f, i = math.modf(args[0])
                st.mem[addr_of(args[1])] = i
                return [(st, f)]
            if nm in ('floor', 'ceil', 'round', 'trunc', 'lround', 'llround') and isinstance(args[0], (int, float)):
                import math
                x = float(args[0])
                v = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(nm, lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1))(x)
                return [(st, int(v) if nm.startswith('l') else float(v))]
        if ctx.cls and ctx.cls.startswith('pugi::'):
            return [(st, ctx.this if ctx.name == ctx.cls.split('::')[-1] else False)]
        if ctx.cls == 'PLEXIL::InterfaceAdapter' and nm == 'getXml':
            return [(st, ptr(('O', 'xml')))]
        if ctx.cls == 'PLEXIL::InterfaceAdapter' and nm == 'getInterface':
            return [(st, ptr(('O', 'intf')))]
        if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'cfg'):
            if nm == 'registerLookupHandler':
                p = args[0]
                st.aux['handler object'] = st.mem.get(('F', p.addr, '$p'), p) if isinstance(p, Ptr) else p
            return [(st, None)]
        if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'intf'):
            st.ev('wake' if nm == 'notifyOfExternalEvent' else 'intf', nm, self.w_(st, 'now'))
            return [(st, None)]
        if isinstance(ctx.this, Ptr) and ctx.this.addr == ('O', 'rcvr') and nm == 'update':
            st.ev('time', args[0])
            return [(st, None)]
        return VarI.on_call(self, st, ctx)

    def make_tb(self, st, ctx):
        a = ptr(('O', 'tb'))
        if self.tbclass is None:
            return [(st, 0)]
        st.cls[a.addr] = self.tbclass
        out = []
        for s, v, sig in self.start(self.ctor, st, a, [ctx.args[1]]):
            out.append((s, a, sig) if sig else (s, a))
        return out


def root_of(a):
    while isinstance(a, tuple) and a and a[0] in ('F', 'I'):
        a = a[1]
    return a


class World:
    def __init__(self, P, cls):
        I = self.I = TbI(P)
        self.cls = cls
        I.tbclass = cls
        if cls:
            I.ctor = member(P, cls, cls.rsplit('::', 1)[-1], 1, lambda f: cls + ' &' not in f['key'])
        st = State()
        I.put(st, 'now', 1000 * NS + NS // 4)
        self.ta, self.tb = ptr(('O', 'ta')), ptr(('O', 'tb'))
        st.cls[('O', 'ta')] = TA
        r = I.start(member(P, TA, TA.rsplit('::', 1)[-1], 2), st, self.ta, [ptr(('O', 'intf')), ptr(('O', 'conf'))])
        self.init = I.start(member(P, TA, 'initialize', 1), clean(r[0][0]), self.ta, [ptr(('O', 'cfg'))])
        self.f = {n: member(P, TA, n, 0) for n in ('start', 'stop')}
        if cls:
            for n, k in (('setTimer', 1), ('setTickInterval', 1), ('getTime', 0)):
                key = P.dispatch(cls, '%s::%s(%s)%s' % (TB, n, {'setTimer': 'double', 'setTickInterval': 'unsigned int'}.get(n, ''),
                                                        ' const' if n == 'getTime' else ''))
                if key not in P.fns:
                    raise AnalysisBroken('%s has no %s' % (cls, n))
                self.f[n] = P.fns[key]

    def call(self, st, n, *a):
        return self.I.start(self.f[n], clean(st.fork()), self.ta if n in ('start', 'stop') else self.tb, list(a))

    def lookup(self, st, n, *a):
        h = st.aux['handler object']
        cls = st.cls.get(addr_of(h))
        c = [m for k, m in self.I.P.fns.items() if m.get('cls') == cls and m['n'] == n and len(m['params']) == len(a) and
             (n != 'setThresholds' or 'double' in k or 'Real' in k)]
        if len(c) != 1:
            raise AnalysisBroken('%s of the time lookup handler not found' % n)
        return self.I.start(c[0], clean(st.fork()), h, list(a))

    def fire(self, st):
        """the timer expires now"""
        I = self.I
        s = clean(st.fork())
        h = I.w_(s, 'handler')
        p = I.w_(s, 'period')
        I.put(s, 'armed', I.w_(s, 'now') + p if p else None)
        if not h:
            return [(s, None, ('thr', 'killed by an unhandled signal', None))]
        f, v = h
        return I.call_value(s, f, [v if v is not None else 14], {'k': 'Call', 'a': [], 't': 'void', 'ln': 0}, ())


def run(P, rep):
    rep.rule('the timebases interpreted under the time adapter over a clock and timer world: after every operation of every bounded history '
             'of requested deadlines, passing time, early expiries, stops and restarts, a deadline still ahead has the timer armed for it, one '
             'reached has woken the executive; tick mode arms the period asked for; failures of the operating system are reported')
    tbs = sorted(c for c in P.subclasses(TB) if c != TB and not P.cls(c).get('abstract') and
                 any(f.get('cls') == c and f['n'] == 'setTimer' for f in P.fns.values()))
    rep.floor('timebases', len(tbs), 1)
    jobs = []
    for c in tbs:
        jobs += [lambda rep, c=c: ticks(P, rep, c), lambda rep, c=c: errors(P, rep, c)]
        jobs += [lambda rep, c=c, i=i: deadlines(P, rep, c, i) for i in range(6)]
    par.each(rep, TbI(P), jobs)


def short_(c):
    return c.rsplit('::', 1)[-1]


D0 = 1000.25                                                # the clock's first reading
DEAD = (D0 + 0.5, D0 + 2.75, D0 + 1e-5, D0, D0 - 0.25, D0 + 2.0 ** -17)


def begin(W, rep, c):
    st = W.init[0][0]
    if not rep.check(len(W.init) == 1 and not W.init[0][2] and W.init[0][1] in (True, 1), 'U03-start', short_(c) + ':initialize',
                     'the time adapter cannot be initialised with %s' % short_(c)):
        return None
    r = W.call(st, 'start')
    if not rep.check(len(r) == 1 and not r[0][2] and r[0][1] in (True, 1), 'U03-start', short_(c) + ':start', '%s: the time adapter cannot be started' % short_(c)):
        return None
    return clean(r[0][0])


def deadlines(P, rep, c, part):
    W = World(P, c)
    I = W.I
    s0 = begin(W, rep, c)
    if s0 is None:
        return
    name = short_(c)
    ops = [('set', d) for d in DEAD[:3]] + [('past',), ('now',), ('wait',), ('step',), ('early',), ('restart',)]
    depth = 6 if rep.tier == 'thorough' else 5
    first = [('set', DEAD[0]), ('set', DEAD[1]), ('set', DEAD[2]), ('past',), ('now',), ('restart',)][part]

    def walk(st, due, h):
        """due: the deadline asked for last and not yet reached, ns"""
        for op in ([first] if not h else ops):
            now = I.w_(st, 'now')
            armed = I.w_(st, 'armed')
            h2 = h + (op,)
            s = st.fork()
            d2 = due
            must = None
            if op[0] in ('set', 'past', 'now'):
                x = now / NS
                d = op[1] - D0 + x if op[0] == 'set' else x - 0.25 if op[0] == 'past' else x
                r = W.lookup(s, 'setThresholds', ptr(('O', 'state')), d, -1.0) if len(h) % 2 else W.call(s, 'setTimer', d)
                d2 = int(d * NS)
                if op[0] == 'set':
                    d2 = round(d * NS)
                if d2 <= now:
                    must, d2 = 'a deadline not ahead of now', None
            elif op[0] in ('wait', 'step', 'early'):
                if armed is None or op[0] == 'early' and due is None:
                    continue
                if op[0] == 'early':
                    t = now + (armed - now) // 2
                elif op[0] == 'step':
                    t = armed + 1500
                else:
                    t = armed + NS // 8
                I.put(s, 'now', max(t, now))
                if due is not None and t + SLACK >= due:
                    d2 = None
                r = W.fire(s)
                must = 'the timer expired'
            else:
                r = W.call(s, 'stop')
                if ok(rep, r, name, h2, W):
                    if not rep.check(I.w_(r[0][0], 'armed') is None, 'U03-stop', name + ':stop', '%s: %s leaves the timer armed' % (name, say(h2))):
                        continue
                    r = W.call(clean(r[0][0]), 'start')
                else:
                    continue
                d2 = None
            if not ok(rep, r, name, h2, W):
                continue
            s = r[0][0]
            wakes = [t for t in s.trace if t[0] == 'wake']
            if must:
                a = I.w_(s, 'armed')
                rep.check(wakes or 'deadline' in must and a is not None and a <= now + 1000, 'U03-wake', name + ':' + ('past' if 'deadline' in must else 'expiry'),
                          '%s: %s: %s but the executive is not woken' % (name, say(h2), must), sample='%s: %s' % (name, say(h2)))
            a = I.w_(s, 'armed')
            if d2 is not None:
                rep.check(a is not None and abs(a - d2) <= SLACK, 'U03-armed', name + ':' + op[0],
                          '%s: %s leaves the timer %s, the wake-up for %.9f is lost' %
                          (name, say(h2), 'off' if a is None else 'set to %.9f' % (a / NS), d2 / NS), sample='%s: %s' % (name, say(h2)))
                if a is None or abs(a - d2) > SLACK:
                    continue
            if len(h2) < depth:
                walk(clean(s), d2, h2)
    walk(s0, None, ())
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def ok(rep, r, name, h, W):
    return rep.check(len(r) == 1 and not r[0][2], 'U03-end', '%s:%s' % (name, h[-1][0]), '%s: %s ends in %s' %
                     (name, say(h), r[0][2][1] if r and r[0][2] else 'different ways'))


def say(h):
    return ', '.join('a deadline in %g s' % (o[1] - D0) if o[0] == 'set' else {'past': 'a deadline in the past', 'now': 'a deadline of just now', 'wait': 'the timer expires',
                     'step': 'the timer expires at once when due', 'early': 'the timer expires early', 'restart': 'a stop and a start'}[o[0]] for o in h)


def ticks(P, rep, c):
    name = short_(c)
    for us in (1, 999, 100000, 999999, 1000000, 1500000, 4294967, 4294968, 60000000, 536870912, 4294967295):
        W = World(P, c)
        I = W.I
        if W.init[0][2]:
            continue
        r = W.call(W.init[0][0], 'setTickInterval', us)
        if not ok(rep, r, name, (('set', D0),), W):
            return
        st = clean(r[0][0])
        for again in (0, 1):
            r = W.call(st, 'start')
            if not rep.check(len(r) == 1 and not r[0][2] and r[0][1] in (True, 1), 'U03-tick', '%s:start' % name, '%s: a start with a tick of %d us fails' % (name, us)):
                break
            st = clean(r[0][0])
            a, p = I.w_(st, 'armed'), I.w_(st, 'period')
            now = I.w_(st, 'now')
            rep.check(a is not None and 0 < a - now <= us * 1000 and p == us * 1000, 'U03-tick', '%s:period%s' % (name, ' after a restart' if again else ''),
                      '%s: %s a tick of %d us sets the timer to %s, then every %s ns' %
                      (name, 'after a restart,' if again else '', us, 'off' if a is None else '%d ns' % (a - now), p), sample='%s: tick %d us' % (name, us))
            if a is None:
                break
            r = W.call(st, 'setTimer', now / NS + 0.5)
            if ok(rep, r, name, (('set', D0 + .5),), W):
                rep.check(I.w_(r[0][0], 'armed') == a and I.w_(r[0][0], 'period') == p, 'U03-tick', '%s:deadline' % name, '%s: a deadline stops the ticks' % name)
                st = clean(r[0][0])
            I.put(st, 'now', a)
            r = W.fire(st)
            if ok(rep, r, name, (('wait',),), W):
                rep.check(any(t[0] == 'wake' for t in r[0][0].trace), 'U03-tick', '%s:wake' % name, '%s: a tick does not wake the executive' % name)
                st = clean(r[0][0])
                rep.check(I.w_(st, 'period') == p and I.w_(st, 'armed') == a + p, 'U03-tick', '%s:next' % name, '%s: a tick stops or moves the next one' % name)
            r = W.call(st, 'stop')
            if not ok(rep, r, name, (('restart',),), W):
                break
            st = clean(r[0][0])
            rep.check(I.w_(st, 'armed') is None, 'U03-stop', '%s:ticks' % name, '%s: ticks go on after a stop' % name)
    rep.fn(*[k for k in W.I.analysed if not k.startswith('witness::')])


def errors(P, rep, c):
    """a timer or clock that cannot be had is reported: start answers false, a request raises an error"""
    name = short_(c)
    W = World(P, c)
    I = W.I
    for us in (0, 1000):
        for e in ('timer_create', 'timer_settime', 'setitimer', 'sigaction'):
            W = World(P, c)
            I = W.I
            st = W.init[0][0]
            if us:
                st = clean(W.call(st, 'setTickInterval', us)[0][0])
            I.oserr = e
            r = W.call(st, 'start')
            I.oserr = None
            good = [o for o in r if not o[2] and o[1] in (True, 1)]
            rep.check(all(I.w_(o[0], 'handler') and (not us or I.w_(o[0], 'armed') is not None) for o in good), 'U03-error', '%s:start' % name,
                      '%s: a start with failing %s claims to have succeeded' % (name, e), sample='%s: %s fails' % (name, e))
            # once the system is able again, a start works or says that it does not
            for o in r:
                if o[2] or o[1] in (True, 1):
                    continue
                for o2 in W.call(clean(o[0]), 'start'):
                    rep.check(o2[2] or o2[1] in (False, 0) or I.w_(o2[0], 'handler') and (not us or I.w_(o2[0], 'armed') is not None), 'U03-error', '%s:again' % name,
                              '%s: a start after one with failing %s claims to have succeeded' % (name, e), sample='%s: a start after failing %s' % (name, e))
    for e in ('timer_settime', 'setitimer', 'clock_gettime', 'gettimeofday'):
        W = World(P, c)
        I = W.I
        st = begin(W, rep, c)
        if st is None:
            return
        I.oserr = e
        r = W.call(st, 'setTimer', D0 + 0.5)
        I.oserr = None
        for o in r:
            a = I.w_(o[0], 'armed')
            rep.check(o[2] or a is not None and abs(a - (D0 + .5) * NS) <= 1000 or any(t[0] == 'wake' for t in o[0].trace), 'U03-error', '%s:deadline' % name,
                      '%s: a deadline with failing %s is lost without an error' % (name, e))
    # the time told to lookups is the clock's
    W = World(P, c)
    st = begin(W, rep, c)
    r = W.lookup(st, 'lookupNow', ptr(('O', 'state')), ptr(('O', 'rcvr')))
    t = [x[1] for o in r for x in o[0].trace if x[0] == 'time']
    rep.check(t == [D0], 'U03-time', name + ':lookup', '%s: a lookup of the time answers %s at %s' % (name, t, D0))
    rep.fn(*[k for k in W.I.analysed if not k.startswith('witness::')])
