"""The application object (its ExecApplication subclass) interpreted over recording parts: configuration, interface manager,
executive, listener hub, semaphores, thread and operating system calls answer as the analysis chooses."""
from lib_var import *

PARTS = {'PLEXIL::AdapterConfiguration': 'cfg', 'PLEXIL::InterfaceManager': 'mgr', 'PLEXIL::PlexilExec': 'exec', 'PLEXIL::ExecListenerHub': 'hub'}
SEM = 'PLEXIL::ThreadSemaphore'
OSCALLS = ('sigemptyset', 'sigfillset', 'sigaddset', 'pthread_sigmask', 'sigprocmask', 'sigaction', 'kill', 'getpid', 'sleep', 'usleep', 'raise', 'pthread_kill',
           'signal', 'nanosleep')


class AxI(VarI):
    run_statics = True
    semhook = posthook = None

    def __init__(self, P):
        VarI.__init__(self, P)
        self.ans = {}
        app = [c for c in P.subclasses('PLEXIL::ExecApplication') if c != 'PLEXIL::ExecApplication']
        if len(app) != 1:
            raise AnalysisBroken('one application class expected, found %s' % app)
        self.app = app[0]

    def part(self, cls):
        for b, w in PARTS.items():
            if cls == b or cls and self.P.is_a(cls, b):
                return w

    def answer(self, st, key, default):
        """a fixed answer, a list consumed call by call (its last one repeats), or a function of the state"""
        a = self.ans.get(key, default)
        if callable(a):
            return a(st)
        if isinstance(a, list):
            k = st.aux.get(('answered', key), 0)
            st.aux[('answered', key)] = k + 1
            return a[min(k, len(a) - 1)]
        return a

    def initial(self, st, a, typ):
        if a[0] == 'G' and a[1].endswith('g_exec'):
            return ptr(('O', 'exec'))
        return VarI.initial(self, st, a, typ)

    def on_call(self, st, ctx):
        nm, this, cls = ctx.name, ctx.this, ctx.cls
        if not cls and nm == 'makeAdapterConfiguration':
            return [(st, ptr(('O', 'cfg')))]
        if not cls and nm == 'makePlexilExec':
            return [(st, ptr(('O', 'exec')))]
        if isinstance(this, Ptr) and this.addr[0] == 'O' and this.addr[1] in PARTS.values():
            return self.partcall(st, ctx, this.addr[1])
        w = self.part(cls)
        if w:
            if nm == cls.split('::')[-1]:
                return [(st, this)]
            if nm.startswith('~'):
                return [(st, None)]
            return self.partcall(st, ctx, w)
        if cls == SEM and not nm.startswith(('Thread', '~')):
            which = this.addr[2] if isinstance(this, Ptr) and this.addr[0] == 'F' else this
            st.ev('sem', nm, which)
            if nm == 'wait' and self.semhook:
                return self.semhook(st)
            if nm == 'post' and self.posthook:
                return self.posthook(st)
            r = self.answer(st, ('sem', nm), 0)
            return [(st, r)]
        if cls == SEM:
            return [(st, this)]
        if cls == 'std::thread':
            if nm == 'thread':
                if not ctx.args:
                    st.mem[('F', addr_of(this), '$fn')] = 0
                elif isinstance(ctx.args[0], Ptr) and ('F', addr_of(ctx.args[0]), '$fn') in st.mem:
                    st.mem[('F', addr_of(this), '$fn')] = st.mem[('F', addr_of(ctx.args[0]), '$fn')]
                else:
                    st.ev('spawn', ctx.args[0])
                    st.mem[('F', addr_of(this), '$fn')] = ctx.args[0]
                return [(st, this)]
            if nm == 'operator=':
                st.mem[('F', addr_of(this), '$fn')] = st.mem.get(('F', addr_of(ctx.args[0]), '$fn'), 0)
                return [(st, this)]
            if nm == 'joinable':
                return [(st, st.mem.get(('F', addr_of(this), '$fn'), 0) != 0)]
            if nm in ('join', 'detach'):
                st.ev('thread', nm)
                st.mem[('F', addr_of(this), '$fn')] = 0
                return [(st, None)]
            if nm.startswith('~'):
                return [(st, None)]
        if not cls and nm in OSCALLS:
            st.ev('os', nm, *ctx.args[:2])
            return [(st, self.answer(st, ('os', nm), 0))]
        if cls and cls.startswith('pugi::'):
            if nm == cls.split('::')[-1]:
                return [(st, this)]
            return [(st, self.answer(st, ('xml', nm), mk('xml', nm)))]
        if not cls and nm in ('queryTime',) or nm == 'queryTime':
            return [(st, mk('now'))]
        return VarI.on_call(self, st, ctx)

    def partcall(self, st, ctx, w):
        nm = ctx.name
        st.ev('part', w, nm, *ctx.args)
        r = self.answer(st, (w, nm), True)
        if isinstance(r, list):
            return r
        if isinstance(r, tuple) and r and r[0] == 'throw':
            return [(st, None, ('thr', r[1], None))]
        return [(st, r)]

    def nested(self, st, w, *args):
        """another call made in the middle of the one being interpreted: its outcome states, with the caller's locals and trace"""
        keep = {k: v for k, v in st.mem.items() if k[0] in ('L', 'TMP')}
        tr, cnt = st.trace, dict(st.cnt)
        res = []
        for s, v, sig in self.w(clean(st.fork()), w, *args):
            sub = s.trace
            clean(s)
            s.mem.update(keep)
            s.trace, s.cnt = tr, {**cnt, **{k: x for k, x in s.cnt.items() if k and k[0] == 'N'}}
            res.append((s, v, sig, sub))
        return res

    def worker(self, st):
        """the thread started on the way to this state, run from here"""
        sp = [e for e in st.trace if e[0] == 'spawn']
        if len(sp) != 1:
            raise AnalysisBroken('%d threads started where one was expected' % len(sp))
        return lambda s: self.call_value(s, sp[0][1], [], {'k': 'Call'}, ('worker',))

    def ready(self, run=False):
        """an initialised application with interfaces started (and its worker thread)"""
        st, a = self.new()
        self.ans = {}
        for w, args in (('ax_initialize', [ptr(('O', 'xml'))]), ('ax_startInterfaces', [])) + ((('ax_run', []),) if run else ()):
            r = self.w(clean(st), w, a, *args)
            if len(r) != 1 or r[0][2] or r[0][1] not in (True, 1):
                raise AnalysisBroken('%s does not succeed when every part does' % w)
            st = r[0][0]
        if run:
            go = self.worker(st)
            return clean(st), a, go
        return clean(st), a

    def new(self):
        outs = self.w(State(), 'ax_new')
        if len(outs) != 1 or outs[0][2]:
            raise AnalysisBroken('the application object cannot be constructed (%d ways)' % len(outs))
        return clean(outs[0][0]), outs[0][1]


def parts(st, w=None):
    return [(e[1], e[2]) for e in st.trace if e[0] == 'part' and (w is None or e[1] == w)]
