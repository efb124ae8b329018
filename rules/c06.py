"""C06: failures while constructing, initialising and starting the parts of an application are reported, never ignored."""
from itertools import product
from lib_app import *
from c05 import HubI, clean as _clean

MIN_OBLIGATIONS = 120
T = (True, 1)


def run(P, rep):
    rep.rule('the application object, adapter configuration, listener hub, listeners and main program interpreted with every '
             'combination of failing parts: the enclosing operation answers true exactly when every part did, each part is asked '
             'once, and nothing starts, runs or steps before the operations it needs have succeeded')
    I = AxI(P)
    application(I, rep)
    signals(I, rep)
    requests(I, rep)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
    components(P, rep)
    construct(P, rep)
    listener(P, rep)
    program(P, rep)


def ok(v):
    return v in T and not isinstance(v, Ptr)


def refused(outs):
    """the operation fails (an assertion or a false answer)"""
    return bool(outs) and all(sig is not None or not ok(v) for s, v, sig in outs)


STEPS = {'ax_initialize': [('cfg', 'constructInterfaces'), ('cfg', 'initialize'), ('hub', 'initialize'), ('mgr', 'initialize')],
         'ax_startInterfaces': [('cfg', 'start'), ('hub', 'start')]}


def application(I, rep):
    st, a = I.new()
    X = {'ax_initialize': [ptr(('O', 'xml'))]}
    for w in ('ax_startInterfaces', 'ax_step', 'ax_runExec', 'ax_run'):
        I.ans = {('exec', 'needsStep'): False, ('mgr', 'processQueue'): False}
        outs = I.w(clean(st.fork()), w, a)
        rep.check(all(sig is not None or w == 'ax_startInterfaces' and not ok(v) for s, v, sig in outs) and outs, 'order', w[3:] + ' first',
                  '%s on an application that was never initialised does not fail' % w[3:])
        rep.check(not any(e[0] == 'spawn' or e[0] == 'part' and e[2] in ('start', 'step') for s, v, sig in outs for e in s.trace), 'order', w[3:] + ' first',
                  '%s acts on an application that was never initialised' % w[3:])
    cur = st
    for w in ('ax_initialize', 'ax_startInterfaces'):
        steps = STEPS[w]
        for bad in product((False, True), repeat=len(steps)):
            I.ans = {k: not b for k, b in zip(steps, bad)}
            failing = ['%s %s' % k for k, b in zip(steps, bad) if b]
            outs = I.w(clean(cur.fork()), w, a, *X.get(w, []))
            lab = '%s with %s failing' % (w[3:], failing or 'nothing')
            if not rep.check(len(outs) == 1 and outs[0][2] is None, 'reported', w[3:], lab + ' has no decided outcome'):
                continue
            s, v, _ = outs[0]
            rep.check(ok(v) == (not failing), 'reported', w[3:] + ('|' + failing[0] if failing else ''), '%s answers %s' % (lab, bool(ok(v))), sample='%s: %s' % (lab, ok(v)))
            done = [e[1:3] for e in s.trace if e[0] == 'part']
            if not failing:
                rep.check(all(done.count(k) == 1 for k in steps), 'complete', w[3:], '%s succeeds after doing %s' % (w[3:], done))
                rep.check([k for k in done if k in steps] == sorted([k for k in done if k in steps], key=steps.index) or w != 'ax_initialize' or done.index(steps[0]) == 0,
                          'complete', w[3:], '%s initialises parts before they are constructed: %s' % (w[3:], done))
                nxt = s
            else:
                rep.check(all(done.count(k) <= 1 for k in steps), 'complete', w[3:], '%s asks a part twice: %s' % (lab, done))
                I.ans = {('exec', 'needsStep'): False, ('mgr', 'processQueue'): False}
                for after in (['ax_startInterfaces'] if w == 'ax_initialize' else []) + ['ax_step', 'ax_runExec', 'ax_run']:
                    outs = I.w(clean(s.fork()), after, a)
                    rep.check(refused(outs) and not any(e[0] == 'spawn' or e[0] == 'part' and e[2] in ('start', 'step') for x in outs for e in x[0].trace),
                              'order', after[3:], '%s proceeds although %s' % (after[3:], lab))
        cur = nxt
        I.ans = {k: False for k in steps}
        s, v = I.one(clean(cur.fork()), w, a, *X.get(w, []))
        rep.check(ok(v) and not any(e[0] == 'part' for e in s.trace), 'complete', w[3:] + ' again', 'a second %s repeats the first' % w[3:])
    # stop ends what start began: nothing runs after it without initialising again
    I.ans = {}
    for s, v, sig in I.w(clean(cur.fork()), 'ax_stop', a):
        done = [e[1:3] for e in s.trace if e[0] == 'part']
        rep.check(sig is None and done.count(('cfg', 'stop')) == 1 and done.count(('hub', 'stop')) == 1, 'stop', 'stop', 'stop() stops %s' % done)
        for after in ('ax_startInterfaces', 'ax_run'):
            rep.check(refused(I.w(clean(s.fork()), after, a)), 'order', after[3:] + ' after stop', '%s succeeds after stop()' % after[3:])


def signals(I, rep):
    """operating system calls that prepare the threads"""
    st, a = I.ready()
    I.ans = {}
    good = I.w(clean(st.fork()), 'ax_run', a)
    rep.check(len(good) == 1 and good[0][2] is None and ok(good[0][1]) and any(e[0] == 'spawn' for e in good[0][0].trace), 'reported', 'run',
              'run() does not start the executive when everything succeeds')
    n = sum(e[0] == 'os' for e in good[0][0].trace)
    for k in range(n):
        I.ans = failing(good[0][0].trace, k)
        for s, v, sig in I.w(clean(st.fork()), 'ax_run', a):
            call = [e for e in good[0][0].trace if e[0] == 'os'][k][1]
            rep.check((sig is not None or not ok(v)) and not any(e[0] == 'spawn' for e in s.trace), 'reported', 'run|' + call,
                      'run() starts the executive although %s failed' % call)
    go = I.worker(good[0][0])
    I.ans = {('sem', 'wait'): 1, ('mgr', 'processQueue'): False, ('exec', 'needsStep'): False}
    base = dict(I.ans)
    outs = go(clean(good[0][0].fork()))
    rep.check(len(outs) == 1 and any(e[:3] == ('part', 'exec', 'step') for e in outs[0][0].trace), 'reported', 'worker', 'the worker does not step the executive')
    tr = outs[0][0].trace
    calls = [e for e in tr if e[0] == 'os']
    for k in range(len(calls)):
        if calls[k][1] == 'sigemptyset' and k > 0:
            continue               # clearing the mask of the handler: cannot fail for a valid address, and nothing depends on its result
        I.ans = dict(base, **{})
        I.ans.update(failing(tr, k))
        for s, v, sig in go(clean(good[0][0].fork())):
            rep.check(not any(e[:3] == ('part', 'exec', 'step') for e in s.trace), 'reported', 'worker|' + calls[k][1],
                      'the worker runs the executive although %s failed' % calls[k][1], sample='worker, call %d %s failing' % (k, calls[k][1]))


def failing(tr, k):
    """answers making the k-th operating system call fail"""
    calls = [e[1] for e in tr if e[0] == 'os']
    nm = calls[k]
    i = calls[:k].count(nm)
    return {('os', nm): [0] * i + [-1, 0]}


def requests(I, rep):
    st0, a, _ = I.ready(run=True)
    stopped, b = I.ready()
    doc = ptr(('O', 'doc'))
    for r in (True, False):
        I.ans = {('mgr', 'handleAddLibrary'): r}
        s, v = I.one(clean(st0.fork()), 'ax_addLibrary', a, doc)
        rep.check(ok(v) == r, 'reported', 'addLibrary', 'addLibrary answers %s when the library was %s' % (ok(v), 'added' if r else 'refused'))
        s.mem[('O', 'nm')] = 'lib'
        I.ans = {('mgr', 'handleLoadLibrary'): r}
        s, v = I.one(clean(s), 'ax_loadLibrary', a, ptr(('O', 'nm')))
        rep.check(ok(v) == r, 'reported', 'loadLibrary', 'loadLibrary answers %s when the library was %s' % (ok(v), 'found' if r else 'not found'))
    for w, k, args in (('ax_loadLibrary', 'handleLoadLibrary', [ptr(('O', 'nm'))]), ('ax_addPlan', 'handleAddPlan', [doc])):
        I.ans = {('mgr', k): ('throw', 'PLEXIL::ParserException'), ('xml', 'document_element'): mk('elt')}
        s0 = clean(st0.fork())
        s0.mem[('O', 'nm')] = 'lib'
        outs = I.w(s0, w, a, *args)
        rep.check(len(outs) == 1 and outs[0][2] is None and not ok(outs[0][1]), 'reported', w[3:] + '|parser', '%s does not answer false for a malformed plan' % w[3:])
    I.ans = {('xml', 'document_element'): mk('elt')}
    s, v = I.one(clean(st0.fork()), 'ax_addPlan', a, doc)
    rep.check(ok(v) and sum(e[1:3] == ('mgr', 'handleAddPlan') for e in s.trace if e[0] == 'part') == 1, 'reported', 'addPlan', 'addPlan does not hand the plan on and answer true')
    outs = I.w(clean(stopped.fork()), 'ax_addPlan', b, doc)
    rep.check(refused(outs), 'reported', 'addPlan|stopped', 'addPlan answers true although the executive is not running')


def components(P, rep):
    """every pattern of failing adapters and listeners"""
    I = HubI(P)
    for n in (0, 1, 2, 3):
        for bad in product((False, True), repeat=n):
            for phase in ('initialize', 'start'):
                s, c = I.one(State(), 'ac_new')
                s, _ = I.one(clean(s), 'ac_construct', c, ptr(('O', 'mgr')), ptr(('O', 'hub')))
                s, h = I.one(clean(s), 'hub_new')
                I.answers = {}
                objs = {'adapter': [], 'listener': []}
                for i in range(n):
                    s, x = I.one(clean(s), 'ac_adapter', ptr(('O', 'mgr')))
                    s, _ = I.one(clean(s), 'ac_addAdapter', c, x)
                    s, l = I.one(clean(s), 'hub_starter')
                    s, _ = I.one(clean(s), 'hub_add', h, l)
                    objs['adapter'].append(x)
                    objs['listener'].append(l)
                    for o in (x, l):
                        I.answers['initialize', o] = I.answers['start', o] = True
                        I.answers[phase, o] = not bad[i]
                for kind, w, whole in (('adapter', 'ac_' + phase, c), ('listener', 'hub_' + phase, h)):
                    outs = I.w(clean(s.fork()), w, whole)
                    lab = '%s of %d %s(s), failing %s' % (phase, n, kind, [i + 1 for i in range(n) if bad[i]])
                    if not rep.check(len(outs) == 1 and outs[0][2] is None, 'component', kind, lab + ': no decided outcome'):
                        continue
                    t, v, _ = outs[0]
                    rep.check(ok(v) == (not any(bad)), 'component', kind + '|' + phase, '%s: answers %s' % (lab, ok(v)), sample='%s: %s' % (lab, ok(v)))
                    asked = [e[2] for e in t.trace if e[0] == 'rec' and e[1] == phase]
                    rep.check(all(asked.count(o) <= 1 for o in objs[kind]) and (any(bad) or all(asked.count(o) == 1 for o in objs[kind])), 'component', kind + '|asked',
                              '%s: not every %s is asked exactly once' % (lab, kind))
    # stopping reaches every component
    for n in (0, 1, 3):
        s, c = I.one(State(), 'ac_new')
        s, _ = I.one(clean(s), 'ac_construct', c, ptr(('O', 'mgr')), ptr(('O', 'hub')))
        s, h = I.one(clean(s), 'hub_new')
        xs, ls = [], []
        for i in range(n):
            s, x = I.one(clean(s), 'ac_adapter', ptr(('O', 'mgr')))
            s, _ = I.one(clean(s), 'ac_addAdapter', c, x)
            s, l = I.one(clean(s), 'hub_starter')
            s, _ = I.one(clean(s), 'hub_add', h, l)
            xs.append(x)
            ls.append(l)
        for w, whole, objs in (('ac_stop', c, xs), ('hub_stop', h, ls)):
            for t, v, sig in I.w(clean(s.fork()), w, whole):
                got = [e[2] for e in t.trace if e[0] == 'rec' and e[1] == 'stop']
                rep.check(sig is None and sorted(map(str, got)) == sorted(map(str, objs)), 'stop', w, 'stopping %d component(s) stops %d of them' % (n, len(got)))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


class XmlI(HubI):
    """configuration XML as a concrete tree: nodes (tag, attributes, text, children)"""
    run_statics = True
    filterok = True

    def __init__(self, P):
        HubI.__init__(self, P)
        self.ans = {}
        self.tree = {}

    def node(self, st, a):
        return st.mem.get(('F', addr_of(a), '$x'))

    def at(self, path):
        n = self.tree['root']
        for i in path:
            n = n[3][i]
        return n

    def mknode(self, st, ctx, path):
        a = ('TMP', ctx.node.get('ln') if ctx.node else 0, 'xml', st.count('xml'))
        st.cls[a] = 'pugi::xml_node'
        st.mem[('F', a, '$x')] = path
        return ptr(a)

    def on_call(self, st, ctx):
        nm, this, cls = ctx.name, ctx.this, ctx.cls
        if cls in ('pugi::xml_node', 'pugi::xml_attribute', 'pugi::xml_document'):
            if nm in (cls.split('::')[-1], 'operator='):
                st.mem[('F', addr_of(this), '$x')] = self.node(st, ctx.args[0]) if ctx.args and isinstance(ctx.args[0], Ptr) else None
                return [(st, this)]
            if nm.startswith('~'):
                return [(st, None)]
            p = self.node(st, this)
            if cls == 'pugi::xml_attribute':
                if nm in ('value', 'as_string'):
                    return [(st, self.cstr(p[1]) if p is not None else self.cstr(''))]
                if nm in ('empty', 'operator!'):
                    return [(st, p is None)]
                if nm in ('operator bool', 'operator pugi::xml_attribute::unspecified_bool_type') or nm.startswith('operator '):
                    return [(st, p is not None)]
            n = self.at(p) if p is not None else None
            if nm in ('empty', 'operator!'):
                return [(st, n is None)]
            if nm.startswith('operator ') and not ctx.args:
                return [(st, n is not None)]
            if nm == 'name':
                return [(st, self.cstr(n[0] if n else ''))]
            if nm in ('child_value', 'value'):
                return [(st, self.cstr(n[2] if n else ''))]
            if nm == 'attribute':
                k = self.text(st, ctx.args[0])
                a = self.mknode(st, ctx, ('attr', n[1][k]) if n and k in n[1] else None)
                return [(st, a)]
            if nm in ('child', 'first_child', 'first_element_by_path'):
                k = self.text(st, ctx.args[0]) if ctx.args else None
                i = next((i for i, c in enumerate(n[3]) if k is None or c[0] == k), None) if n else None
                return [(st, self.mknode(st, ctx, p + (i,) if i is not None else None))]
            if nm == 'next_sibling':
                k = self.text(st, ctx.args[0]) if ctx.args else None
                i = None
                if n:
                    sib = self.at(p[:-1])[3] if p else []
                    i = next((i for i in range(p[-1] + 1, len(sib)) if k is None or sib[i][0] == k), None) if p else None
                return [(st, self.mknode(st, ctx, p[:-1] + (i,) if i is not None else None))]
            if nm == 'document_element':
                return [(st, self.mknode(st, ctx, ()))]
        if not cls or 'Factory' in cls:
            if nm == 'createInstance':
                k = 'createInstance ' + ctx.key.split('(')[0].split('::')[-2]
                st.ev('make', k)
                return self.made(st, ctx, k)
        if isinstance(this, Ptr) and this.addr[:2] == ('O', 'made') and nm == 'initialize':
            st.ev('filter', this)
            return [(st, self.filterok)]
        if nm == 'dynamicLoadModule':
            st.ev('make', 'load', *[self.text(st, x) if not isinstance(x, int) else x for x in ctx.args[:1]])
            return [(st, self.ans.get('load', True))]
        if nm == 'parseCommaSeparatedArgs':
            return [(st, mk('paths'))]
        return HubI.on_call(self, st, ctx)

    def made(self, st, ctx, k):
        i = st.aux.get(('made', k), 0)
        st.aux[('made', k)] = i + 1
        good = self.ans.get(k, [True])
        good = good[min(i, len(good) - 1)]
        return [(st, ptr(('O', 'made', k, i)) if good else 0)]

    def cstr(self, t):
        return t

    def text(self, st, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Ptr) and v.addr in st.mem:
            return st.mem[v.addr]
        raise Broken('element or attribute name %s is not decided' % (v,))


def E(tag, attrs=None, text='', kids=()):
    return (tag, attrs or {}, text, tuple(kids))


def schema(P, name):
    """the value of an InterfaceSchema name"""
    for q, v in P.vars.items():
        if q.endswith('InterfaceSchema::' + name):
            t = v.get('init') or {}
            while isinstance(t, dict) and t.get('k') != 'Str':
                t = t.get('e') or (t.get('a') or [None])[0]
            if t:
                return t['v']
    raise AnalysisBroken('no InterfaceSchema name ' + name)


def construct(P, rep):
    """configuration elements: each adapter, listener and library that cannot be made fails the whole"""
    I = XmlI(P)
    N = {k: schema(P, k) for k in ('INTERFACES_TAG', 'ADAPTER_TAG', 'LISTENER_TAG', 'INTERFACE_LIBRARY_TAG', 'COMMAND_HANDLER_TAG', 'LOOKUP_HANDLER_TAG', 'NAME_ATTR',
                                   'ADAPTER_TYPE_ATTR', 'LISTENER_TYPE_ATTR', 'LIBRARY_NODE_PATH_TAG', 'PLAN_PATH_TAG')}
    mkel = {'adapter': lambda: E(N['ADAPTER_TAG'], {N['ADAPTER_TYPE_ATTR']: 'T'}), 'listener': lambda: E(N['LISTENER_TAG'], {N['LISTENER_TYPE_ATTR']: 'L'}),
            'library': lambda: E(N['INTERFACE_LIBRARY_TAG'], {N['NAME_ATTR']: 'lib'}), 'noname': lambda: E(N['INTERFACE_LIBRARY_TAG']),
            'emptyname': lambda: E(N['INTERFACE_LIBRARY_TAG'], {N['NAME_ATTR']: ''}), 'other': lambda: E('Unheard'),
            'nopath': lambda: E(N['LIBRARY_NODE_PATH_TAG']), 'noplan': lambda: E(N['PLAN_PATH_TAG'])}
    KEY = {'adapter': 'createInstance AdapterFactory', 'listener': 'createInstance ExecListenerFactory', 'library': 'load'}
    n = 0
    docs = [()] + [(x,) for x in mkel] + [(x, y) for x in mkel for y in mkel] + [('adapter', 'adapter', 'adapter'), ('listener', 'adapter', 'listener'), ('adapter', 'other', 'library')]
    for doc in docs:
        fall = [i for i, x in enumerate(doc) if x in KEY]
        for bad in [()] + [(i,) for i in fall] + ([tuple(fall)] if len(fall) > 1 else []):
            s, c = I.one(State(), 'ac_new')
            s, h = I.one(clean(s), 'hub_new')
            I.tree = {'root': E(N['INTERFACES_TAG'], kids=[mkel[x]() for x in doc])}
            I.ans = {}
            for k in set(KEY.values()):
                which = [i for i, x in enumerate(doc) if KEY.get(x) == k]
                if k == 'load':
                    I.ans[k] = not any(i in bad for i in which)
                else:
                    I.ans[k] = [i not in bad for i in which] or [True]
            x = ('O', 'xml')
            s.mem[('F', x, '$x')] = ()
            s.cls[x] = 'pugi::xml_node'
            outs = I.w(clean(s), 'ac_constructXml', c, ptr(x), ptr(('O', 'mgr')), h)
            want = not bad and 'noname' not in doc and 'emptyname' not in doc
            lab = 'configuration %s, failing %s' % (list(doc), list(bad))
            n += 1
            if rep.check(len(outs) == 1 and outs[0][2] is None, 'construct', 'outcome', lab + ': no decided outcome'):
                rep.check(ok(outs[0][1]) == want, 'construct', 'answer', '%s: construction answers %s' % (lab, ok(outs[0][1])), sample='%s: %s' % (lab, want))
                if want:
                    made = [e[1] for e in outs[0][0].trace if e[0] == 'make']
                    rep.check(sorted(made) == sorted(KEY[x] for x in doc if x in KEY), 'construct', 'all', '%s: makes %s' % (lab, made))
    I.tree = {'root': E('Wrong', kids=[mkel['adapter']()])}
    s, c = I.one(State(), 'ac_new')
    s, h = I.one(clean(s), 'hub_new')
    s.mem[('F', x, '$x')] = ()
    s.cls[x] = 'pugi::xml_node'
    I.ans = {}
    outs = I.w(clean(s), 'ac_constructXml', c, ptr(x), ptr(('O', 'mgr')), h)
    rep.check(refused(outs), 'construct', 'root', 'a configuration without the interfaces element is accepted')
    rep.floor('configurations', n, 50)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


def listener(P, rep):
    """a listener's filter: a bad specification fails its initialisation, a good one is installed"""
    I = XmlI(P)
    F, A = schema(P, 'FILTER_TAG'), schema(P, 'FILTER_TYPE_ATTR')
    K = 'createInstance ExecListenerFilterFactory'
    for lab, tree, made, init, want in (('no filter', E('Listener'), True, True, True), ('filter', E('Listener', kids=[E(F, {A: 'x'})]), True, True, True),
                                        ('filter without type', E('Listener', kids=[E(F)]), True, True, False),
                                        ('filter with empty type', E('Listener', kids=[E(F, {A: ''})]), True, True, False),
                                        ('filter of unknown type', E('Listener', kids=[E(F, {A: 'x'})]), False, True, False),
                                        ('filter that fails to initialise', E('Listener', kids=[E(F, {A: 'x'})]), True, False, False),
                                        ('filter after another element', E('Listener', kids=[E('Other'), E(F, {A: 'x'})]), False, True, False)):
        I.tree = {'root': tree}
        I.ans = {K: [made]}
        I.filterok = init
        s = State()
        x = ('O', 'xml')
        s.mem[('F', x, '$x')] = ()
        s.cls[x] = 'pugi::xml_node'
        s, l = I.one(clean(s), 'hub_listenerXml', ptr(x))
        outs = I.w(clean(s), 'hub_initListener', l)
        if rep.check(len(outs) == 1 and outs[0][2] is None, 'filter', 'outcome', 'a listener with %s: no decided outcome' % lab):
            rep.check(ok(outs[0][1]) == want, 'filter', lab, 'a listener with %s initialises: %s' % (lab, ok(outs[0][1])), sample='%s: %s' % (lab, want))
            tr = [e for e in outs[0][0].trace if e[0] == 'filter']
            rep.check(bool(tr) == (lab in ('filter', 'filter that fails to initialise')), 'filter', 'initialised', 'a listener with %s: the filter is %sinitialised' % (lab, '' if tr else 'not '))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])


class MainI(AxI):
    """the main program over a recording application; files and streams are opaque, XML loads as told"""
    def on_call(self, st, ctx):
        nm, this, cls = ctx.name, ctx.this, ctx.cls
        if not cls and nm == 'makeExecApplication':
            return [(st, ptr(('O', 'app')))]
        if isinstance(this, Ptr) and this.addr == ('O', 'app'):
            if nm in ('configuration', 'exec', 'listenerHub', 'manager'):
                return [(st, ptr(('O', {'configuration': 'cfg', 'exec': 'exec', 'listenerHub': 'hub', 'manager': 'mgr'}[nm])))]
            st.ev('app', nm)
            return [(st, self.answer(st, ('app', nm), True))]
        if not cls and nm in ('makeLuvListener', 'plexilRunFinalizers', 'readDebugConfigStream', 'warn', 'runFinalizers'):
            return [(st, ptr(('O', 'luv')) if nm.startswith('make') else True)]
        if nm == 'getArbiter':
            return [(st, ptr(('O', 'arb')))]
        if isinstance(this, Ptr) and this.addr == ('O', 'arb'):
            return [(st, self.answer(st, ('arb', nm), True))]
        if cls and cls.startswith('pugi::'):
            if nm == 'load_file':
                a = ('O', 'parse', st.count('parse'))
                k = self.answer(st, ('xml', 'load_file'), 0)
                st.mem[('F', a, 'status')] = k
                st.cls[a] = 'pugi::xml_parse_result'
                return [(st, ptr(a))]
            if nm == 'xml_parse_result' and ctx.args:
                st.mem[('F', addr_of(this), 'status')] = st.mem.get(('F', addr_of(ctx.args[0]), 'status'))
                return [(st, this)]
            if nm in ('empty', 'operator!'):
                return [(st, False)]
            if nm == 'set_value':
                return [(st, True)]
            if nm in ('child', 'append_child', 'document_element', 'find_child_by_attribute', 'append_attribute'):
                a = ('TMP', 0, 'xml', st.count('xml'))
                st.cls[a] = 'pugi::xml_node'
                return [(st, ptr(a))]
            if nm.startswith('operator ') and not ctx.args:
                return [(st, False)]
        if nm == 'good':
            return [(st, False)]
        return AxI.on_call(self, st, ctx)

    def partcall(self, st, ctx, w):
        if ctx.name == 'getArbiter':
            return [(st, ptr(('O', 'arb')))]
        return AxI.partcall(self, st, ctx, w)


def program(P, rep):
    """the universal executive: no failing step goes unreported in the exit status, none is skipped"""
    I = MainI(P)
    mains = [f for f in P.fns.values() if f['n'] == 'main' and not f.get('cls') and 'universal-exec/' in (f.get('file') or '')]
    if len(mains) != 1:
        raise AnalysisBroken('%d main programs in universal-exec' % len(mains))

    def go(argv, **ans):
        st = State()
        for i, x in enumerate(argv):
            st.mem[('I', ('O', 'argv'), i)] = x
        I.ans = {('app', k): v for k, v in ans.items() if k != 'load'}
        I.ans[('xml', 'load_file')] = ans.get('load', 0)
        return I.start(mains[0], st, None, [len(argv), ptr(('I', ('O', 'argv'), 0))])
    base = ['universalExec', '-p', 'plan.plx', '+d']
    lib = base + ['-l', 'lib', '-L', 'dir']
    order = ['initialize', 'loadLibrary', 'startInterfaces', 'run', 'addPlan', 'waitForPlanFinished', 'stop']
    for argv in (base, lib, ['universalExec', '-p', 'plan.plx', '-c', 'cfg.xml', '+r', '+d']):
        outs = go(argv)
        lab = ' '.join(argv)
        if not rep.check(bool(outs) and all(o[2] is None for o in outs), 'program', 'outcome', lab + ': no decided outcome'):
            continue
        for s, v, sig in outs:
            done = [e[1] for e in s.trace if e[0] == 'app']
            want = [x for x in order if x != 'loadLibrary' or argv is lib]
            rep.check(v == 0 and [x for x in done if x in order] == want, 'program', 'steps', '%s: exit status %s after %s' % (lab, v, done), sample=lab)
        for k in ('initialize', 'loadLibrary', 'startInterfaces', 'run', 'addPlan'):
            if k == 'loadLibrary' and argv is not lib:
                continue
            for s, v, sig in go(argv, **{k: False}):
                done = [e[1] for e in s.trace if e[0] == 'app']
                rep.check(sig is not None or isinstance(v, int) and v != 0, 'program', k, '%s: exit status %s although %s failed' % (lab, v, k), sample='%s failing: %s' % (k, v))
                later = order[order.index(k) + 1:-1]
                rep.check(not any(x in later for x in done), 'program', k, '%s: goes on with %s although %s failed' % (lab, [x for x in done if x in later], k))
        for s, v, sig in go(argv, load=[0, 1]):
            done = [e[1] for e in s.trace if e[0] == 'app']
            rep.check((sig is not None or isinstance(v, int) and v != 0) and 'addPlan' not in done, 'program', 'plan', '%s: exit status %s although the plan could not be read' % (lab, v))
    for s, v, sig in go(base + ['-v']):
        early = [e for e in s.trace[:[i for i, e in enumerate(s.trace) if e[:2] == ('app', 'initialize')][0]] if e[0] == 'part' and e[1] == 'cfg' and e[2] not in ('addLibraryPath', 'addPlanPath')]
        rep.check(not early, 'program', 'listener', 'the configuration is asked to %s before it has been given its parts' % ', '.join(e[2] for e in early))
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
