"""C02: shared data of the concurrent parts is only touched under its lock."""
import re
from facts import AnalysisBroken
from lockset import Analyzer, MUTEX
from lib_lock import views, owners, nested, methods, is_special, SYNC

MIN_OBLIGATIONS = 60

# classes whose every operation may come from any thread
ANY = {'PLEXIL::SerializedInputQueue', 'PLEXIL::MessageQueueMap', 'AgendaImpl'}
# interfaces called from any thread / from the receiving thread
ANY_METHODS = {'PLEXIL::InterfaceManager': ('handleValueChange', 'handleCommandReturn', 'handleCommandAck', 'handleCommandAbortAck',
                                            'handleUpdateAck', 'notifyOfExternalEvent', 'notifyMessageReceived', 'notifyMessageAccepted',
                                            'notifyMessageQueueEmpty', 'markQueue', 'queueMark', 'handleAddPlan', 'handleAddLibrary'),
               'PLEXIL::ExecApplicationImpl': ('notifyExec', 'notifyAndWaitForCompletion', 'markProcessed', 'waitForPlanFinished',
                                               'waitForShutdown', 'allPlansFinished', 'addPlan', 'addLibrary', 'loadLibrary',
                                               'stop', 'suspend', 'resume', 'isSuspended', 'terminate'),
               }
RECEIVERS = ('ReceiveMessage',)
# set once while the object is put together, before its thread exists, and only read afterwards
SETUP = re.compile(r'^(initialize|constructInterfaces|parse\w*|addInterface\w*)$')
# fields of the application that only the thread that started it touches
CONTROL = {('PLEXIL::ExecApplicationImpl', 'm_initialized'), ('PLEXIL::ExecApplicationImpl', 'm_interfacesStarted')}
# objects without a lock of their own that a class owns and must only use under its lock
POINTEES = {'PLEXIL::ExecApplicationImpl': ('PLEXIL::PlexilExec',)}
# the stand-alone simulator is a program of its own; its run state is not shared with the executive
OUTSIDE = {'SimulatorImpl'}
# reached from every adapter's thread though it owns no lock
EXTRA = ('PLEXIL::InterfaceManager',)
REQUIRED = ['PLEXIL::SerializedInputQueue', 'PLEXIL::MessageQueueMap', 'PLEXIL::ExecApplicationImpl', 'PLEXIL::UdpEventLoopImpl']


def run(P, rep):
    rep.rule('every field of a class that owns a mutex or a thread, written after construction and reachable from more than one '
             'thread, is atomic or has one lock held at every access; locks are released on every exit')
    seen_cls = set()
    for vname, fover, cover in views(P):
        own = owners(P, cover)
        own.update({c: ((), ()) for c in EXTRA})
        for cls in sorted(own):
            if cls in OUTSIDE:
                continue
            if vname and cls not in cover and not any(f.get('cls') == cls for f in fover.values()):
                continue
            seen_cls.add(cls)
            check_class(P, rep, cls, own[cls], vname, fover, cover, set(own))
    for r in REQUIRED:
        if r not in seen_cls:
            raise AnalysisBroken('no class with a mutex or thread named ' + r)


def check_class(P, rep, cls, own, vname, fover, cover, selfsync):
    mutexes, threads = own
    fam = nested(P, cls, cover)
    nm = cls.split('::')[-1] + (' (%s)' % vname.split('/')[-1] if vname else '')
    A = Analyzer(P, fover, interesting=lambda c: c in fam,
                 inline=lambda k: in_family(P, fover, k, fam, cls, cover))
    A.pointees = POINTEES.get(cls, ())
    acc = {}                      # (cls, field) -> list of (group, rw, held, flags, fn, ln)
    ms = methods(P, cls, cover and fover or {})
    if not ms:
        raise AnalysisBroken('no member functions of ' + cls)
    exits = 0
    anym = ANY_METHODS.get(cls, ())

    def take(group, f):
        nonlocal exits
        S, outs = A.run(f)
        rep.fn(f['key'])
        for held, fl in {(s.held, s.fl) for s, v in outs}:
            exits += 1
            rep.check(not held, 'C02-exit', '%s %s' % (nm, f['n']), 'returns with %s still locked' % names(held),
                      '%s releases every lock on every way out' % f['n'])
        for lock, fn, ln, callee in S.esc:
            rep.violation('C02-exit', '%s %s %s' % (nm, f['n'], lock[1]),
                          '%s (line %d) may leave by an exception of %s with %s locked' % (fn, ln, callee, lock[1]))
        for c, fld, rw, held, fl, fn, ln in S.acc:
            acc.setdefault((c, fld), []).append((group, rw, held, fl, fn, ln))

    for f in ms:                  # what is handed to threads and callbacks is no ordinary entry point
        A.run(f)
    handed = {f['key'] for k, f in A.roots} | c_callbacks(P)
    # and neither is what only those call
    more = True
    while more:
        more = False
        for f in ms:
            cs = callers(P).get(f['key'])
            if cs and f['key'] not in handed and not virtual_override(P, cls, f) and cs <= handed:
                handed.add(f['key'])
                A.root('thread', f, None)
                more = True
    for f in ms:
        if is_special(P, cls, f, cover) or f['key'] in handed:
            continue
        hidden = (cover.get(cls) or P.classes[cls]).get('file', '').endswith(('.cc', '.cpp'))   # named by one source file only
        if (f.get('acc', 0) != 0 or hidden) and not virtual_override(P, cls, f) and callers(P).get(f['key']):
            continue                                    # reached through its callers
        take('any' if cls in ANY or f['n'] in anym else ('setup' if SETUP.match(f['n']) else 'control'), f)
    for c in fam - {cls}:
        for f in methods(P, c, fover):
            if f['n'] in RECEIVERS:
                take('thread', f)
    done = set()
    while A.roots:
        kind, f = A.roots.pop()
        if f['key'] in done:
            continue
        done.add(f['key'])
        take('thread', f)
    fields = {}
    for n in fam:
        c = cover.get(n) or P.classes.get(n) or {}
        for fd in c.get('fields', []):
            fields[(n, fd['n'])] = fd['t']
    rep.check(exits > 0, 'C02-exit', nm + ' has exits', 'no member function of %s returns' % cls, '%d ways out analysed' % exits)
    for (c, fld), l in sorted(acc.items()):
        t = fields.get((c, fld), '')
        if SYNC.search(t) or t.startswith('const ') or t.endswith('&'):
            continue
        if t in selfsync:                       # guards its own data
            continue
        if c != cls and not c.startswith(cls + '::') and not any(a[0] == 'thread' or a[0] == 'any' for a in l):
            continue
        verdict(rep, nm, cls, c, fld, l)


def c_callbacks(P):
    """functions whose address is handed to a library that calls them from its own thread"""
    memo = getattr(P, '_lock_handed', None)
    if memo is None:
        memo = set()

        def walk(n):
            if isinstance(n, dict):
                if n.get('k') == 'Call' and n.get('n', '').startswith('IPC_'):
                    for a in n.get('a', []):
                        refs(a)
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(n, list):
                for x in n:
                    walk(x)

        def refs(n):
            if isinstance(n, dict):
                if n.get('k') == 'Ref':
                    for x in ('q', 'f', 'n', 'key'):
                        q = n.get('d', {}).get(x)
                        if q:
                            memo.update(f['key'] for f in P._byname.get(q, []))
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        refs(v)
            elif isinstance(n, list):
                for x in n:
                    refs(x)
        for g in P.fns.values():
            walk(g.get('body'))
        P._lock_handed = memo
    return memo


def virtual_override(P, cls, f):
    for m in P.classes[cls].get('methods', []):
        if m['key'] == f['key']:
            return m.get('virt')
    return False


def callers(P):
    memo = getattr(P, '_lock_callers', None)
    if memo is None:
        memo = {}

        def walk(n, key):
            if isinstance(n, dict):
                if n.get('f'):
                    memo.setdefault(n['f'], set()).add(key)
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v, key)
            elif isinstance(n, list):
                for x in n:
                    walk(x, key)
        for k, g in P.fns.items():
            walk(g.get('body'), k)
            walk(g.get('inits') or [], k)
        P._lock_callers = memo
    return memo


def in_family(P, fover, key, fam, cls, cover):
    f = fover.get(key) or P.fns.get(key)
    if not f:
        return False
    if f.get('cls') in fam:
        return True
    c = cover.get(cls) or P.classes[cls]
    stem = (c.get('file') or '').rsplit('.', 1)[0]
    return (f.get('file') or '').rsplit('.', 1)[0] == stem


def names(ls):
    return ', '.join(sorted('::'.join(map(str, x[-1:])) for x in ls)) or 'nothing'


def verdict(rep, nm, cls, c, fld, l):
    live = []
    for g, rw, held, fl, fn, ln in l:
        if g == 'setup':
            continue
        # before the thread exists, or after it has been joined
        if any(x[0] == 'stopped' for x in fl) and g != 'thread' and cls not in ANY:
            continue
        live.append((g, rw, held, fn, ln))
    groups = {a[0] for a in live}
    writes = [a for a in live if a[1] in ('W', 'T', 'A')]
    writes = [a for a in live if a[1] in ('W', 'A')]
    key = '%s %s' % (nm, fld)
    if (cls, fld) in CONTROL:
        return
    shared = 'any' in groups or ('thread' in groups and len(groups) > 1) or any(a[1] == 'T' for a in live)
    if not shared or not writes:
        rep.ok('C02-guard', '%s: %s' % (key, 'only read once set up' if not writes else 'touched by one thread only'))
        return
    common = None
    for a in live:
        common = set(a[2]) if common is None else common & a[2]
    if common:
        rep.ok('C02-guard', '%s guarded by %s at %d accesses' % (key, names(common), len(live)), )
        return
    bad = [a for a in live if not a[2]] or live
    best = {}
    for a in live:
        for x in a[2]:
            best[x] = best.get(x, 0) + 1
    g = max(best, key=best.get) if best else None
    if g:
        bad = [a for a in live if g not in a[2]]
    bad.sort(key=lambda a: (a[1] != 'W', a[3], a[4]))
    a = bad[0]
    rep.violation('C02-guard', key,
                  '%s is %s in %s (line %d) %s; other threads use it%s' %
                  (fld, 'written' if a[1] in ('W', 'A') else 'read', a[3], a[4],
                   'with only %s held' % names(a[2]) if a[2] else 'without a lock',
                   ' under %s' % names([g]) if g else ' too'))
