"""Lock-state dataflow over the syntax tree.

A state is the set of locks held, which guard object of which frame owns which of them, and the truth of local
flags a lock operation produced.  Statements are walked path-sensitively (both branches of every condition, loops to a fixpoint of the
finite state set), calls are inlined with their lock state (memoised), virtual calls go to every override.  Reported:
the accesses to fields with the locks held at them, acquisitions with the locks already held, and the lock state at
every exit."""
import re

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
MUTEX = re.compile(r'\bstd::(recursive_|timed_|shared_)?mutex\b')
CHILD = ('init', 'b', 'o', 'l', 'e', 'i', 'a', 'r', 'c', 'x', 'y', 'args', 'place', 'size')


def unwrap(e):
    while isinstance(e, dict) and (e.get('k') in ('Cast', 'Paren', 'Temp', 'Cleanups') and isinstance(e.get('e'), dict)):
        e = e['e']
    return e


class St:
    __slots__ = ('held', 'g', 'v', 'fl')

    def __init__(self, held=frozenset(), g=frozenset(), v=frozenset(), fl=frozenset()):
        self.held, self.g, self.v, self.fl = held, g, v, fl

    def key(self):
        return (self.held, self.g, self.v, self.fl)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()

    def with_(self, **k):
        d = dict(held=self.held, g=self.g, v=self.v, fl=self.fl)
        d.update(k)
        return St(**d)


class Summary:
    def __init__(self):
        self.out = None           # list of (held, flags, truth, kind)
        self.acc = set()          # (cls, field, rw, held, flags, fn, ln)
        self.acq = set()          # (lock, held, fn, ln, path)
        self.esc = set()          # (lock, fn, ln)  exceptions leaving a manual lock
        self.wait = set()         # blocking waits: (what, held, fn, ln)


class Frame:
    n = 0

    def __init__(self, fn):
        self.fn = fn
        self.id = 0
        self.alias = {}           # var id -> (cls, field) the local refers to
        self.ptrs = set()         # of those, the pointers to guarded data
        self.lam = {}             # var id -> lambda node
        self.locks = {}           # var id -> lock id (references to mutexes)
        self.decl = []


class Analyzer:
    def __init__(self, P, over=None, interesting=None, inline=None, max_depth=40):
        self.P = P
        self.over = over or {}
        self.memo = {}
        self.stack = []
        self.interesting = interesting or (lambda c: False)
        self.inline = inline or (lambda key: True)
        self.throws_memo = {}
        self.roots = []           # deferred callables found: ('thread'|'callback', node, frame fn)
        self.seen_roots = set()
        self.fns_seen = set()
        self.live = None          # classes the program can have objects of; None: any
        self.pointees = ()        # classes whose objects count as data of the field that points to them
        self.sites = 0
        self.max_depth = max_depth
        self.direct_memo = {}
        self.flags = True         # keep 'thread stopped' / 'locked by hand' flags

    def is_direct(self, key):
        """does the function itself operate on a lock? only there booleans are followed"""
        r = self.direct_memo.get(key)
        if r is None:
            def has(n):
                if isinstance(n, dict):
                    c = n.get('cls') or n.get('rec') or ''
                    if n.get('k') in ('MCall', 'Construct') and (MUTEX.match(c) or str(c).startswith(GUARDS)) or \
                            'ds' in n and any(str(d.get('rec') or '').startswith(GUARDS) for d in n['ds']):
                        return True
                    return any(has(v) for v in n.values() if isinstance(v, (dict, list)))
                return isinstance(n, list) and any(has(x) for x in n)
            r = self.direct_memo[key] = has((self.fn(key) or {}).get('body'))
        return r

    def fn(self, key):
        return self.over.get(key) or self.P.fns.get(key)

    # ---- which lock does an expression name --------------------------------
    def lock_of(self, e, fr):
        e = unwrap(e)
        if not isinstance(e, dict):
            return None
        k = e.get('k')
        if k == 'Un' and e.get('op') in ('*', '&'):
            return self.lock_of(e['e'], fr)
        if k == 'OpCall' and e.get('op') in ('*', '->'):
            return self.lock_of(e['a'][0], fr)
        if k == 'MCall' and e.get('n') in ('get', 'operator*', 'operator->'):
            return self.lock_of(e['o'], fr)
        if k == 'Member':
            return (e['cls'], e['n'])
        if k == 'Ref':
            d = e['d']
            if d.get('id') in fr.locks:
                return fr.locks[d['id']]
            if 'id' in d:
                return ('local ' + fr.fn['key'], d['n'])
            return ('global', d.get('q') or d['n'])
        if k in ('MCall', 'Call'):
            f = self.fn(e.get('f'))
            if f:                                   # accessor returning the mutex
                for r in self._returns(f.get('body')):
                    return self.lock_of(r, Frame(f))
        return None

    def _returns(self, n):
        if isinstance(n, dict):
            if n.get('k') == 'Return' and n.get('e'):
                yield n['e']
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from self._returns(v)
        elif isinstance(n, list):
            for x in n:
                yield from self._returns(x)

    # ---- lock operations ----------------------------------------------------
    def acquire(self, st, lock, fr, ln, S):
        S.acq.add((lock, st.held, fr.fn['key'], ln))
        return st.with_(held=st.held | {lock})

    def release(self, st, lock):
        return st.with_(held=st.held - {lock})

    # ---- expressions: list of (state, truth) ----------------------------------
    def ev(self, st, e, fr, S):
        if e is None or not isinstance(e, dict):
            return [(st, None)]
        k = e.get('k')
        if k in ('Cast', 'Paren', 'Temp', 'Cleanups'):
            if e.get('ck') == 'LValueToRValue':
                self.access(st, e.get('e'), 'R', fr, S)
            return self.ev(st, e.get('e'), fr, S)
        if k == 'Bool':
            return [(st, bool(e.get('v')) if self.is_direct(fr.fn['key']) else None)]
        if k == 'Un':
            if e['op'] == '!':
                return [(s, None if t is None else not t) for s, t in self.ev(st, e['e'], fr, S)]
            if e['op'] in ('++', '--'):
                self.access(st, e['e'], 'W', fr, S)
            elif e['op'] == '&':
                self.access(st, e['e'], 'A', fr, S)
            return [(s, None) for s, t in self.ev(st, e['e'], fr, S)]
        if k == 'Bin':
            op = e['op']
            if op in ('&&', '||'):
                out = []
                for s, t in self.cond(st, e['l'], fr, S):
                    if t == (op == '||'):
                        out.append((s, t))
                    else:
                        out += self.cond(s, e['r'], fr, S)
                return self.dd(out)
            if op == ',':
                out = []
                for s, _ in self.ev(st, e['l'], fr, S):
                    out += self.ev(s, e['r'], fr, S)
                return self.dd(out)
            out = []
            for s, t in self.ev(st, e['r'], fr, S):
                for s2, t2 in self.ev(s, e['l'], fr, S):
                    if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                        if op != '=':
                            self.access(s2, e['l'], 'R', fr, S)
                        self.access(s2, e['l'], 'W', fr, S)
                        l = unwrap(e['l'])
                        self.pointer_to(fr, l.get('d', {}).get('id') if l.get('k') == 'Ref' else None, e['r'])
                        if l.get('k') == 'Ref' and 'id' in l['d']:
                            s2 = self.setv(s2, fr, l['d']['id'], t if op == '=' else None)
                        out.append((s2, t))
                    elif op in ('==', '!=') and t is not None and t2 is not None:
                        out.append((s2, (t == t2) == (op == '==')))
                    else:
                        out.append((s2, None))
            return self.dd(out)
        if k == 'Cond':
            out = []
            for s, t in self.cond(st, e['c'], fr, S):
                out += self.ev(s, e['a'] if t else e['b'], fr, S)
            return self.dd(out)
        if k == 'Ref':
            d = e.get('d', {})
            if 'id' in d:
                for vk, val in st.v:
                    if vk == (fr.id, d['id']):
                        return [(st, val)]
            return [(st, None)]
        if k == 'Lambda':
            return [(st, None)]
        if k in ('MCall', 'Call', 'OpCall', 'Construct', 'New'):
            return self.call(st, e, fr, S)
        if k == 'Throw':
            out = []
            for s, _ in self.ev(st, e.get('e'), fr, S):
                self.exits.append(s)
            return out or [(st, None)]
        # anything else: its parts, in order
        outs = [st]
        for ch in self.children(e):
            nxt = []
            for s in outs:
                nxt += [x for x, _ in self.ev(s, ch, fr, S)]
            outs = list(dict.fromkeys(nxt))
        return [(s, None) for s in outs]

    def children(self, e):
        for n, v in e.items():
            if n in ('k', 't', 'ln', 'd', 'm'):
                continue
            if isinstance(v, dict) and 'k' in v:
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        yield x

    def dd(self, l):
        return list(dict.fromkeys(l))

    def cond(self, st, e, fr, S):
        out = []
        for s, t in self.ev(st, e, fr, S):
            s2t, s2f = self.refine(s, e, fr, True), self.refine(s, e, fr, False)
            if t is None:
                out += [(s2t, True), (s2f, False)]
            else:
                out.append((s2t if t else s2f, t))
        return self.dd(out)

    def refine(self, st, e, fr, t):
        """what the truth of a condition tells: a flag's value; that the thread is not running"""
        e = unwrap(e)
        if not isinstance(e, dict):
            return st
        if e.get('k') == 'Un' and e.get('op') == '!':
            return self.refine(st, e['e'], fr, not t)
        if e.get('k') == 'MCall' and e.get('n') == 'joinable' and not t:
            m = unwrap(e['o'])
            if m.get('k') == 'Member':
                return (st.with_(fl=st.fl | {('stopped', m['cls'], m['n'])}) if self.flags else st)
        if e.get('k') == 'Ref' and 'id' in e.get('d', {}) and 'bool' in str(e.get('t')) and \
                any(vk == (fr.id, e['d']['id']) for vk, _ in st.v):
            return self.setv(st, fr, e['d']['id'], t)
        return st

    def setv(self, st, fr, vid, t):
        if not self.is_direct(fr.fn['key']) and not any(x[0] == (fr.id, vid) for x in st.v) and t in (None, 'x'):
            return st
        v = frozenset(x for x in st.v if x[0] != (fr.id, vid))
        if t is not None:
            v |= {((fr.id, vid), t)}
        return st.with_(v=v)

    # ---- accesses ---------------------------------------------------------------
    def base_field(self, e, fr):
        """the outermost field an lvalue path goes through (every field along it is reported)"""
        e = unwrap(e)
        out = []
        deref = False
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'Member':
                out.append((e['cls'], e['n'], e.get('t', ''), deref))
                if e.get('arrow'):
                    b = unwrap(e.get('b'))
                    out += [x[:3] + (x[3] or not self.iter_like(b),) for x in self.through(b, fr)]
                    break
                e = unwrap(e.get('b'))
            elif k == 'Index':
                e = unwrap(e.get('b'))
            elif k == 'OpCall' and e.get('op') in ('[]', '*', '->') and e.get('a'):
                if e['op'] in ('*', '->') and re.search(r'unique_ptr|shared_ptr', e.get('cls') or ''):
                    deref = True
                e = unwrap(e['a'][0])
            elif k == 'MCall':
                if e.get('n') == 'get' and re.search(r'unique_ptr|shared_ptr', e.get('cls') or ''):
                    deref = True
                elif e.get('arrow') and unwrap(e.get('o')).get('k') != 'This' and not self.iter_like(unwrap(e.get('o'))):
                    deref = True
                e = unwrap(e.get('o'))
            elif k == 'Un' and e.get('op') in ('*', '&'):
                if e['op'] == '*':
                    deref = True
                e = unwrap(e.get('e'))
            elif k == 'Ref':
                a = fr.alias.get(e['d'].get('id')) if 'id' in e.get('d', {}) else None
                if a and (deref or e['d']['id'] not in fr.ptrs):
                    out.append(a + ('', deref and e['d']['id'] not in fr.ptrs))
                break
            else:
                break
        return out

    def pointer_to(self, fr, vid, e):
        e = unwrap(e)
        if vid is not None and isinstance(e, dict) and e.get('k') == 'Un' and e.get('op') == '&':
            p = [x for x in self.base_field(e['e'], fr) if self.interesting(x[0])]
            if p:
                fr.alias[vid] = p[0][:2]
                fr.ptrs.add(vid)

    def iter_like(self, b):
        return isinstance(b, dict) and ('terator' in str(b.get('t')) or b.get('k') == 'OpCall' and 'terator' in str(b.get('cls')))

    def through(self, b, fr):
        """fields read to reach the object an arrow leads to"""
        if not isinstance(b, dict):
            return []
        if b.get('k') == 'Ref' and 'id' in b.get('d', {}):
            a = fr.alias.get(b['d']['id'])
            return [a + ('', False)] if a else []
        if b.get('k') in ('OpCall', 'MCall', 'Member', 'Un', 'Index'):
            return self.base_field(b, fr)
        return []

    def access(self, st, e, rw, fr, S):
        path = self.base_field(e, fr)
        for c, f, t, deref in path:
            if self.interesting(c) and not MUTEX.search(t) and 'std::atomic' not in t:
                S.acc.add((c, f, 'R' if deref else rw, st.held, st.fl, fr.fn['key'], (e or {}).get('ln', 0)))

    # ---- calls --------------------------------------------------------------------
    def call(self, st, e, fr, S):
        k = e['k']
        self.sites += 1
        n = e.get('n', '')
        cls = e.get('cls') or ''
        ln = e.get('ln', 0)
        args = [a for a in (e.get('a') or []) if isinstance(a, dict)]
        obj = e.get('o')
        # operations on mutexes
        if k == 'MCall' and MUTEX.match(cls) and n in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared'):
            lock = self.lock_of(obj, fr)
            if n.startswith('lock'):
                return [(self.acquire(st, lock, fr, ln, S).with_(fl=st.fl | ({('manual', lock)} if self.flags else set())), None)]
            if n.startswith('unlock'):
                return [(self.release(st, lock).with_(fl=st.fl - {('manual', lock)}), None)]
            if lock in st.held:
                S.acq.add((('try',) + tuple(lock), st.held, fr.fn['key'], ln))
                return [(st, False)]
            return [(st.with_(held=st.held | {lock}, fl=st.fl | ({('manual', lock)} if self.flags else set())), True), (st, False)]
        if k in ('MCall', 'OpCall') and cls.startswith(GUARDS):
            o = unwrap(obj if k == 'MCall' else args[0])
            gid = self.gid(o, fr)
            own = {g: l for g, l in st.g}
            lock = own.get(gid)
            if n in ('lock', 'try_lock') and lock and lock[1] is False:
                if n == 'lock':
                    s = self.acquire(st, lock[0], fr, ln, S)
                    return [(self.setg(s, gid, (lock[0], True)), None)]
                if lock[0] in st.held:
                    return [(st, False)]
                return [(self.setg(st.with_(held=st.held | {lock[0]}), gid, (lock[0], True)), True), (st, False)]
            if n == 'unlock' and lock and lock[1]:
                return [(self.setg(self.release(st, lock[0]), gid, (lock[0], False)), None)]
            if n in ('owns_lock', 'operator bool') or (k == 'MCall' and n.startswith('operator bool')):
                if lock:
                    return [(st, bool(lock[1]))]
            return [(st, None)]
        if k == 'Construct' and cls.startswith(GUARDS):
            # an unnamed guard holds its lock for no longer than the expression
            for a in args:
                if MUTEX.search(str(a.get('t', '')) + str(unwrap(a).get('t', ''))):
                    self.acquire(st, self.lock_of(a, fr), fr, ln, S)
            return [(st, None)]
        states = [st]
        # lambdas and functions handed over
        deferred = k in ('Construct', 'MCall', 'Call', 'OpCall', 'New') and not self.runs_now(e)
        if obj is not None:
            states = [x for s in states for x, _ in self.ev(s, obj, fr, S)]
        lams = []
        for a in args:
            u = unwrap(a)
            if isinstance(u, dict) and u.get('k') == 'Lambda':
                lams.append(u)
                continue
            if isinstance(u, dict) and u.get('k') == 'Ref' and u.get('d', {}).get('dk') in ('fn', 'func', 'function', 'method'):
                f = self.fn(u['d'].get('q') or u['d'].get('f') or '') or self.fn(u.get('f') or '')
                if f and not self.fn(e.get('f')):
                    self.root('thread', f, None)
                continue
            nxt = []
            for s in states:
                nxt += [x for x, _ in self.ev(s, a, fr, S)]
            states = list(dict.fromkeys(nxt))
        for l in lams:
            f = self.fn(l.get('f'))
            if not f:
                continue
            if 'std::thread' in cls:
                self.root('thread', f, fr)
                states = list(states)
            elif deferred:
                self.root('callback', f, fr)
            else:
                nxt = []
                for s in states:
                    nxt += [s] + [x for x, _ in self.enter(s, f, [], fr, S, share=True)]
                states = list(dict.fromkeys(nxt))
        # a thread built from something else than a lambda
        if k == 'Construct' and cls == 'std::thread' and args and not lams and 'thread &&' not in (e.get('f') or ''):
            for a in args:
                u = unwrap(a)
                if u.get('k') == 'Un' and u.get('op') == '&':
                    for c, f, t, _ in self.base_field(u['e'], fr)[:1]:
                        if self.interesting(c) and 'std::atomic' not in t:
                            S.acc.add((c, f, 'T', frozenset(), frozenset(), fr.fn['key'], ln))
            states = list(states)
        if k == 'MCall' and cls == 'std::thread' and n == 'join':
            m = unwrap(obj)
            if m.get('k') == 'Member':
                for s in states:
                    S.wait.add(('join ' + m['n'], s.held, fr.fn['key'], ln))
                states = [s.with_(fl=s.fl | {('stopped', m['cls'], m['n'])}) if self.flags else s for s in states]
        if k == 'MCall' and n == 'wait' and 'emaphore' in cls:
            m = unwrap(obj)
            for s in states:
                S.wait.add(('wait %s' % (m.get('n'),), s.held, fr.fn['key'], ln))
        # accesses made by the call itself
        for s in states:
            if k in ('MCall', 'OpCall'):
                tgt = obj if k == 'MCall' else (args[0] if e.get('member') and args else None)
                if tgt is not None:
                    rw = 'R' if self.is_const(e, n) else 'W'
                    u = unwrap(tgt)
                    if k == 'MCall' and e.get('arrow') and u.get('k') != 'This' and not self.iter_like(u):
                        if u.get('k') == 'Ref':       # a pointer to guarded data
                            for c, f, t, d in self.through(u, fr):
                                if self.interesting(c):
                                    S.acc.add((c, f, rw, s.held, s.fl, fr.fn['key'], ln))
                        else:
                            if cls in self.pointees:  # the object behind it counts as data of this class
                                for c, f, t, d in self.base_field(u, fr)[:1]:
                                    if self.interesting(c):
                                        S.acc.add((c, '*' + f, rw, s.held, s.fl, fr.fn['key'], ln))
                            rw = 'R'                  # the pointer itself is only read
                    self.access(s, tgt, rw, fr, S)
                    rest = args if k == 'MCall' else args[1:]
                else:
                    rest = args
            else:
                rest = args
            ps = self.param_types(e)
            for i, a in enumerate(rest):
                pt = ps[i] if i < len(ps) else ''
                byref = pt.endswith('&') and not pt.startswith('const ')
                u = a
                if isinstance(u, dict) and u.get('k') != 'Cast' or byref:
                    self.access(s, a, 'W' if byref and not pt.endswith('&&') else 'R', fr, S)
                elif pt.endswith('&'):
                    self.access(s, a, 'R', fr, S)
        # the call
        out = []
        lam = None
        if k == 'OpCall' and e.get('op') == '()' and args:
            o = unwrap(args[0])
            if isinstance(o, dict) and o.get('k') == 'Ref' and o.get('d', {}).get('id') in fr.lam:
                lam = self.fn(fr.lam[o['d']['id']].get('f'))
        if lam:
            for s in states:
                out += self.enter(s, lam, args[1:], fr, S, share=True)
            return self.dd(out)
        targets = self.targets(e)
        for s in states:
            if any(f[0] == 'manual' for f in s.fl) and self.call_throws(e, targets):
                for f in s.fl:
                    if f[0] == 'manual':
                        S.esc.add((f[1], fr.fn['key'], ln, n or cls))
            if not targets:
                out.append((s, None))
            for f in targets:
                out += self.enter(s, f, args, fr, S)
        return self.dd(out)

    def runs_now(self, e):
        f = e.get('f') or ''
        if re.match(r'(std::)?(for_each|find_if|find_if_not|remove_if|any_of|all_of|none_of|count_if|sort|stable_sort|transform|accumulate|copy_if|partition|call_once|invoke|generate|max_element|min_element|lower_bound|upper_bound)\b', e.get('n') or ''):
            return True
        if e['k'] in ('Call', 'MCall') and self.fn(f):
            # a repository function that calls its parameter
            return not any('std::function' in p.get('t', '') for p in self.fn(f).get('params', []))
        return False

    def param_types(self, e):
        f = e.get('f') or ''
        m = re.search(r'\((.*)\)[^)]*$', f)
        if not m:
            return []
        out, d, cur = [], 0, ''
        for ch in m.group(1):
            if ch in '<(':
                d += 1
            elif ch in '>)':
                d -= 1
            if ch == ',' and not d:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out

    def is_const(self, e, n):
        f = e.get('f') or ''
        if re.search(r'\) const( noexcept)?( &)?$', f) or ' const' in f[f.rfind(')'):]:
            return True
        if n == 'operator[]' and not (e.get('cls') or '').startswith(('std::map', 'std::unordered_map')):
            return True
        # non-const overloads that only look
        if n in ('begin', 'end', 'find', 'rbegin', 'rend', 'front', 'back', 'lower_bound', 'upper_bound', 'at', 'data', 'get', 'operator->', 'operator*'):
            return True
        return False

    def targets(self, e):
        k = e['k']
        key = e.get('f')
        if k == 'New':
            c = e.get('init') or {}
            key = c.get('f') if isinstance(c, dict) else None
        if not key:
            return []
        if k == 'MCall' and e.get('virt'):
            cn = e.get('cls')
            ks = []
            for c in [cn] + sorted(self.P.subclasses(cn)):
                if c in self.P.classes and not self.P.classes[c].get('abstract') and (self.live is None or c in self.live):
                    x = self.P.dispatch(c, key)
                    if x and x not in ks:
                        ks.append(x)
            ks = ks or [key]
        else:
            ks = [key]
        out = []
        for x in ks:
            x = x if isinstance(x, str) else x.get('key')
            f = self.fn(x)
            if f and f.get('body') and self.inline(x):
                out.append(f)
        return out

    def call_throws(self, e, targets):
        if targets:
            return any(self.throws(f['key']) for f in targets)
        f = self.fn(e.get('f') or '')
        if f:
            return self.throws(f['key'])
        return bool(e.get('virt'))

    def throws(self, key, seen=None):
        """may an exception the repository itself throws leave this function?"""
        if key in self.throws_memo:
            return self.throws_memo[key]
        seen = seen or set()
        if key in seen:
            return False
        seen.add(key)
        f = self.fn(key)
        r = False
        if f and f.get('body') and not f.get('noexcept'):
            r = self._throws(f['body'], seen)
        if len(seen) == 1 or r:
            self.throws_memo[key] = r
        return r

    def _throws(self, n, seen):
        if isinstance(n, list):
            return any(self._throws(x, seen) for x in n)
        if not isinstance(n, dict):
            return False
        k = n.get('k')
        if k == 'Throw':
            return True
        if k == 'Try':
            hs = n.get('h') or []
            if any(h.get('all') for h in hs):
                return any(self._throws(h, seen) for h in hs)
        if k in ('Call', 'MCall', 'OpCall', 'Construct') and n.get('f'):
            for f in self.targets(n):
                if self.throws(f['key'], seen):
                    return True
        if k == 'Lambda':
            return False
        return any(self._throws(v, seen) for v in n.values() if isinstance(v, (dict, list)))

    # ---- entering a function ------------------------------------------------------
    def root(self, kind, f, fr):
        if (kind, f['key']) not in self.seen_roots:
            self.seen_roots.add((kind, f['key']))
            self.roots.append((kind, f))

    def enter(self, st, f, args, fr, S, share=False):
        key = f['key']
        if len(self.stack) > self.max_depth:
            return [(st, None)]
        bind = ()
        locks = {}
        if fr is not None and args:
            for i, p in enumerate(f.get('params', [])):
                if i < len(args) and MUTEX.search(p.get('t', '')):
                    l = self.lock_of(args[i], fr)
                    if l:
                        locks[p.get('id')] = l
            bind = tuple(sorted((str(a), b) for a, b in locks.items()))
        mk = (key, st.held, st.fl, bind)
        if mk in self.stack:
            return [(st, None)]
        sm = self.memo.get(mk)
        if sm is None:
            sm = Summary()
            self.stack.append(mk)
            nf = Frame(f)
            nf.locks.update(locks)
            nf.id = len(self.stack)
            if share and fr is not None:
                nf.alias.update(fr.alias)
                nf.ptrs |= fr.ptrs
                nf.locks.update(fr.locks)
            self.fns_seen.add(key)
            old = getattr(self, 'exits', None)
            self.exits = []
            s0 = St(st.held, frozenset(), frozenset(), st.fl)
            outs = [('normal', s0, None)]
            for i in f.get('inits') or []:
                if isinstance(i, dict):
                    v = i.get('e') or i.get('init')
                    outs = [('normal', s2, None) for _, s, _ in outs for s2, _ in self.ev(s, v, nf, sm)] if isinstance(v, dict) else outs
            res = []
            for _, s, _ in outs:
                res += self.stmt(s, f.get('body'), nf, sm)
            keep = self.is_direct(key) or len({s.held for kd, s, v in res}) > 1
            sm.out = list(dict.fromkeys((s.held, s.fl, v if keep else None) for kd, s, v in res if kd != 'throw'))
            self.exits = old
            self.stack.pop()
            self.memo[mk] = sm
        S.acc |= sm.acc
        S.acq |= sm.acq
        S.esc |= sm.esc
        S.wait |= sm.wait
        out = [(st.with_(held=h, fl=fl), v) for h, fl, v in sm.out]
        return self.dd(out) or []

    # ---- statements: list of (kind, state, value) ----------------------------------
    def gid(self, o, fr):
        if isinstance(o, dict) and o.get('k') == 'Ref' and 'id' in o.get('d', {}):
            return (fr.id, o['d']['id'])
        return None

    def setg(self, st, gid, val):
        g = frozenset(x for x in st.g if x[0] != gid)
        if val is not None:
            g |= {(gid, val)}
        return st.with_(g=g)

    def block(self, st, stmts, fr, S):
        mark = len(fr.decl)
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for kd, s2, v in self.stmt(s, x, fr, S):
                    if kd == 'normal':
                        nxt.append(s2)
                    else:
                        out.append((kd, s2, v))
            cur = list(dict.fromkeys(nxt))
            if not cur:
                break
        out += [('normal', s, None) for s in cur]
        mine = fr.decl[mark:]
        del fr.decl[mark:]
        res = []
        for kd, s, v in out:
            for gid in reversed(mine):
                for g, val in s.g:
                    if g == gid:
                        if val[1]:
                            s = self.release(s, val[0])
                        s = self.setg(s, gid, None)
                        break
            s = s.with_(v=frozenset(x for x in s.v if x[0] not in mine))
            res.append((kd, s, v))
        return list(dict.fromkeys(res))

    def decl(self, st, d, fr, S):
        init = d.get('init')
        t = d.get('t') or ''
        u = unwrap(init) if isinstance(init, dict) else None
        rt = (d.get('rec') or t).replace('const ', '')
        if rt.startswith(GUARDS) and u and u.get('k') == 'Construct':
            args = [a for a in u.get('a', []) if isinstance(a, dict)]
            gid = (fr.id, d.get('id', d['n']))
            fr.decl.append(gid)
            mode = 'lock'
            locks = []
            for a in args:
                at = str(a.get('t', '')) + str(unwrap(a).get('t', '')) + str(unwrap(a).get('cls', ''))
                if 'defer_lock_t' in at:
                    mode = 'defer'
                elif 'try_to_lock_t' in at:
                    mode = 'try'
                elif 'adopt_lock_t' in at:
                    mode = 'adopt'
                else:
                    locks.append(self.lock_of(a, fr))
            if not locks:
                return [st]
            lock = locks[0]
            gid = (fr.id, d.get('id', d['n']))
            if mode == 'lock':
                s = self.acquire(st, lock, fr, d.get('ln', 0), S)
                return [self.setg(s, gid, (lock, True))]
            if mode == 'defer':
                return [self.setg(st, gid, (lock, False))]
            if mode == 'adopt':
                return [self.setg(st.with_(fl=st.fl - {('manual', lock)}), gid, (lock, True))]
            no = self.setg(st, gid, (lock, False))
            if lock in st.held:
                return [no]
            return [self.setg(st.with_(held=st.held | {lock}), gid, (lock, True)), no]
        if u and u.get('k') == 'Lambda':
            fr.lam[d.get('id')] = u
            return [st]
        if MUTEX.search(t) and t.endswith('&') and u:
            l = self.lock_of(u, fr)
            if l:
                fr.locks[d.get('id')] = l
            return [st]
        if u and 'id' in d:
            p = self.base_field(init, fr)
            if p and (t.rstrip().endswith('&') or 'iterator' in t or 'Iterator' in t or t.startswith('auto')):
                fr.alias[d['id']] = p[0][:2] if self.interesting(p[0][0]) else p[-1][:2]
                if t.rstrip().endswith('&') and u.get('k') == 'Member':
                    return [s for s, _ in self.ev(st, u.get('b'), fr, S)]
        if u and 'id' in d:
            self.pointer_to(fr, d['id'], init)
        out = []
        gid = (fr.id, d.get('id'))
        fr.decl.append(gid)
        for s, tr in self.ev(st, init, fr, S):
            if isinstance(init, dict) and not t.rstrip().endswith(('&', '*')):
                self.access(s, init, 'R', fr, S)
            if 'id' in d and t.replace('const ', '') == 'bool':
                s = self.setv(s, fr, d['id'], tr)
            out.append(s)
        return list(dict.fromkeys(out))

    def stmt(self, st, n, fr, S):
        if n is None:
            return [('normal', st, None)]
        k = n.get('k')
        if k == 'Block':
            return self.block(st, n.get('c') or [], fr, S)
        if k == 'Decl':
            cur = [st]
            for d in n.get('ds', []):
                cur = [x for s in cur for x in self.decl(s, d, fr, S)]
            return [('normal', s, None) for s in dict.fromkeys(cur)]
        if k == 'If':
            out = []
            pre = [st]
            mark = len(fr.decl)
            if isinstance(n.get('init'), dict):
                pre = [s for p in pre for _, s, _ in self.stmt(p, n['init'], fr, S)]
            if isinstance(n.get('cvar'), dict):
                pre = [s for p in pre for s in self.decl(p, n['cvar'], fr, S)]
            for p in pre:
                for s, t in self.cond(p, n['c'], fr, S):
                    br = n.get('a') if t else n.get('b')
                    out += self.stmt(s, br, fr, S) if br else [('normal', s, None)]
            return list(dict.fromkeys(out))
        if k in ('While', 'For', 'RangeFor', 'Do'):
            return self.loop(st, n, fr, S)
        if k == 'Switch':
            out = []
            body = n.get('b')
            stmts = body.get('c') if isinstance(body, dict) and body.get('k') == 'Block' else [body]
            for s, _ in self.ev(st, n['c'], fr, S):
                starts = [i for i, x in enumerate(stmts) if isinstance(x, dict) and x.get('k') in ('Case', 'Default')]
                if not any(isinstance(x, dict) and x.get('k') == 'Default' for x in stmts):
                    out.append(('normal', s, None))
                for i in starts:
                    for kd, s2, v in self.block(s, stmts[i:], fr, S):
                        out.append(('normal', s2, v) if kd == 'break' else (kd, s2, v))
            return list(dict.fromkeys(out))
        if k in ('Case', 'Default'):
            return self.stmt(st, n.get('s'), fr, S)
        if k == 'Return':
            e = n.get('e')
            out = []
            for s, t in self.ev(st, e, fr, S):
                if isinstance(e, dict):
                    byref = str(fr.fn.get('ret', '')).rstrip().endswith('&')
                    if byref:
                        self.access(s.with_(held=frozenset()), e, 'R', fr, S)
                    elif unwrap(e).get('k') != 'Cast':
                        pass
                out.append(('return', s, t))
            return out
        if k in ('Break', 'Continue'):
            return [(k.lower(), st, None)]
        if k == 'Throw':
            return [('throw', s, None) for s, _ in self.ev(st, n.get('e'), fr, S)]
        if k == 'Try':
            body = n.get('b')
            out = []
            mid = [st]
            for kd, s, v in self.stmt(st, body if isinstance(body, dict) else {'k': 'Block', 'c': body}, fr, S):
                if kd == 'throw':
                    mid.append(s)
                else:
                    out.append((kd, s, v))
            hs = n.get('h') or []
            for s in dict.fromkeys(mid):
                for h in hs:
                    hb = h.get('b')
                    if isinstance(hb, dict):
                        out += self.stmt(s, hb, fr, S)
                    elif isinstance(hb, list):
                        out += self.block(s, hb, fr, S)
            return list(dict.fromkeys(out))
        if k == 'Nop':
            return [('normal', st, None)]
        return [('normal', s, None) for s, _ in self.ev(st, n, fr, S)] or [('throw', st, None)]

    def loop(self, st, n, fr, S):
        k = n['k']
        mark = len(fr.decl)
        out = []
        cur = [st]
        body = n.get('b')
        c = n.get('c') if k != 'RangeFor' else None
        if k == 'For' and isinstance(n.get('init'), dict):
            x = n['init']
            cur = [s for p in cur for _, s, _ in self.stmt(p, x, fr, S)]
        if k == 'RangeFor':
            r = n.get('range')
            if isinstance(r, dict):
                for p in cur:
                    self.access(p, r, 'R', fr, S)
                cur = [s for p in cur for s, _ in self.ev(p, r, fr, S)]
                v = n.get('var')
                if isinstance(v, dict):
                    v = (v.get('ds') or [v])[0]
                    if 'id' in v:
                        p = self.base_field(r, fr)
                        if p and str(v.get('t', '')).rstrip().endswith('&'):
                            fr.alias[v['id']] = p[0][:2]
        inc = n.get('inc')
        seen = set()
        work = list(dict.fromkeys(cur))
        exits = []
        first = k == 'Do'
        pend = [(s, first) for s in work]
        while pend:
            s, skip = pend.pop()
            if (s, skip) in seen:
                continue
            seen.add((s, skip))
            if skip or not isinstance(c, dict):
                ents = [(s, True)]
                if not isinstance(c, dict) and k == 'RangeFor':
                    ents.append((s, False))
            else:
                ents = self.cond(s, c, fr, S)
            for s1, t in ents:
                if not t:
                    exits.append(s1)
                    continue
                for kd, s2, v in (self.stmt(s1, body, fr, S) if body else [('normal', s1, None)]):
                    if kd in ('normal', 'continue'):
                        nx = [s2]
                        if isinstance(inc, dict):
                            nx = [x for x, _ in self.ev(s2, inc, fr, S)]
                        pend += [(x, False) for x in nx]
                    elif kd == 'break':
                        exits.append(s2)
                    else:
                        out.append((kd, s2, v))
        out += [('normal', s, None) for s in dict.fromkeys(exits)]
        return list(dict.fromkeys(out))

    # ---- running --------------------------------------------------------------------
    def run(self, f, held=frozenset(), flags=frozenset()):
        S = Summary()
        outs = self.enter(St(held=frozenset(held), fl=frozenset(flags)), f, [], None, S)
        return S, outs
