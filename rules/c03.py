"""C03: no thread ever waits for a lock it already holds; locks are always taken in the same order."""
import re
from facts import AnalysisBroken
from lockset import Analyzer, MUTEX, GUARDS
from lib_lock import views, owners

MIN_OBLIGATIONS = 40


def signature(cls):
    """the parameter types of a std::function"""
    m = re.match(r'^std::function<(.*)>$', cls)
    if not m:
        return None
    t = m.group(1)
    i = t.find('(')
    if i < 0:
        return None
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rfind(')')]:
        d += ch in '<('
        d -= ch in '>)'
        if ch == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def plain(t):
    return re.sub(r'\b(const|struct|class)\b|[&\s]', '', t)


def compatible(a, b):
    """an argument of type a may bind to a parameter of type b (pointers may convert between classes)"""
    a, b = plain(a), plain(b)
    return a == b or 'auto' in b or not a.endswith('*') and not b.endswith('*') or (a.endswith('*') and b.endswith('*') and 'void' in a + b)


class Whole(Analyzer):
    """the whole program, restricted to functions from which a lock operation can be reached"""

    def __init__(self, P, over, callbacks, like=None):
        super().__init__(P, over, interesting=lambda c: False, inline=lambda k: k in self.relevant if self.relevant is not None else True)
        self.relevant = None
        self.flags = False
        self.callbacks = callbacks
        if like is None:
            self.relevant = self.find_relevant()
        else:
            self.relevant, self.callers, self.direct = like.relevant, like.callers, like.direct

    def targets(self, e):
        t = super().targets(e)
        if e['k'] == 'OpCall' and e.get('op') == '()' and (e.get('cls') or '').startswith('std::function'):
            n = len(e.get('a') or []) - 1
            sig = signature(e['cls'])
            t = t + [f for f in self.callbacks.values() if len(f.get('params', [])) == n and self.inline(f['key'])
                     and (sig is None or all(compatible(a, p.get('t', '')) for a, p in zip(sig, f['params'])))]
        return t

    def find_relevant(self):
        callers, direct = {}, set()

        def walk(n, key):
            if isinstance(n, dict):
                k = n.get('k')
                cls = n.get('cls') or ''
                if k in ('MCall', 'Construct') and (MUTEX.match(cls) or cls.startswith(GUARDS)):
                    direct.add(key)
                if k == 'Decl':
                    for d in n.get('ds', []):
                        if str(d.get('rec') or '').startswith(GUARDS):
                            direct.add(key)
                if k in ('MCall', 'Call', 'OpCall', 'Construct', 'New'):
                    for f in self.targets(n):
                        callers.setdefault(f['key'], set()).add(key)
                if k == 'Lambda' and n.get('f'):
                    callers.setdefault(n['f'], set()).add(key)
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v, key)
            elif isinstance(n, list):
                for x in n:
                    walk(x, key)
        for key in self.P.fns:
            f = self.fn(key)
            walk(f.get('body'), key)
            walk(f.get('inits') or [], key)
        out = set(direct)
        work = list(direct)
        while work:
            x = work.pop()
            for c in callers.get(x, ()):
                if c not in out:
                    out.add(c)
                    work.append(c)
        self.direct = direct
        self.callers = callers
        return out


def entry_points(A, keys):
    """functions nothing in the program calls, and one of each cycle nothing outside it calls"""
    keys = set(keys)
    roots = [k for k in keys if not (A.callers.get(k, set()) & keys - {k})]
    seen = set()
    callees = {}
    for k, cs in A.callers.items():
        for c in cs:
            callees.setdefault(c, set()).add(k)

    def mark(k):
        work = [k]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += [y for y in callees.get(x, ()) if y in keys]
    for k in roots:
        mark(k)
    for k in sorted(keys):
        if k not in seen:
            roots.append(k)
            mark(k)
    return sorted(roots)


LOADER = re.compile(r'^(dlopen|dlsym)$')


def live_classes(A, main):
    """the classes a program creates objects of, or None if it loads further code at run time"""
    live = set()
    statics = set()
    for v in A.P.vars.values() if isinstance(A.P.vars, dict) else A.P.vars:
        created(v, statics)
    for f in A.P.fns.values():
        if f['key'].startswith('<init'):
            created(f, statics)
    live |= statics
    reach, work, rejected = set(), [main], {}
    keep, A.live, rel = A.live, live, A.relevant
    A.relevant = None
    try:
        while work:
            grew = False
            while work:
                k = work.pop()
                if k in reach:
                    continue
                reach.add(k)
                f = A.fn(k)
                if not f:
                    continue
                new = set()
                nodes = []
                collect(f.get('body'), nodes, new)
                collect(f.get('inits') or [], nodes, new)
                for n in nodes:
                    if LOADER.match(n.get('n') or ''):
                        return None
                    if n.get('k') == 'Lambda':
                        work.append(n['f'])
                        continue
                    if n.get('virt'):
                        rejected.setdefault((n['f'], n.get('cls')), n)
                    work += [t['key'] for t in A.targets(n)]
                for c in new - live:
                    live.add(c)
                    live.update(A.P.bases(c))
                    grew = True
            if grew or True:
                for n in list(rejected.values()):
                    work += [t['key'] for t in A.targets(n) if t['key'] not in reach]
        return set(live)
    finally:
        A.live, A.relevant = keep, rel


def collect(n, nodes, new):
    if isinstance(n, dict):
        k = n.get('k')
        if k in ('MCall', 'Call', 'OpCall', 'Construct', 'New') or k == 'Lambda' and n.get('f'):
            nodes.append(n)
        if k == 'Construct':
            new.add(n.get('cls'))
        if k == 'Ref' and n.get('d', {}).get('dk') == 'fn' and n['d'].get('f'):
            nodes.append({'k': 'Call', 'f': n['d']['f'], 'n': n['d'].get('n'), 'a': []})
        for v in n.values():
            if isinstance(v, (dict, list)):
                collect(v, nodes, new)
    elif isinstance(n, list):
        for x in n:
            collect(x, nodes, new)


def created(n, out):
    collect(n, [], out)


def lname(l):
    return '::'.join(str(x).split('::')[-1] for x in l)


def run(P, rep):
    rep.rule('no call path blocks on a mutex the path already holds; the order in which mutexes are taken while others are held has no cycle')
    for vname, fover, cover in views(P):
        if vname and not any(c in cover or any(f.get('cls') == c for f in fover.values()) for c in owners(P, cover)):
            continue
        callbacks = {}
        for rnd in range(3):
            A = Whole(P, fover, callbacks)
            acq, edges, found = {}, {}, {}
            keys = [k for k in A.relevant if '/third-party/' not in (A.fn(k).get('file') or '')]
            roots = [k for k in entry_points(A, keys) if not k.startswith('witness::')]
            for k in roots:
                one = A
                if k.startswith('main('):
                    live = live_classes(A, k)
                    if live is not None:
                        one = Whole(P, fover, callbacks, A)
                        one.live = live
                S, outs = one.run(A.fn(k))
                if one is not A:
                    A.roots += one.roots
                    A.fns_seen |= one.fns_seen
                for lock, held, fn, ln in S.acq:
                    if lock[0] == 'try':
                        continue
                    acq.setdefault((lock, fn, ln), set()).add(held)
            done = set()
            while A.roots:
                kind, f = A.roots.pop()
                if kind == 'callback':
                    found[f['key']] = f
                if f['key'] in done or kind != 'thread':
                    continue
                done.add(f['key'])
                S, outs = A.run(f)
                for lock, held, fn, ln in S.acq:
                    if lock[0] != 'try':
                        acq.setdefault((lock, fn, ln), set()).add(held)
            new = found
            if set(new) <= set(callbacks):
                break
            callbacks.update(new)
        if not acq:
            raise AnalysisBroken('no lock acquisition found in the program')
        tag = ' (%s)' % vname.split('/')[-1] if vname else ''
        for k in A.fns_seen:
            rep.fn(k)
        for (lock, fn, ln), helds in sorted(acq.items(), key=str):
            bad = [h for h in helds if lock in h]
            rep.check(not bad, 'C03-self', '%s %s%s' % (lname(lock), fn.split('(')[0], tag),
                      '%s (line %d) waits for %s on a path that already holds it%s' % (fn, ln, lname(lock), path_to(A, lock, fn)),
                      '%s: %s taken with %d lock states, none holding it' % (fn.split('(')[0], lname(lock), len(helds)))
            for h in helds:
                for l in h:
                    if l != lock:
                        edges.setdefault(l, {}).setdefault(lock, (fn, ln))
        # cycles
        for a in edges:
            for b in edges[a]:
                seen, work = set(), [b]
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work += list(edges.get(x, {}))
                rep.check(a not in seen, 'C03-order', '%s before %s%s' % (lname(a), lname(b), tag),
                          '%s is taken while %s is held (%s line %d), and elsewhere the other way round' % (lname(b), lname(a), *edges[a][b]),
                          '%s is always taken before %s' % (lname(a), lname(b)))
        rep.count('relevant functions' + tag, len(A.relevant))
        rep.count('acquisition sites' + tag, len(acq))


def path_to(A, lock, fn):
    return ''
