"""Shared by the rules about locks: the classes that own a mutex or a thread, and their entry points."""
import re
from lockset import Analyzer, MUTEX

SYNC = re.compile(r'\bstd::(recursive_|timed_|shared_)?mutex\b|std::thread\b|std::condition_variable|Semaphore|std::atomic')


def views(P):
    """the program once per copied source: [(name, function overlay, class overlay)]"""
    out = [('', {}, {})]
    dirs = {}
    for (key, file), f in P.dups.items():
        d = file.rsplit('/', 1)[0]
        dirs.setdefault(d, ({}, {}))[0][key] = f
    for (n, file), c in P.dcls.items():
        d = file.rsplit('/', 1)[0]
        if d in dirs:
            dirs[d][1][n] = c
    for d, (fs, cs) in sorted(dirs.items()):
        out.append((d, fs, cs))
    return out


def owners(P, over=None):
    """repository classes with a mutex or a thread among their fields"""
    out = {}
    for n, c in P.classes.items():
        c = (over or {}).get(n, c)
        if n.startswith('std::') or '/' not in (c.get('file') or '') or 'third-party' in c['file']:
            continue
        fs = c.get('fields', [])
        mutex = [f['n'] for f in fs if MUTEX.search(f['t'])]
        thread = [f['n'] for f in fs if re.search(r'\bstd::thread\b', f['t'])]
        if mutex or thread:
            out[n] = (mutex, thread)
    return out


def nested(P, cls, over=None):
    """the class, the classes nested in it and the plain structures of its source file"""
    c = (over or {}).get(cls) or P.classes[cls]
    out = {cls}
    for n, x in P.classes.items():
        if n.startswith(cls + '::'):
            out.add(n)
        elif x.get('file') == c.get('file') and c.get('file', '').endswith('.cc') and not x.get('methods_virtual'):
            out.add(n)
    return out


def methods(P, cls, over=None):
    o = over or {}
    seen = {}
    for k, f in list(P.fns.items()):
        f = o.get(k, f)
        if f.get('cls') == cls and f.get('body'):
            seen[k] = f
    for k, f in o.items():
        if f.get('cls') == cls and f.get('body'):
            seen[k] = f
    return list(seen.values())


def is_special(P, cls, f, over=None):
    c = (over or {}).get(cls) or P.classes.get(cls) or {}
    for m in c.get('methods', []):
        if m['key'] == f['key']:
            return m.get('ctor') or m.get('dtor')
    return f['n'] == cls.split('::')[-1] or f['n'].startswith('~')
