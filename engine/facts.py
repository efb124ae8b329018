"""Builds and loads the program facts: the type-checked syntax of every
function of the current /repo working tree, as the real build compiles it."""
import hashlib, json, marshal, os, re, shlex, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
WITNESS = os.path.join(VERIF, 'witness')
EXTRACT_SRC = os.path.join(VERIF, 'extractor')


class AnalysisBroken(Exception):
    """The analysis could not be carried out (never a verdict)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def extractor():
    src = _sha(_read(EXTRACT_SRC + '/extract.cc'), _read(EXTRACT_SRC + '/build.sh'))
    out = os.path.join(CACHE, 'bin', 'extract-' + src)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['bash', EXTRACT_SRC + '/build.sh', tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build extractor:\n' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def configure():
    """Out-of-tree configure with the flags of the real build; returns the
    compilation database and the directory of generated headers."""
    key = _sha(REPO, *[_read(p) for p in _cmake_files()])
    work = os.path.join(CACHE, 'cfg-' + key)
    dbf = os.path.join(work, 'db.json')
    if os.path.exists(dbf):
        return work, json.load(open(dbf))
    tree = os.path.join(work, 'tree')
    os.makedirs(tree + '/src/third-party', exist_ok=True)

    def link(a, b):
        if os.path.islink(b):
            os.unlink(b)
        os.symlink(a, b)
    link(REPO + '/CMakeLists.txt', tree + '/CMakeLists.txt')
    for f in os.listdir(REPO + '/src'):
        if f != 'third-party':
            link(REPO + '/src/' + f, tree + '/src/' + f)
    for f in os.listdir(REPO + '/src/third-party'):
        if f != 'pugixml':
            link(REPO + '/src/third-party/' + f, tree + '/src/third-party/' + f)
    link('/opt/vp/shim/pugixml', tree + '/src/third-party/pugixml')
    b = work + '/b'
    env = dict(os.environ, CC='gcc', CXX='g++')
    r = subprocess.run(['cmake', '-S', tree, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                        '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_C_FLAGS=-Wno-error',
                        '-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint -include cstring',
                        '-DCMAKE_PROJECT_Plexil_INCLUDE=/opt/vp/shim/top.cmake',
                        '-DGIT_SUBMODULE=OFF', '-DMODULE_TESTS=ON', '-DSTANDALONE_SIMULATOR=ON',
                        '-DIPC_ADAPTER=ON', '-DUDP_ADAPTER=ON', '-DWITH_THREADS=ON',
                        '-DCMAKE_INSTALL_PREFIX=' + work + '/install'],
                       capture_output=True, text=True, env=env)
    if r.returncode:
        raise AnalysisBroken('cmake configure failed:\n' + (r.stdout + r.stderr)[-3000:])
    db = json.loads(subprocess.run(['ninja', '-C', b, '-t', 'compdb'], capture_output=True, text=True).stdout)
    db = [e for e in db if e['file'].endswith(('.cc', '.cpp'))]
    # the one generated header: run just its own command, not its dependencies
    for tgt in ('src/xml-parser/ExpressionMap.hh',):
        cmds = subprocess.run(['ninja', '-C', b, '-t', 'commands', tgt], capture_output=True, text=True).stdout.splitlines()
        if not cmds:
            raise AnalysisBroken('no command generates ' + tgt)
        r = subprocess.run(cmds[-1], shell=True, cwd=b, capture_output=True, text=True, env=env)
        if r.returncode or not os.path.exists(os.path.join(b, tgt)):
            raise AnalysisBroken('generating %s failed: %s' % (tgt, r.stderr[-500:]))
    json.dump(db, open(dbf, 'w'))
    return work, db


def _cmake_files():
    out = []
    for d, ds, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f in ('CMakeLists.txt',) or f.endswith(('.cmake', '.in', '.gperf')):
                out.append(os.path.join(d, f))
    out.append(REPO + '/CMakeLists.txt')
    return sorted(out)


def _tus(db):
    seen, out = set(), []
    for e in db:
        real = os.path.realpath(e['file'])
        if not real.startswith(REPO + '/src/') or '/third-party/' in real or '/test/' in real:
            continue
        if real in seen:
            continue
        seen.add(real)
        args = shlex.split(e['command'])[1:]
        flags, i = [], 0
        while i < len(args):
            a = args[i]
            if a in ('-MD', '-MMD', '-c'):
                i += 1
            elif a in ('-MT', '-MF', '-o'):
                i += 2
            elif a == e['file']:
                i += 1
            else:
                if a in ('-include', '-isystem', '-I') and i + 1 < len(args):
                    flags += [a, args[i + 1]]
                    i += 2
                    continue
                flags.append(a)
                i += 1
        out.append((real, e['directory'], flags))
    # instantiations of the repository's templates at a neutral element type
    base = [o for o in out if o[0].endswith('/exec/PlexilExec.cc')]
    if base and os.path.isdir(WITNESS):
        for f in sorted(os.listdir(WITNESS)):
            if f.endswith('.cc'):
                out.append((os.path.join(WITNESS, f), base[0][1], base[0][2] +
                            ['-I' + REPO + '/src/' + x for x in ('utils', 'value', 'expr', 'intfc', 'exec', 'xml-parser', 'app-framework')]))
    return out


def _hash_files(files, memo):
    hs = []
    for f in files:
        if f not in memo:
            try:
                memo[f] = _sha(_read(f))
            except OSError:
                memo[f] = 'missing'
        hs.append(memo[f])
    return _sha(*(files + hs)) if files else _sha('')


def build(jobs=None, verbose=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(jobs or os.cpu_count() or 4, verbose)


def _build(jobs, verbose):
    ex = extractor()
    work, db = configure()
    tus = _tus(db)
    if len(tus) < 120:
        raise AnalysisBroken('only %d translation units found' % len(tus))
    d = os.path.join(CACHE, 'tu')
    os.makedirs(d, exist_ok=True)
    memo = {}
    roots = REPO + '/src/,' + os.path.realpath(work + '/b') + '/,' + WITNESS + '/'

    def one(tu):
        real, cwd, flags = tu
        key = _sha(ex, real, ' '.join(flags))
        out = os.path.join(d, key + '.jsonl')
        dep = os.path.join(d, key + '.dep')
        if os.path.exists(out) and os.path.exists(dep):
            j = json.load(open(dep))
            if _hash_files(j['files'], memo) == j['hash']:
                return out, j['hash'], False
        fl = [f for f in flags]
        if not any(f.startswith('-std=') for f in fl):
            fl.append('-std=gnu++14')
        tmp = out + '.tmp'
        r = subprocess.run([ex, tmp, real, roots, '--', '-xc++'] + fl +
                           ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w'],
                           cwd=cwd, capture_output=True, text=True)
        if r.returncode and real.startswith(WITNESS) and not os.environ.get('WITNESS_DEBUG'):
            return None, real, False      # rules that need it report its absence
        if r.returncode:
            raise AnalysisBroken('clang could not parse %s:\n%s' % (real, r.stderr[-2000:]))
        files = None
        for line in open(tmp):
            if line.startswith('{"R":"deps"') or '"R":"deps"' in line[-40:] or ('"R":"deps"' in line and len(line) < 200000):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o.get('R') == 'deps':
                    files = o['l']
        if not files:
            raise AnalysisBroken('no dependency list for ' + real)
        files = [f for f in files]
        h = _hash_files(files, memo)
        os.rename(tmp, out)
        json.dump({'files': files, 'hash': h}, open(dep, 'w'))
        return out, h, True

    with ThreadPoolExecutor(jobs) as tp:
        res = list(tp.map(one, tus))
    eng = _sha(_read(__file__))
    res = [r for r in res if r[0]]
    key = _sha(eng, *[os.path.basename(o) + h for o, h, _ in res])
    merged = os.path.join(CACHE, 'facts-' + key + '.marshal')
    if not os.path.exists(merged):
        _merge([o for o, _, _ in res], merged, work)
        for f in os.listdir(CACHE):   # keep the cache small
            p = os.path.join(CACHE, f)
            if f.startswith('facts-') and p != merged:
                try:
                    if os.path.getmtime(p) < os.path.getmtime(merged) - 7200:
                        os.unlink(p)
                except OSError:
                    pass
    return merged


def _types(o, tl):
    """replace type indices by type strings, in place"""
    stack = [o]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('t', 'nt', 'at', 'ct', 'ret') and isinstance(v, int):
                    x[k] = tl[v] if v >= 0 else ''
                elif isinstance(v, (dict, list)):
                    stack.append(v)
        else:
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def _merge(files, out, work):
    fns, classes, enums, gvars, tus = {}, {}, {}, {}, []
    dups, dcls = {}, {}
    for f in files:
        tl = None
        lines = open(f).read().splitlines()
        for line in reversed(lines):
            if '"R":"types"' in line:
                tl = [sys.intern(s) for s in json.loads(line)['l']]
                break
        for line in lines:
            m = re.search(r'"R":"(\w+)"', line[-60:]) or re.search(r'"R":"(\w+)"', line[:400])
            o = json.loads(line)
            R = o.get('R')
            if R == 'fn':
                if o['key'].startswith('main('):          # every program has one
                    o['key'] += '@' + (o.get('file') or f)
                if o['key'] in fns:
                    # another function of the same name in another file (a copied source)
                    if o.get('file') != fns[o['key']].get('file') and o.get('file'):
                        if (o['key'], o['file']) not in dups:
                            _types(o, tl)
                            dups[(o['key'], o['file'])] = o
                    continue
                _types(o, tl)
                fns[o['key']] = o
            elif R == 'cls':
                if o['n'] in classes:
                    if o.get('file') != classes[o['n']].get('file') and o.get('file') and (o['n'], o['file']) not in dcls:
                        _types(o, tl)
                        dcls[(o['n'], o['file'])] = o
                    continue
                _types(o, tl)
                classes[o['n']] = o
            elif R == 'enum':
                enums.setdefault(o['n'], o)
            elif R == 'var':
                old = gvars.get(o['q'])
                if old and ('init' in old or 'init' not in o):
                    continue
                _types(o, tl)
                gvars[o['q']] = o
            elif R == 'tu':
                if o['errors']:
                    raise AnalysisBroken('parse errors in ' + o['file'])
                tus.append(o['file'])
    tmp = out + '.tmp%d' % os.getpid()
    with open(tmp, 'wb') as fo:
        marshal.dump({'fns': fns, 'classes': classes, 'enums': enums, 'vars': gvars, 'tus': tus, 'work': work, 'dups': dups, 'dcls': dcls}, fo)
    os.rename(tmp, out)


class Program:
    def __init__(self, path=None):
        path = path or build()
        with open(path, 'rb') as f:
            d = marshal.load(f)
        self.fns, self.classes, self.enums, self.vars = d['fns'], d['classes'], d['enums'], d['vars']
        self.tus = d['tus']
        self.dups, self.dcls = d.get('dups', {}), d.get('dcls', {})
        self._byname = {}
        for k, f in self.fns.items():
            from interp import qual, short
            self._byname.setdefault(qual(k), []).append(f)
            if short(k) != qual(k):
                self._byname.setdefault(short(k), []).append(f)
        self._vt = {}
        self._subs = None
        self._methods = {}
        for cn, c in self.classes.items():
            for m in c['methods']:
                self._methods[m['key']] = (c, m)

    # --- lookup by name -----------------------------------------------------
    def find(self, qual, nargs=None, required=True):
        """functions whose qualified name (without parameter list) is qual"""
        r = self._byname.get(qual, [])
        if not r and not qual.startswith('PLEXIL::'):
            r = self._byname.get('PLEXIL::' + qual, [])
        if nargs is not None:
            r = [f for f in r if len(f['params']) == nargs]
        if required and not r:
            raise AnalysisBroken('anchor function %s not found' % qual)
        return r

    def one(self, qual, nargs=None):
        r = self.find(qual, nargs)
        if len(r) != 1:
            raise AnalysisBroken('anchor %s is ambiguous: %s' % (qual, [f['key'] for f in r]))
        return r[0]

    def cls(self, name):
        for n in (name, 'PLEXIL::' + name):
            if n in self.classes:
                return self.classes[n]
        raise AnalysisBroken('anchor class %s not found' % name)

    def enum(self, name):
        for n in (name, 'PLEXIL::' + name):
            if n in self.enums:
                return self.enums[n]
        raise AnalysisBroken('anchor enum %s not found' % name)

    # --- class hierarchy ----------------------------------------------------
    def bases(self, cn, seen=None):
        """all base classes, nearest first"""
        out = []
        c = self.classes.get(cn)
        if not c:
            return out
        q = [b['n'] for b in c['bases']]
        while q:
            b = q.pop(0)
            if b in out:
                continue
            out.append(b)
            if b in self.classes:
                q += [x['n'] for x in self.classes[b]['bases']]
        return out

    def is_a(self, cn, base):
        return cn == base or base in self.bases(cn)

    def subclasses(self, base):
        if self._subs is None:
            self._subs = {}
            for cn in self.classes:
                for b in self.bases(cn):
                    self._subs.setdefault(b, []).append(cn)
        return self._subs.get(base, [])

    def _overrides(self, key, target, depth=0):
        """does method `key` override (transitively) or equal `target`"""
        if key == target:
            return True
        m = self._methods.get(key)
        if not m:
            return False
        return any(self._overrides(o, target) for o in m[1].get('over', ()))

    def dispatch(self, cn, target):
        """final overrider of virtual method `target` for dynamic class cn"""
        k = (cn, target)
        if k in self._vt:
            return self._vt[k]
        cands = []
        for c in [cn] + self.bases(cn):
            if c not in self.classes:
                continue
            for m in self.classes[c]['methods']:
                if m.get('virt') and self._overrides(m['key'], target):
                    cands.append((c, m['key']))
                    break
            if cands and cands[0][0] == cn:
                break
        # an overrider in a class that another overrider's class derives from is hidden by it
        live = [(c, k) for c, k in cands if not any(c in self.bases(d) for d, _ in cands)]
        res = live[0][1] if live else None
        self._vt[k] = res
        return res

    def all_fields(self, cn):
        out = []
        for c in [cn] + self.bases(cn):
            if c in self.classes:
                out += [(c, f) for f in self.classes[c]['fields']]
        return out


if __name__ == '__main__':
    import time
    t = time.time()
    p = build(verbose=True)
    t2 = time.time()
    P = Program(p)
    print('facts: %d TUs, %d functions, %d classes, %d enums, %d globals; build %.1fs load %.1fs' %
          (len(P.tus), len(P.fns), len(P.classes), len(P.enums), len(P.vars), t2 - t, time.time() - t2))
