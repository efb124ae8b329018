"""I05: reports about a command - handle, return value, abort acknowledgement - and what is issued, over histories."""
from lib_res import *

MIN_OBLIGATIONS = 300


class Model:
    """one command: what its reports should have left behind"""
    def __init__(self):
        self.on, self.h, self.ab, self.dest, self.fixed = False, None, 'start', None, None

    def copy(self):
        m = Model()
        m.__dict__.update(self.__dict__)
        return m


class World5:
    """a command with a destination, a name, arguments - constants or variables"""
    def __init__(self, I, dest, name, args):
        self.I = I
        s = State()
        self.vars = {}
        s, ne = self.expr(s, 'name', name)
        s, self.c, _ = I.do(s, 'ra_cmd', ne, 0)
        if args is not None:
            s, v, _ = I.do(s, 'cm_vec', len(args))
            for i, a in enumerate(args):
                s, e = self.expr(s, 'argument %d' % i, a)
                s, _, _ = I.do(s, 'cm_arg', v, i, e)
            s, _, _ = I.do(s, 'cm_args', self.c, v)
        self.d = None
        if dest:
            s, self.d = I.variable(s, dest, None)
            s, _, _ = I.do(s, 'cm_dest', self.c, self.d)
            s, _, _ = I.do(s, 'x_listen', self.d, ptr(('O', 'ear_dest')))
        s, _, sig = I.do(s, 'cm_listen', self.c, ptr(('O', 'ear_ack')), ptr(('O', 'ear_known')), ptr(('O', 'ear_abort')))
        s, _, sig = I.do(s, 'cm_fnon', self.c)
        self.st = clean(s)
        self.m = Model()
        self.now = {'name': name[1], 'args': tuple(a[1] for a in args or ())}
        self.names = [k for k in self.vars]

    def expr(self, s, what, v):
        kind, val = v
        if kind == 'const':
            return self.I.const(s, val)
        s, x = self.I.variable(s, kind, val)
        self.vars[what] = x
        return s, x

    def fork(self):
        w = World5.__new__(World5)
        w.__dict__.update(self.__dict__)
        w.m, w.now, w.st = self.m.copy(), dict(self.now), clean(self.st.fork())
        return w

    def apply(self, op):
        w, I, m = self.fork(), self.I, self.m.copy()
        w.m = m
        c = op[0]
        if c == 'on':
            w.st, _, sig = I.do(w.st, 'ra_on', w.c)
            m.on, m.h, m.ab, m.fixed = True, None, 'start', None
        elif c == 'fix':
            w.st, _, sig = I.do(w.st, 'ra_fix', w.c)
            if m.fixed is None:
                m.fixed = (w.now['name'], w.now['args'])
        elif c == 'off':
            w.st, _, sig = I.do(w.st, 'ra_off', w.c, 0)
            m.on, m.fixed = False, None
        elif c == 'handle':
            r = I.w(w.st, 'cm_report', w.c, I.handles[op[1]])
            if len(r) > 1 and not all(x[2] for x in r):
                raise Broken('report of a handle has %d outcomes' % len(r))
            w.st, _, sig = r[0]
            if m.on and I.valid(op[1]):
                m.h = op[1]
        elif c == 'ack':
            w.st, _, sig = I.do(w.st, 'cm_aborted', w.c, op[1])
            if m.on:
                m.ab = op[1]
        elif c == 'return':
            s, v = I.value_obj(w.st, op[1])
            w.st, _, sig = I.do(s, 'cm_return', w.c, v)
            if m.on and w.d is not None:
                m.dest = op[1]
        elif c == 'var':
            w.st, _, sig = I.setv(w.st, w.vars[op[1]], op[2])
            if op[1] == 'name':
                w.now['name'] = op[2]
            else:
                i = int(op[1].split()[1])
                w.now['args'] = w.now['args'][:i] + (op[2],) + w.now['args'][i + 1:]
        return w, sig

    def get(self, what):
        s, v, sig = self.I.do(self.st.fork(), what, self.c)
        return 'error' if sig else v


def say(op):
    return {'on': 'issue', 'fix': 'fix values', 'off': 'end', 'handle': 'handle %s', 'ack': 'abort acknowledged %s', 'return': 'return %s',
            'var': '%s becomes %s'}[op[0]] % tuple(op[1:])


def drive(rep, I, what, w0, ops, depth, start=()):
    todo, seen, n = [(w0, ())], set(), 0
    idle = w0.get('cm_abort')
    while todo:
        w, hist = todo.pop(0)
        globs = sorted({r for r in map(root, w.st.mem) if r[0] == 'G'}, key=repr)
        k = (canon(w.st, *([addr_of(w.c)] + [addr_of(x) for x in w.vars.values()] + ([addr_of(w.d)] if w.d is not None else []) + globs)),
             w.m.on, w.m.h, w.m.ab, w.m.dest, w.m.fixed, w.now['name'], w.now['args'])
        if k in seen or len(hist) >= depth + len(start):
            continue
        seen.add(k)
        for op in (ops if len(hist) >= len(start) else [start[len(hist)]]):
            if op[0] == 'on' and w.m.on or op[0] in ('off', 'fix') and not w.m.on or op[0] == 'var' and op[1] not in w.vars:
                continue
            if op[0] == 'fix' and w.m.fixed is not None:
                continue
            n += 1
            w2, sig = w.apply(op)
            h2 = hist + (op,)
            txt = '%s: %s' % (what, ', '.join(map(say, h2)))
            key = '%s|%s' % (what, op[0] if op[0] != 'handle' else op[1])
            m, o = w2.m, w.m
            if op[0] == 'handle' and w.m.on and not I.valid(op[1]):
                rep.check(sig is not None, 'I05-invalid', key, '%s: %s is taken for a handle' % (txt, op[1]), sample='a value that is no handle is refused')
                continue
            if not rep.check(sig is None, 'I05-error', key, '%s ends in an error %s' % (txt, sig)):
                continue
            told = {e[1][1:] for e in w2.st.trace if e[0] == 'notify'}
            ok = True
            hv = I.handles[m.h or 'NO_COMMAND_HANDLE']
            if m.on or not o.on:
                got = w2.get('cm_handle')
                if m.on:
                    ok &= rep.check(got == hv, 'I05-handle', key, '%s: the handle is %s' % (txt, I.hname(got)), sample='the handle last reported since the issue')
                    ok &= rep.check(w2.get('cm_known') == int(m.h is not None), 'I05-handle', key + '|known', '%s: whether a handle was reported reads %s' % (txt, w2.get('cm_known')),
                                    sample='handle known exactly after a report')
                    want = hv if m.h is not None else -1
                    ok &= rep.check(w2.get('cm_ack') == want, 'I05-handle', key + '|variable', '%s: the handle variable reads %s' % (txt, I.hname(w2.get('cm_ack'))),
                                    sample='the handle variable reads the handle')
            if not m.on:
                ok &= rep.check(w2.get('cm_ack') == -1, 'I05-handle', key + '|idle', '%s: the handle variable reads %s' % (txt, I.hname(w2.get('cm_ack'))),
                                sample='no handle to read while not issued')
            if op[0] == 'handle':
                if m.on:
                    ok &= rep.check({'ack', 'known'} <= told, 'I05-tells', key, '%s: told %s' % (txt, sorted(told)), sample='a reported handle is announced')
                else:
                    ok &= rep.check(not told, 'I05-late', key, '%s: a report to a command not issued is announced to %s' % (txt, sorted(told)), sample='late handle ignored')
            if m.on:
                first = w2.m.ab == 'start'
                got = w2.get('cm_abort')
                if first:
                    ok &= rep.check(got != 1, 'I05-abort', key + '|before', '%s: the abort counts as complete' % txt, sample='abort incomplete before its acknowledgement')
                else:
                    ok &= rep.check(got == int(m.ab), 'I05-abort', key, '%s: abort completion reads %s' % (txt, got), sample='abort completion is the acknowledgement')
            if op[0] == 'ack':
                if m.on and op[1] and o.ab is not True:
                    ok &= rep.check('abort' in told, 'I05-tells', key, '%s: told %s' % (txt, sorted(told)), sample='an abort acknowledgement is announced')
                if not m.on:
                    ok &= rep.check(not told, 'I05-late', key, '%s: announced to %s' % (txt, sorted(told)), sample='late acknowledgement ignored')
            if w2.d is not None:
                s, v, sg = I.do(w2.st.fork(), 'x_valuep', w2.d)
                r = I.raw(s, v)
                r = None if r == U else r
                ok &= rep.check(r == m.dest, 'I05-return', key, '%s: the destination holds %r, not %r' % (txt, r, m.dest), sample='the destination holds the last value returned')
                if op[0] == 'return' and m.dest != o.dest:
                    ok &= rep.check('dest' in told, 'I05-tells', key, '%s: told %s' % (txt, sorted(told)), sample='a returned value is announced')
            if m.on and m.fixed is not None:
                s, c, sg = I.do(w2.st.fork(), 'cm_command', w2.c)
                got = I.skey(s, c) if not sg else 'error'
                ok &= rep.check(got == m.fixed, 'I05-issued', key, '%s: the command is %s, it was issued as %s' % (txt, got, m.fixed),
                                sample='name and arguments are those when issued')
            if ok:
                todo.append((w2, h2))
    return n


def run(P, rep):
    rep.rule('real commands interpreted over bounded histories of being issued, ended and reported on: handle, handle variable, abort '
             'completion and destination hold the last report since the issue, reports to a command not issued change and announce '
             'nothing, and name and arguments are those of the moment they were fixed')
    I = RaI(P)
    I.handles = {i['n']: i['v'] for i in P.enum('CommandHandleValue')['vals']}
    back = {v: k for k, v in I.handles.items()}
    I.hname = lambda v: back.get(v, v)
    lo, hi = I.handles['NO_COMMAND_HANDLE'], I.handles['COMMAND_HANDLE_MAX']
    I.valid = lambda h: lo < I.handles[h] < hi
    deep = rep.tier == 'thorough'
    n = 0
    valid = [h for h in I.handles if I.valid(h)]
    H = [('handle', h) for h in (valid if deep else ['COMMAND_ACCEPTED', 'COMMAND_SUCCESS', 'COMMAND_DENIED'])]
    base = [('on',), ('off',)]
    cn = ('const', 'go')
    n += drive(rep, I, 'each handle', World5(I, None, cn, None), [('handle', h) for h in valid] + base, 5 + deep)
    n += drive(rep, I, 'no handle', World5(I, None, cn, None), [('handle', h) for h in I.handles if not I.valid(h)], 1, (('on',),))
    n += drive(rep, I, 'handle and abort', World5(I, None, cn, None), base + H + [('ack', True), ('ack', False)], 5 + deep)
    for d, v1, v2 in (('Integer', 3, 4), ('Boolean', True, False), ('Real', 1.5, 2.5), ('String', 'ja', 'nein')):
        n += drive(rep, I, d + ' destination', World5(I, d, cn, None), base + [('return', v1), ('return', v2), ('return', None)] + H[:1], 5 + deep)
    n += drive(rep, I, 'no destination', World5(I, None, cn, None), base + [('return', 3)], 3)
    n += drive(rep, I, 'constant name and arguments', World5(I, None, cn, [('const', 1), ('const', 'x'), ('const', True)]), base + [('fix',)] + H[:1], 5 + deep)
    n += drive(rep, I, 'variable name', World5(I, None, ('String', 'go'), [('const', 1)]), base + [('fix',), ('var', 'name', 'stop'), ('var', 'name', 'go')], 5 + deep)
    n += drive(rep, I, 'variable argument', World5(I, None, cn, [('const', 'x'), ('Integer', 1)]),
               base + [('fix',), ('var', 'argument 1', 2), ('var', 'argument 1', 1)], 5 + deep)
    n += drive(rep, I, 'variable name and argument', World5(I, 'Integer', ('String', 'go'), [('Integer', 1)]),
               base + [('fix',), ('var', 'argument 0', 2), ('var', 'name', 'stop'), ('return', 7)], 5 + deep)
    rep.floor('operations', n, 200)
    rep.fn(*[k for k in I.analysed if not k.startswith('witness::')])
