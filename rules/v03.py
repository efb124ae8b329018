"""V03: converting an enumerated value to its name and parsing that name back gives the same value."""
from interp import Interp, State, Ptr, ptr, T
from models import strval as strval1
from facts import AnalysisBroken

MIN_OBLIGATIONS = 200


def strval(I, st, v):
    for _ in range(4):
        if not isinstance(v, Ptr):
            break
        v = strval1(I, st, v)
    return v


# enum, name function, parse function, validity function, values without a name of their own
TABLES = [
    ('NodeState', 'nodeStateName', 'parseNodeState', 'isNodeStateValid', ('NO_NODE_STATE', 'NODE_STATE_MAX')),
    ('NodeOutcome', 'outcomeName', 'parseNodeOutcome', 'isNodeOutcomeValid', ('NO_OUTCOME', 'OUTCOME_MAX')),
    ('FailureType', 'failureTypeName', 'parseFailureType', 'isFailureTypeValid', ('NO_FAILURE', 'FAILURE_TYPE_MAX')),
    ('CommandHandleValue', 'commandHandleValueName', 'parseCommandHandleValue', 'isCommandHandleValid',
     ('NO_COMMAND_HANDLE', 'COMMAND_HANDLE_MAX')),
    ('ValueType', 'valueTypeName', 'parseValueType', None,
     ('UNKNOWN_TYPE', 'SCALAR_TYPE_MAX', 'ARRAY_TYPE_MAX', 'TYPE_MAX', 'INTERNAL_TYPE_OFFSET', 'ARRAY_TYPE')),
    ('PlexilNodeType', 'nodeTypeString', 'parseNodeType', None, ('NodeType_uninitialized', 'NodeType_error')),
]


class NI(Interp):
    concrete_bound = 60
    loop_bound = 60

    def declare(self, d, s, fr, this):
        if not d.get('static') or not d.get('init'):
            return Interp.declare(self, d, s, fr, this)
        a = ('G', d['q'])
        return [(x, sig) for x, v, sig in self.init_at(s, a, d['init'], d['t'], fr, this)]

    def on_stream(self, st, n, fr, this):
        return None         # evaluate stream insertions as calls

    def on_call(self, st, ctx):
        if ctx.name in ('operator<<', '<<') and ctx.key.startswith('std::'):
            v = ctx.args[-1]
            st.ev('out', strval(self, st, v) if isinstance(v, (Ptr, str)) else v)
            return [(st, ctx.this if ctx.this is not None else ctx.args[0])]
        return None


def _one(I, f, args):
    outs = [(s, v) for s, v, sig in I.start(f, State(), None, args) if not (sig and sig[0] == 'thr')]
    return outs


def run(P, rep):
    rep.rule('name tables enumerated: for every enumerator the name function and the parser are abstractly interpreted on the concrete '
             'value/name; parse(name(v)) = v, names pairwise different, every other string parses to the "none" value')
    allnames = set()
    tabs = []
    for enum, namer, parser, valid, none in TABLES:
        vals = [(i['n'], i['v']) for i in P.enum(enum)['vals']]
        real = [(n, v) for n, v in vals if n not in none]
        none_v = dict(vals)[none[0]] if enum != 'PlexilNodeType' else dict(vals)['NodeType_error']
        I = NI(P)
        nf = P.find('PLEXIL::' + namer, required=False)
        pfs = [f for f in P.find('PLEXIL::' + parser, required=False)]
        if len(nf) != 1 or not pfs:
            raise AnalysisBroken('%s / %s not found' % (namer, parser))
        names = {}
        for n, v in real:
            outs = _one(I, nf[0], [v])
            got = [strval(I, s, r) for s, r in outs]
            if not rep.check(len(got) == 1 and isinstance(got[0], str) and got[0] != '', 'name', '%s|%s' % (enum, n),
                             '%s: %s has no definite printed name (%r)' % (namer, n, got), {'value': n}):
                continue
            other = [m for m, x in names.items() if x[0] == got[0]]
            rep.check(not other, 'distinct', '%s|%s' % (enum, n), '%s: %s and %s have the same name "%s"' % (namer, n, other[:1], got[0]))
            names[n] = (got[0], v)
            allnames.add(got[0])
        for f in nf + pfs:
            rep.fn(f['key'])
        tabs.append((enum, parser, pfs, names, none_v, valid, vals, real, namer, nf[0]))
        # values without a name must not print the name of a real one
        for n, v in vals + [('<one past the last>', max(x for _, x in vals) + 1)]:
            if (n, v) in real or n == 'ARRAY_TYPE':
                continue
            for s, r in _one(I, nf[0], [v]):
                x = strval(I, s, r)
                rep.check(x not in [y[0] for y in names.values()], 'invalid-name', '%s|%s' % (enum, n),
                          '%s: the invalid value %s prints as the valid name "%s"' % (namer, n, x))
    for enum, parser, pfs, names, none_v, valid, vals, real, namer, nf in tabs:
        own = {x[0] for x in names.values()}
        bad = set()
        for x in sorted(allnames | own):
            if x not in own:
                bad.add(x)
            for y in (x[:-1], x + 'X', x + ' ', ' ' + x, x.lower(), x.upper(), x[1:], x[:1], x[0] + 'Q' + x[2:],
                      x[:5] + '?' + x[6:]):
                if y not in own and not (enum == 'ValueType' and y == 'Array'):
                    bad.add(y)
        bad |= {'', 'NO_COMMAND_HANDLE', 'UNKNOWN', 'NO_STATE', 'NO_OUTCOME', 'NO_FAILURE'}
        I = NI(P)
        for f in pfs:
            sig = 'char' if 'char const' in f['key'].split('(')[1][:12] or 'const char' in f['key'].split('(')[1][:12] and \
                'basic_string' not in f['key'].split('(')[1] else 'string'
            for n, (nm, v) in sorted(names.items()):
                got = [r for s, r in _one(I, f, [nm])]
                rep.check(got == [v], 'round-trip', '%s|%s' % (enum, n),
                          '%s("%s") gives %r, not %s (%d)' % (parser, nm, [g if isinstance(g, int) else 'undetermined' for g in got], n, v),
                          {'function': f['key'][:80], 'name': nm, 'value': v})
            for x in sorted(bad):
                got = [r for s, r in _one(I, f, [x])]
                rep.check(got == [none_v], 'reject', '%s|%s' % (enum, x),
                          '%s accepts "%s", which names no value, as %r' % (parser, x, [g if isinstance(g, int) else 'undetermined' for g in got]))
            if enum == 'ValueType' and sig == 'char':
                got = [r for s, r in _one(I, f, [0])]
                rep.check(got == [none_v], 'reject', enum + '|null', '%s of a null name gives %r' % (parser, got))
        if valid:
            vf = P.one('PLEXIL::' + valid)
            rep.fn(vf['key'])
            rv = {v for _, v in real}
            for v in range(0, max(x for _, x in vals) + 3):
                got = [r for s, r in _one(I, vf, [v])]
                rep.check(len(got) == 1 and isinstance(got[0], int) and bool(got[0]) == (v in rv), 'valid', '%s|%d' % (enum, v),
                          '%s(%d) gives %r' % (valid, v, got))
            # the printed form of a value is its name
            pv = [f for f in P.find('PLEXIL::printValue', required=False) if f['params'] and enum in str(f['params'][0].get('t', ''))
                  and 'ArrayImpl' not in str(f['params'][0])]
            for f in pv[:1]:
                rep.fn(f['key'])
                for n, (nm, v) in sorted(names.items()):
                    st = State()
                    a = ('O', 'val')
                    st.mem[a] = v
                    outs = [s for s, r, sg in I.start(f, st, None, [ptr(a), ptr(('O', 'stream'))]) if not sg]
                    got = ['|'.join(str(e[1]) for e in s.trace if e[0] == 'out') for s in outs]
                    rep.check(got == [nm], 'print', '%s|%s' % (enum, n), 'printing %s writes %r instead of its name %s' % (n, got, nm))
    rep.floor('tables', len(tabs), 6)
    rep.assume('the set of strings tried as invalid names is finite (every valid name of every table, truncated, extended, re-cased and '
               'with characters replaced); it is an enumeration of realistic misreadings, not all strings')
