"""<algorithm> over element ranges of one container (concrete, or symbolic up to the loop bound)."""
from interp import T, Ptr, Fn, RefBind, mk, ptr, addr_of, params_of

NAMES = {'find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'count', 'count_if',
         'remove', 'remove_if', 'distance', 'fill', 'copy', 'next', 'prev', 'advance', 'sort', 'stable_sort', 'lower_bound', 'upper_bound'}


def _elem_args(I, st, f, elems):
    """values to pass for by-value parameters, addresses for references"""
    fn = None
    if isinstance(f, Ptr):
        f2 = st.mem.get(f.addr)
        f = f2 if isinstance(f2, Fn) else f
    if isinstance(f, Fn):
        fn = I.P.fns.get(f[0])
    out = []
    for i, e in enumerate(elems):
        t = fn['params'][i]['t'] if fn and i < len(fn['params']) else '&'
        if t.endswith('&') or I.is_class(t):
            out.append(ptr(e))
        else:
            out.append(I.load(st, e, t))
    return out


def _callop(I, cls):
    return [m for c, m in I.P._methods.values() if c['n'] == cls and m.get('n') == 'operator()'] if cls else []


def _call(I, st, f, elem, ctx):
    cls = None
    if isinstance(f, Ptr) and not isinstance(st.mem.get(f.addr), Fn):
        cls = st.cls.get(f.addr)
    if cls:
        m = _callop(I, cls)
        if m:
            from interp import Ctx
            c = Ctx(key=m[0]['key'], name='operator()', cls=cls, this=f, args=[ptr(elem)], node=ctx.node,
                    frame=ctx.frame, argnodes=[])
            return I.call(st, c)
    return I.call_value(st, f, _elem_args(I, st, f, [elem]), ctx.node, ctx.frame)


def walk(I, st, a, i, end, visit):
    """visit(st, elem) -> [(st, stop?, value, sig)]; returns [(st, stopped, index, value, sig)]"""
    out = []
    work = [(st, i)]
    while work:
        s, k = work.pop()
        if isinstance(end, int):
            brs = [(s, k >= end)]
        elif isinstance(k, int) and isinstance(i, int) and k - i > I.loop_bound:
            I.on_cut(None)
            out.append((s, False, end, None, None))
            continue
        else:
            brs = I.truth(s, I.compare(s, '==', k, end))
        for s1, done in brs:
            if done:
                out.append((s1, False, k, None, None))
                continue
            for s2, stop, v, sig in visit(s1, ('I', a, k)):
                if stop or sig:
                    out.append((s2, True, k, v, sig))
                else:
                    work.append((s2, I.arith('+', k, 1, 'long')))
    return out


def algo(I, st, ctx):
    name, args = ctx.name, ctx.args
    from models import itval, adv, neg
    if name in ('next', 'prev') and args:
        v = itval(I, st, args[0])
        k = args[1] if len(args) > 1 else 1
        if isinstance(v, Ptr) and v.addr[0] == 'I':
            return [(st, adv(I, v, k if name == 'next' else neg(k), st))]
        return None
    if len(args) < 2:
        return None
    b, e = itval(I, st, args[0]), itval(I, st, args[1])
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.addr[0] == 'I' and e.addr[0] == 'I' and b.addr[1] == e.addr[1]):
        return None
    a, i, end = b.addr[1], b.addr[2], e.addr[2]
    if isinstance(end, int) and not isinstance(i, int):
        return None
    if name == 'distance':
        return [(st, I.arith('-', end, i, 'long'))]
    et = params_of(ctx.key)[-1] if params_of(ctx.key) else ''

    def ret(outs, f):
        return [(s, f(st_, k), None) if not sig else (s, None, sig) for s, st_, k, v, sig in outs]
    if name in ('find', 'count'):
        t = et.rstrip('&').strip()
        val = args[2]
        val = I.rd(st, val, t) if isinstance(val, Ptr) and (val.addr in st.mem) else val
        if I.is_class(t) and 'basic_string' not in t:
            return None

        def visit(s, el):
            x = I.load(s, el, t)
            return [(s2, r, None, None) for s2, r in I.truth(s, I.compare(s, '==', x, val))]
        if name == 'find':
            return ret(walk(I, st, a, i, end, visit), lambda stop, k: ptr(('I', a, k)))
        return None
    if name in ('find_if', 'any_of', 'none_of', 'all_of', 'find_if_not'):
        want = name in ('find_if', 'any_of', 'none_of')

        def visit(s, el):
            out = []
            for o in _call(I, s, args[2], el, ctx):
                s2, v, sig = (tuple(o) + (None,))[:3]
                if sig:
                    out.append((s2, True, None, sig))
                    continue
                for s3, r in I.truth(s2, v):
                    out.append((s3, r == want, None, None))
            return out
        w = walk(I, st, a, i, end, visit)
        if name in ('find_if', 'find_if_not'):
            return ret(w, lambda stop, k: ptr(('I', a, k)))
        return ret(w, lambda stop, k: stop == (name == 'any_of'))
    if name in ('lower_bound', 'upper_bound') and isinstance(i, int) and isinstance(end, int) and len(args) > 2:
        return bound(I, st, ctx, a, i, end)
    if name == 'for_each':
        def visit(s, el):
            return [(tuple(o) + (None,))[:3] and ((tuple(o) + (None,))[0], bool((tuple(o) + (None,))[2]), None, (tuple(o) + (None,))[2])
                    for o in _call(I, s, args[2], el, ctx)]
        return ret(walk(I, st, a, i, end, visit), lambda stop, k: args[2])
    if name in ('remove', 'remove_if', 'count_if') and isinstance(end, int) and isinstance(i, int):
        t = et.rstrip('&').strip()
        states = [(st, [], 0)]
        for k in range(i, end):
            nxt = []
            for s, keep, n in states:
                el = ('I', a, k)
                if name == 'remove':
                    if I.is_class(t):
                        return None
                    val = args[2]
                    val = I.rd(s, val, t) if isinstance(val, Ptr) and (val.addr in s.mem) else val
                    rs = I.truth(s, I.compare(s, '==', I.load(s, el, t), val))
                else:
                    rs = []
                    for o in _call(I, s, args[2], el, ctx):
                        if len(o) > 2 and o[2]:
                            return None
                        rs += I.truth(o[0], o[1])
                for s2, r in rs:
                    nxt.append((s2, keep if r else keep + [k], n + bool(r)))
            states = nxt
        out = []
        for s, keep, n in states:
            if name == 'count_if':
                out.append((s, n))
                continue
            for j, k in enumerate(keep):
                if i + j != k:
                    move(I, s, ('I', a, i + j), ('I', a, k))
            out.append((s, ptr(('I', a, i + len(keep)))))
        return out
    if name in ('sort', 'stable_sort') and isinstance(end, int) and isinstance(i, int):
        return sort(I, st, ctx, a, i, end, args[2] if len(args) > 2 else None)
    if name == 'fill' and isinstance(end, int) and isinstance(i, int):
        v = args[2]
        v = I.rd(st, v, '') if isinstance(v, Ptr) and v.addr in st.mem else v
        for k in range(i, end):
            I.store(st, ('I', a, k), v, ctx.node)
        return [(st, None)]
    return None


def less(I, st, ctx, f, x, y, cls):
    """[(state, bool)]: does the element at x order before the one at y?"""
    from interp import Ctx
    if f is not None:
        g = f
        if isinstance(f, Ptr) and isinstance(st.mem.get(f.addr), Fn):
            g = st.mem[f.addr]
        if isinstance(g, Fn):
            outs = I.call_value(st, f, _elem_args(I, st, f, [x, y]), ctx.node, ctx.frame)
        else:
            c = st.cls.get(f.addr) if isinstance(f, Ptr) else None
            m = _callop(I, c)
            if not m:
                return None
            outs = I.call(st, Ctx(key=m[0]['key'], name='operator()', cls=c, this=f, args=[ptr(x), ptr(y)], node=ctx.node,
                                  frame=ctx.frame, argnodes=[]))
    elif cls is None or not I.is_class(cls):
        return I.truth(st, I.compare(st, '<', I.load(st, x, cls or ''), I.load(st, y, cls or '')))
    else:
        ops = [g for g in I.P.fns.values() if g['n'] == 'operator<' and (
            not g.get('cls') and len(g['params']) == 2 and all(cls in p['t'] for p in g['params']) or g.get('cls') == cls and len(g['params']) == 1)]
        if len(ops) != 1:
            return None
        g = ops[0]
        mem = bool(g.get('cls'))
        outs = I.call(st, Ctx(key=g['key'], name='operator<', cls=g.get('cls') or '', this=ptr(x) if mem else None,
                              args=[ptr(y)] if mem else [ptr(x), ptr(y)], node=dict(ctx.node, f=g['key']), frame=(ctx.frame, 'less'), argnodes=[]))
    r = []
    for o in outs:
        if len(o) > 2 and o[2]:
            return None
        r += I.truth(o[0], o[1])
    return r


def sort(I, st, ctx, a, i, end, f):
    cls = st.cls.get(('I', a, i)) if i < end else None
    work = [(st, [])]
    for k in range(i, end):
        nxt = []
        for s, o in work:
            todo = [(s, len(o))]
            while todo:
                s1, pos = todo.pop()
                if pos == 0:
                    nxt.append((s1, [k] + o))
                    continue
                rs = less(I, s1, ctx, f, ('I', a, k), ('I', a, o[pos - 1]), cls)
                if rs is None:
                    return None
                for s2, b in rs:
                    if b:
                        todo.append((s2, pos - 1))
                    else:
                        nxt.append((s2, o[:pos] + [k] + o[pos:]))
        work = nxt
    out = []
    for s, o in work:
        if o != sorted(o):
            for j, k in enumerate(o):
                move(I, s, ('TMP', 'sort', j), ('I', a, k))
            for j in range(len(o)):
                I._clear(s, ('I', a, i + j))
                move(I, s, ('I', a, i + j), ('TMP', 'sort', j))
                I._clear(s, ('TMP', 'sort', j))
        out.append((s, None))
    return out


def move(I, st, dst, src):
    """element assignment, whatever the element is"""
    if src in st.mem and not any(k[0] in ('F', 'I') and I._under(k, src) for k in st.mem):
        st.mem[dst] = st.mem[src]
        return
    for k in [k for k in st.mem if k == dst or (k[0] in ('F', 'I') and I._under(k, dst))]:
        del st.mem[k]
    st.mem.pop(('=', dst), None)
    I.copy_object(st, dst, src)
    if src in st.mem:
        st.mem[dst] = st.mem[src]


def erase(I, st, a, n, args):
    """vector::erase on a vector of concrete length n"""
    from models import itval
    f = itval(I, st, args[0])
    if not (isinstance(f, Ptr) and f.addr[0] == 'I' and isinstance(f.addr[2], int)):
        return None
    i = f.addr[2]
    j = i + 1
    if len(args) > 1:
        e = itval(I, st, args[1])
        if not (isinstance(e, Ptr) and e.addr[0] == 'I' and isinstance(e.addr[2], int)):
            return None
        j = e.addr[2]
    d = j - i
    if d:
        for k in range(j, n):
            move(I, st, ('I', a, k - d), ('I', a, k))
        for k in range(n - d, n):
            I._clear(st, ('I', a, k))
        st.mem[('F', a, '$len')] = n - d
    return [(st, ptr(('I', a, i)))]


def insert(I, st, a, n, args):
    from models import itval
    f = itval(I, st, args[0])
    if len(args) == 3 and isinstance(f, Ptr) and f.addr[0] == 'I' and isinstance(f.addr[2], int):
        b, e = itval(I, st, args[1]), itval(I, st, args[2])
        if not all(isinstance(x, Ptr) and x.addr[0] == 'I' and isinstance(x.addr[2], int) for x in (b, e)) or b.addr[1] != e.addr[1] \
                or b.addr[1] == a:
            return None
        i, d = f.addr[2], e.addr[2] - b.addr[2]
        for k in range(n - 1, i - 1, -1):
            move(I, st, ('I', a, k + d), ('I', a, k))
        for k in range(d):
            I._clear(st, ('I', a, i + k))
            I.copy_object(st, ('I', a, i + k), ('I', b.addr[1], b.addr[2] + k))
        st.mem[('F', a, '$len')] = n + d
        return [(st, ptr(('I', a, i)))]
    if len(args) != 2 or not (isinstance(f, Ptr) and f.addr[0] == 'I' and isinstance(f.addr[2], int)):
        return None
    i = f.addr[2]
    x = args[1]
    for k in range(n, i, -1):
        move(I, st, ('I', a, k), ('I', a, k - 1))
    I._clear(st, ('I', a, i))
    if isinstance(x, Ptr) and (x.addr in st.mem or any(k[0] in ('F', 'I') and I._under(k, x.addr) for k in st.mem)):
        move(I, st, ('I', a, i), x.addr)
    else:
        st.mem[('I', a, i)] = x
    st.mem[('F', a, '$len')] = n + 1
    return [(st, ptr(('I', a, i)))]


def bound(I, st, ctx, a, i, end):
    """binary search as the library does it, with the comparison given (or <)"""
    from interp import Ctx
    low = ctx.name == 'lower_bound'
    ps = params_of(ctx.key)
    vt = ps[2].strip() if len(ps) > 2 else ''
    val, f = ctx.args[2], ctx.args[3] if len(ctx.args) > 3 else None
    g = f
    if isinstance(f, Ptr) and isinstance(st.mem.get(f.addr), Fn):
        g = st.mem[f.addr]
    cls = st.cls.get(f.addr) if isinstance(f, Ptr) else None
    ms = _callop(I, cls) if f is not None and not isinstance(g, Fn) else []
    if len(ms) > 1:
        k = 1 if low else 0
        ms = [m for m in ms if (params_of(m['key']) + ['', ''])[k].strip() == vt]
    if f is not None and not isinstance(g, Fn) and len(ms) != 1:
        return None

    def call(s, el):
        if f is None:
            t = vt.rstrip('&').strip()
            t = t[6:] if t.startswith('const ') else t
            if I.is_class(t) and 'basic_string' not in t:
                return None
            x, v = I.load(s, el, t), I.rd(s, val, t) if isinstance(val, Ptr) and val.addr in s.mem else val
            return [(s, I.compare(s, '<', x, v) if low else I.compare(s, '<', v, x))]
        if isinstance(g, Fn):
            ar = _elem_args(I, s, f, [el])
            return I.call_value(s, f, ar + [val] if low else [val] + ar, ctx.node, ctx.frame)
        return I.call(s, Ctx(key=ms[0]['key'], name='operator()', cls=cls, this=f, args=[ptr(el), val] if low else [val, ptr(el)],
                             node=ctx.node, frame=ctx.frame, argnodes=[]))
    out, work = [], [(st, i, end - i)]
    while work:
        s, first, n = work.pop()
        if n <= 0:
            out.append((s, ptr(('I', a, first))))
            continue
        h = n // 2
        outs = call(s, ('I', a, first + h))
        if outs is None:
            return None
        for o in outs:
            s2, v, sig = (tuple(o) + (None,))[:3]
            if sig:
                out.append((s2, None, sig))
                continue
            for s3, r in I.truth(s2, v):
                if bool(r) == low:
                    work.append((s3, first + h + 1, n - h - 1))
                else:
                    work.append((s3, first, h))
    return out
