"""std::map and std::set with decided keys. An element lives at ('I', container, ('key', k)); the keys present,
in iteration order, are the tuple at ('F', container, '$keys')."""
from interp import T, Ptr, RefBind, mk, ptr, addr_of, isconst, base_type, strip_ref, Ctx

MAPS = ('std::map<', 'std::set<', 'std::unordered_map<', 'std::unordered_set<')
BASES = MAPS + ('std::_Rb_tree<',)


def targs(cls):
    t, out, d, e = cls.split('<', 1)[1], [], 0, ''
    for c in t:
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                break
            d -= 1
        elif c == ',' and d == 0:
            out.append(e.strip())
            e = ''
            continue
        e += c
    return out + [e.strip()]


def keys(st, a):
    return st.mem.get(('F', a, '$keys'))


def elem(a, k):
    return ('I', a, ('key', k))


def end(a):
    return ptr(('I', a, '$end'))


def order(I, st, ks):
    if hasattr(I, 'map_order'):
        r = I.map_order(st, ks)
        if r is not None:
            return tuple(r)
    if all(isinstance(k, str) for k in ks) or all(isinstance(k, (int, float)) for k in ks):
        return tuple(sorted(ks))
    return tuple(ks)


def key_of(I, st, v, kt):
    """decided identity of a key argument, or None"""
    import models
    if hasattr(I, 'map_key'):
        r = I.map_key(st, v, kt)
        if r is not None:
            return r
    kt = base_type(strip_ref(kt))
    if kt.startswith(('std::basic_string<', 'std::__cxx11::basic_string<')) or kt == 'std::string':
        x = models.strval(I, st, v)
        return x if isinstance(x, str) else ('t', x) if isinstance(x, T) and x[0] in ('lit', 'name') else None
    if kt.endswith('*') or kt.endswith('*const'):
        if isinstance(v, Ptr) and v.addr in st.mem:
            v = st.mem[v.addr]
        if isinstance(v, RefBind):
            v = v[0]
        return ('p', v.addr) if isinstance(v, Ptr) else v if isconst(v) else None
    if isinstance(v, Ptr):
        v = st.mem.get(v.addr)
    return v if isinstance(v, (int, float)) and not isinstance(v, T) else None


def put(I, st, ctx, a, kt, k, kv, vt, vargs, vnodes):
    """insert key k; returns states"""
    e = elem(a, k)
    slot = ('F', e, 'first') if vt is not None else e
    src = kv.addr if isinstance(kv, Ptr) else None
    if src is not None and (I.is_class(kt)):
        I.copy_object(st, slot, src)
        if src in st.cls:
            st.cls[slot] = st.cls[src]
        if isinstance(k, str) and slot not in st.mem:
            st.mem[slot] = k
    else:
        st.mem[slot] = kv if not (src is not None and src in st.mem and not base_type(kt).endswith('*')) else st.mem[src]
    st.mem[('F', a, '$keys')] = order(I, st, keys(st, a) + (k,))
    if vt is None:
        return [st]
    v = ('F', e, 'second')
    return init(I, st, ctx, v, vt, vargs, vnodes)


def init(I, st, ctx, a, t, args, nodes):
    import models
    t = base_type(t)
    if len(args) == 1 and isinstance(args[0], Ptr) and I.is_class(t):
        src = args[0].addr
        if t.startswith(models.SMART):
            if isinstance(st.mem.get(src), Ptr) and ('F', src, '$p') not in st.mem:
                st.mem[('F', a, '$p')] = st.mem[src]   # a raw pointer passed by reference
                return [st]
            st.mem[('F', a, '$p')] = models.spget(I, st, args[0]) if ('F', src, '$p') in st.mem or isinstance(st.mem.get(src), T) else args[0]
            if 'unique' in t and ('F', src, '$p') in st.mem:
                st.mem[('F', src, '$p')] = 0
            return [st]
        if t.startswith(('std::', '__gnu')):
            if t.startswith(models.STR):
                st.mem[a] = models.strval(I, st, args[0])
                return [st]
            I.copy_object(st, a, src)
            return [st]
    if len(args) == 1 and not I.is_class(t):
        v = args[0]
        if isinstance(v, Ptr) and not t.endswith('*'):
            v = I.rd(st, v, t)
        elif isinstance(v, Ptr) and v.addr in st.mem and isinstance(st.mem[v.addr], Ptr):
            v = st.mem[v.addr]
        st.mem[a] = v
        return [st]
    if not args and not I.is_class(t):
        st.mem[a] = 0 if t not in ('double', 'float') else 0.0
        return [st]
    if not args and t.startswith(models.SMART):
        st.mem[('F', a, '$p')] = 0
        return [st]
    if t.startswith(models.SMART) and args and isconst(args[0]):
        st.mem[('F', a, '$p')] = args[0]
        return [st]
    sh = t.split('<')[0].rsplit('::', 1)[-1]
    cands = [f for f in I.P.fns.values() if f.get('cls') == t and f['n'] == sh and len(f['params']) == len(args)]
    if len(args) == 1 and isinstance(args[0], Ptr):
        mv = [f for f in cands if '&&' in f['key']]
        cp = [f for f in cands if 'const ' + t + ' &' in f['key']]
        cands = (cp or mv or cands)
    st.cls[a] = t
    st.mem[a] = mk('object', t)
    if len(cands) == 1 and cands[0].get('body') is not None:
        f = cands[0]
        c = Ctx(key=f['key'], name=sh, cls=t, this=ptr(a), args=list(args), node=dict(ctx.node, t=t, f=f['key']),
                frame=(ctx.frame, 'mapelem'), dyn=None, argnodes=list(nodes)[:len(args)])
        return [s for s, v, sig in I.call(st, c, True) if not sig]
    if args and isinstance(args[0], Ptr):
        I.copy_object(st, a, addr_of(args[0]))
        st.cls[a] = t
    elif t.startswith(models.STR):
        st.mem[a] = ''
    elif t.startswith(models.SEQ):
        st.mem[('F', a, '$len')] = 0
    elif t.startswith(MAPS):
        st.mem[('F', a, '$keys')] = ()
    return [st]


def remove(I, st, ctx, a, k):
    """erase key k, destroying what its value owns"""
    import models
    e = elem(a, k)
    outs = [st]
    st.mem[('F', a, '$keys')] = tuple(x for x in keys(st, a) if x != k)
    cls = targs(st.cls[a]) if a in st.cls and '<' in st.cls[a] else []
    p = ('F', ('F', e, 'second'), '$p')
    if p in st.mem and not isconst(st.mem[p]):
        r = I.on_delete(st, st.mem[p], ctx.node)
        outs = r if r is not None else [st]
    for s in outs:
        for x in [x for x in s.mem if I._under(x, e) or x == e]:
            del s.mem[x]
        s.cls.pop(e, None)
    return outs


def copy_keys(I, st, a, b):
    I.copy_object(st, a, b)


def call(I, st, ctx, construct):
    import models
    cls, name, args = ctx.cls or '', ctx.name, ctx.args
    if not cls.startswith(BASES) or ctx.this is None:
        return None
    a = addr_of(ctx.this)
    if construct:
        st.cls[a] = cls
        if not args or len(args) == 1 and isinstance(args[0], T):
            st.mem[('F', a, '$keys')] = ()
            return [(st, ctx.this)]
        if ctx.node.get('ck') in ('copy', 'move') and keys(st, addr_of(args[0])) is not None:
            I.copy_object(st, a, addr_of(args[0]))
            if ctx.node.get('ck') == 'move':
                st.mem[('F', addr_of(args[0]), '$keys')] = ()
            return [(st, ctx.this)]
        return None
    x = st.mem.get(a)
    if keys(st, a) is None and isinstance(x, T) and x[0] == 'object':
        st.mem[('F', a, '$keys')] = ()
        st.cls.setdefault(a, cls)
    ks = keys(st, a)
    if ks is None:
        return None
    ta = targs(cls)
    if cls.startswith('std::_Rb_tree<'):
        return None
    ismap = 'map<' in cls.split('<')[0] + '<'
    kt, vt = ta[0], ta[1] if ismap else None
    if name in ('begin', 'cbegin'):
        return [(st, ptr(elem(a, ks[0])) if ks else end(a))]
    if name in ('end', 'cend'):
        return [(st, end(a))]
    if name == 'size':
        return [(st, len(ks))]
    if name == 'empty':
        return [(st, not ks)]
    if name == 'operator=' and args and keys(st, addr_of(args[0])) is not None:
        b = addr_of(args[0])
        for y in [y for y in st.mem if I._under(y, a)]:
            del st.mem[y]
        I.copy_object(st, a, b)
        return [(st, ctx.this)]
    if name == 'clear':
        states = [st]
        for k in ks:
            states = [s2 for s in states for s2 in remove(I, s, ctx, a, k)]
        return [(s, None) for s in states]
    if name in ('find', 'count', 'contains', 'at', 'operator[]', 'erase', 'insert', 'emplace', 'try_emplace', 'lower_bound', 'insert_or_assign'):
        v = args[0] if args else None
        rest, rnodes = list(args[1:]), list(ctx.argnodes[1:])
        if name == 'erase':
            v = models.itval(I, st, v) if isinstance(v, Ptr) and 'iterator' in ctx.key.split('(', 1)[1] else v
            if isinstance(v, Ptr) and v.addr[0] == 'I' and v.addr[1] == a and isinstance(v.addr[2], tuple):
                k = v.addr[2][1]
                i = ks.index(k) if k in ks else None
                if i is None:
                    return None
                nx = ptr(elem(a, ks[i + 1])) if i + 1 < len(ks) else end(a)
                return [(s, nx) for s in remove(I, st, ctx, a, k)]
        kv = v
        if name == 'insert' or name == 'emplace' and len(args) == 1:
            if ismap and isinstance(v, Ptr):
                kv = ptr(('F', v.addr, 'first'))
                f = st.mem.get(kv.addr)
                if isinstance(f, RefBind):
                    kv = f[0]
                rest = [ptr(('F', v.addr, 'second'))]
                rnodes = []
        k = key_of(I, st, kv, kt)
        if k is None:
            return None
        has = k in ks
        it = ptr(elem(a, k))
        if name == 'find':
            return [(st, it if has else end(a))]
        if name in ('count', 'contains'):
            return [(st, int(has) if name == 'count' else has)]
        if name == 'lower_bound':
            if has:
                return [(st, it)]
            o = order(I, st, ks + (k,))
            i = o.index(k)
            return [(st, ptr(elem(a, o[i + 1])) if i + 1 < len(o) else end(a))]
        if name == 'at':
            return [(st, ptr(('F', elem(a, k), 'second')))] if has else [(st, None, ('thr', 'std::out_of_range', None))]
        if name == 'erase':
            return [(s, int(has)) for s in (remove(I, st, ctx, a, k) if has else [st])]
        if name == 'operator[]':
            if has:
                return [(st, ptr(('F', elem(a, k), 'second')))]
            return [(s, ptr(('F', elem(a, k), 'second'))) for s in put(I, st, ctx, a, kt, k, kv, vt, [], [])]
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            t = ('TMP', ctx.frame, I.node_id(ctx.node))
            if not ismap:
                rest = []
            outs = [st] if has and name != 'insert_or_assign' else put(I, st, ctx, a, kt, k, kv, vt, rest, rnodes) if not has else \
                init(I, st, ctx, ('F', elem(a, k), 'second'), vt, rest, rnodes)
            for s in outs:
                s.mem[('F', t, 'first')] = it
                s.mem[('F', t, 'second')] = not has
            return [(s, ptr(t)) for s in outs]
    return None


def step(st, v, k):
    """iterator v moved by k positions, None if v is no map iterator"""
    a, i = v.addr[1], v.addr[2]
    ks = keys(st, a)
    if ks is None or not (i == '$end' or isinstance(i, tuple) and i and i[0] == 'key'):
        return None
    n = len(ks) if i == '$end' else ks.index(i[1]) if i[1] in ks else None
    if n is None or not isinstance(k, int):
        return mk('invalid-iterator', v)
    n += k
    return ptr(elem(a, ks[n])) if 0 <= n < len(ks) else end(a)
