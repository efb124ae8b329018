"""Models of the C++ standard library (and pugixml) used by the interpreter."""
import algo
import stdmap
from interp import (Ctx, T, Ptr, Fn, RefBind, mk, ptr, addr_of, isconst, base_type, strip_ref, short, ITER_PREFIX,
                    params_of)

SMART = ('std::unique_ptr<', 'std::shared_ptr<', 'std::__shared_ptr<', 'std::__shared_ptr_access<',
         'std::__uniq_ptr_impl<')
SEQ = ('std::vector<', 'std::array<', 'std::deque<', 'std::list<')
STR = 'std::basic_string<'


def itval(I, st, v):
    """value of an iterator expression (a variable reference, or the value itself)"""
    if isinstance(v, Ptr):
        a = v.addr
        if a[0] in ('L', 'TMP', 'F', 'O') or (a in st.mem and a[0] != 'I'):
            x = I.load(st, a, '')
            if isinstance(x, RefBind):
                x = itval(I, st, x[0])
            return x
        return v
    return v


def ver(st, a):
    return st.cnt.get(('ver', a), 0)


def bump(st, a):
    st.cnt[('ver', a)] = st.cnt.get(('ver', a), 0) + 1


def strval(I, st, v):
    if isinstance(v, str):
        return v
    if isinstance(v, Ptr):
        x = st.mem.get(v.addr)
        if isinstance(x, RefBind):
            return strval(I, st, x[0])
        if isinstance(x, T) and x[0] == 'object':
            return ''
        if x is None and v.addr not in st.mem:
            return I.load(st, v.addr, 'std::string')
        return x
    return v


def sp(I, st, v):
    """address of the smart pointer's raw pointer slot"""
    a = addr_of(v)
    return ('F', a, '$p')


def spget(I, st, v):
    if isconst(v):
        return v
    a = sp(I, st, v)
    if a in st.mem:
        return st.mem[a]
    b = a[1]
    x = st.mem.get(b)
    if isinstance(x, T) and x[0] == 'object':
        st.mem[a] = 0
        return 0
    if isinstance(x, T):
        st.mem[a] = mk('p', x)
        return st.mem[a]
    return I.load(st, a, '')


def locked(st, m):
    st.ev('lock', m)


def model(I, st, ctx, construct):
    key, name, cls = ctx.key, ctx.name, ctx.cls or ''
    args = ctx.args
    if cls in I.sys_records:
        if name == 'operator=' or construct and len(args) == 1:
            this = addr_of(ctx.this)
            I.copy_object(st, this, addr_of(args[0]))
            return [(st, ptr(this))]
        return [(st, None)] if construct else None
    if key.startswith('/') and '::std::' in key:      # instances over a lambda have internal linkage
        key = key[key.index('::std::') + 2:]
    if not (key.startswith(('std::', '__gnu_cxx::', 'operator new', 'mem', 'str', '__builtin', 'pugi::', 'isnan', 'floor', 'sqrt', 'abs'))
            or cls.startswith('std::')):
        return None
    q = short(key)
    if I.model_maps and cls.startswith(stdmap.BASES):
        r = stdmap.call(I, st, ctx, construct)
        if r is not None:
            return r
    # ---- constructors ------------------------------------------------------
    if construct:
        a = ctx.this.addr if isinstance(ctx.this, Ptr) else addr_of(ctx.this)
        if cls.startswith('std::atomic<') and len(args) == 1:
            I.store(st, a, args[0], ctx.node)
            return [(st, args[0])]
        if cls.startswith(SMART):
            slot = ('F', a, '$p')
            if not args:
                st.mem[slot] = 0
            else:
                v = args[0]
                at = base_type(strip_ref(ctx.argnodes[0].get('t', ''))) if ctx.argnodes else ''
                if at.startswith(SMART):
                    st.mem[slot] = spget(I, st, v)
                    if 'unique' in at or ctx.node.get('ck') == 'move' or '&&' in key:
                        st.mem[sp(I, st, v)] = 0
                else:
                    st.mem[slot] = v
            return [(st, ctx.this)]
        if cls.startswith(('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<', 'std::shared_lock<')):
            m = args[0] if args else None
            st.mem[('F', a, '$m')] = m
            tag = None
            if len(args) > 1:
                t = base_type(strip_ref(ctx.argnodes[1].get('t', '')))
                tag = t
            if m is None or (tag and 'defer' in tag):
                st.mem[('F', a, '$owned')] = False
                return [(st, ctx.this)]
            if tag and 'adopt' in tag:
                st.mem[('F', a, '$owned')] = True
                return [(st, ctx.this)]
            if tag and 'try' in tag:
                n = st.count(('try', m))
                t = mk('trylock', m, n)
                out = []
                for s, b in I.truth(st, t):
                    if b:
                        s.ev('trylock', m)
                    s.mem[('F', a, '$owned')] = b
                    out.append((s, ctx.this))
                return out
            st.ev('lock', m)
            st.mem[('F', a, '$owned')] = True
            return [(st, ctx.this)]
        if cls.startswith(STR):
            if not args:
                st.mem[a] = ''
            elif len(args) == 1 or (len(args) == 2 and 'allocator' in str(params_of(key)[-1:])):
                st.mem[a] = strval(I, st, args[0])
            else:
                st.mem[a] = mk('string', *[strval(I, st, x) for x in args])
            return [(st, ctx.this)]
        if cls.startswith(('std::queue<', 'std::stack<')) and not args:
            st.mem[('F', a, '$len')] = 0
            return [(st, ctx.this)]
        if cls.startswith(SEQ):
            if not args:
                st.mem[('F', a, '$len')] = 0
            elif ctx.node.get('ck') in ('copy', 'move'):
                materialise(I, st, addr_of(args[0]), cls)
                I.copy_object(st, a, addr_of(args[0]))
                src = addr_of(args[0])
                if ('F', a, '$len') not in st.mem:
                    st.mem[('F', a, '$len')] = mk('size', src, ver(st, src))
                if ctx.node.get('ck') == 'move':
                    st.mem[('F', src, '$len')] = 0
            elif len(args) >= 1:
                fill = args[1] if len(args) > 1 and 'allocator' not in params_of(key)[1:2][0] else None
                n = args[0]
                et = elem_type(cls)
                if isinstance(n, int) and et is not None and cls.startswith('std::vector<') and \
                        not (n and ctx.node.get('ck') == 'list'):
                    resize(I, st, a, 0, n, et, fill)
                    return [(st, ctx.this)]
                if isinstance(n, int) and n <= 300 and et is None and I.construct_elements and ctx.node.get('ck') != 'list' and \
                        cls.startswith('std::vector<'):
                    r = fill_objects(I, st, ctx, a, n, cls, fill if isinstance(fill, Ptr) else None)
                    if r is not None:
                        return r
                st.mem[('F', a, '$len')] = args[0] if not isinstance(args[0], Ptr) else mk('len', args[0])
                st.mem[('F', a, '$fill')] = mk('fill', *[addr_of(x) if isinstance(x, Ptr) else x for x in args])
            return [(st, ctx.this)]
        if cls.startswith('std::function<'):
            v = args[0] if args else 0
            if isinstance(v, Ptr):
                v = st.mem.get(v.addr, v)
            st.mem[a] = v
            return [(st, ctx.this)]
        if ctx.node.get('ck') in ('copy', 'move') and args:
            I.copy_object(st, a, addr_of(args[0]))
            return [(st, ctx.this)]
        r = I.on_opaque(st, ctx)
        if r is not None:
            return r
        if cls.startswith('std::pair<') and len(args) == 2:
            for f, v, t in zip(('first', 'second'), args, stdmap.targs(cls) + ['', '']):
                t = base_type(t)
                if isinstance(v, Ptr) and t.startswith(SMART):
                    st.mem[('F', ('F', a, f), '$p')] = spget(I, st, v)
                    if '&&' in key or 'unique_ptr' in t:
                        st.mem[sp(I, st, v)] = 0
                    continue
                if isinstance(v, Ptr) and t.startswith(STR):
                    st.mem[('F', a, f)] = strval(I, st, v)
                    continue
                if isinstance(v, Ptr) and v.addr not in st.mem and I.is_class(t):
                    I.copy_object(st, ('F', a, f), v.addr)
                    continue
                st.mem[('F', a, f)] = I.rd(st, v, '') if isinstance(v, Ptr) and v.addr in st.mem else v
            return [(st, ctx.this)]
        st.mem[a] = mk('obj', cls, tuple(x for x in args))
        return [(st, ctx.this)]
    # ---- free functions -----------------------------------------------------
    if name in ('move', 'forward', 'addressof', 'as_const', '__addressof', 'ref', 'cref') and len(args) == 1 and q.startswith('std::'):
        return [(st, args[0])]
    if q == 'std::swap' and len(args) == 2:
        a, b = addr_of(args[0]), addr_of(args[1])
        if a in st.mem and b in st.mem and not I.is_class(ctx.argnodes[0].get('t', '')):
            st.mem[a], st.mem[b] = st.mem[b], st.mem[a]
            return [(st, None)]
        if isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and I.is_class(ctx.argnodes[0].get('t', '')):
            t = ('TMP', ctx.frame, I.node_id(ctx.node))
            I.copy_object(st, t, a)
            I.copy_object(st, a, b)
            I.copy_object(st, b, t)
            return [(st, None)]
    if name in ('make_unique', 'make_shared') and q.startswith('std::'):
        t = key.split('<', 1)[1] if '<' in key else ''
        # first template argument
        d, cl = 0, ''
        for c in t:
            if c == '<':
                d += 1
            elif c == '>':
                if d == 0:
                    break
                d -= 1
            elif c == ',' and d == 0:
                break
            cl += c
        a = ('N', ctx.frame, I.node_id(ctx.node))
        if I.model_maps:
            c = st.count(('N', a))
            a = a + (c,) if c else a
            tmp = ('TMP', ctx.frame, I.node_id(ctx.node))
            outs = stdmap.init(I, st, ctx, a, cl.strip(), args, ctx.argnodes)
            for s in outs:
                s.cls[a] = cl.strip()
                s.mem[('F', tmp, '$p')] = ptr(a)
                I.on_new(s, a, cl.strip(), ctx.node)
            return [(s, ptr(tmp)) for s in outs]
        st.cls[a] = cl.strip()
        tmp = ('TMP', ctx.frame, I.node_id(ctx.node))
        st.mem[('F', tmp, '$p')] = ptr(a)
        I.on_new(st, a, cl.strip(), ctx.node)
        return [(st, ptr(tmp))]
    if name in ('operator==', 'operator!=') and len(args) + (ctx.this is not None) == 2:
        r = seq_equal(I, st, ctx)
        if r is not None:
            return r
    if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and \
            (ctx.this is None or cls.startswith(('std::', '__gnu_cxx'))) and len(args) + (ctx.this is not None) == 2:
        l, r = ([ctx.this] if ctx.this is not None else []) + list(args)
        nodes = ctx.argnodes if ctx.this is None else [None] + list(ctx.argnodes)
        op = name[8:]
        p = key
        if ('unique_ptr<' in p or 'shared_ptr<' in p) and not (cls or p.split('(', 1)[-1]).startswith(ITER_PREFIX) and \
                not any(base_type(strip_ref(x.get('t', ''))).startswith(ITER_PREFIX) for x in ctx.argnodes):
            def g(x, t):
                return spget(I, st, x) if isinstance(x, Ptr) or isinstance(x, T) else x
            return [(st, I.compare(st, op, g(l, 0), g(r, 0)))]
        if any(x in p for x in ITER_PREFIX) or 'iterator' in p:
            return [(st, I.compare(st, op, itval(I, st, l), itval(I, st, r)))]
        if STR in p:
            return [(st, I.compare(st, op, strval(I, st, l), strval(I, st, r)))]
        return [(st, mk(op, contents(I, st, l), contents(I, st, r)))]
    if q == 'std::make_pair' and len(args) == 2:
        a = ('TMP', ctx.frame, I.node_id(ctx.node))
        for f, v in zip(('first', 'second'), args):
            st.mem[('F', a, f)] = I.rd(st, v, '') if isinstance(v, Ptr) else v
        return [(st, ptr(a))]
    if name in algo.NAMES and q.startswith('std::') and ctx.this is None:
        r = algo.algo(I, st, ctx)
        if r is not None:
            return r
    if q in ('std::min', 'std::max') and len(args) == 2:
        a, b = I.rd(st, args[0], ''), I.rd(st, args[1], '')
        out = []
        for s, c in I.truth(st, I.compare(st, '<', a, b)):
            out.append((s, args[0] if c == (q == 'std::min') else args[1]))
        return out
    # ---- strings ------------------------------------------------------------
    if cls.startswith(STR) and ctx.this is not None:
        a = addr_of(ctx.this)
        v = strval(I, st, ctx.this)
        if name == 'operator=' or (name == 'assign' and len(args) == 1):
            st.mem[a] = strval(I, st, args[0]) if args else v
            I.on_store(st, a, st.mem[a], ctx.node)
            return [(st, ctx.this)]
        if name in ('operator+=', 'append', 'push_back'):
            xs = [strval(I, st, x) for x in args]
            if isinstance(v, str) and len(xs) == 1 and isinstance(xs[0], str):
                st.mem[a] = v + xs[0]
            elif v == '' and len(xs) == 1:
                st.mem[a] = xs[0]
            else:
                st.mem[a] = mk('cat', v, *xs)
            return [(st, ctx.this)]
        if name in ('size', 'length'):
            return [(st, len(v) if isinstance(v, str) else mk('strlen', v))]
        if name == 'empty':
            return [(st, len(v) == 0 if isinstance(v, str) else mk('==', mk('strlen', v), 0))]
        if name in ('c_str', 'data'):
            return [(st, v)]
        if name == 'clear':
            st.mem[a] = ''
            return [(st, None)]
        if name in ('operator[]', 'at'):
            return [(st, I.element(st, v if isinstance(v, (str, T)) else ctx.this, args[0]))]
        if name in ('find', 'substr', 'compare', 'find_first_of', 'back', 'front', 'rfind', 'find_last_of', 'find_first_not_of'):
            return [(st, mk('str_' + name, v, *[strval(I, st, x) for x in args]))]
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return [(st, mk('str_' + name, v))]
        return None
    if name == 'strcmp' and len(args) == 2:
        l, r = strval(I, st, args[0]), strval(I, st, args[1])
        if isinstance(l, str) and isinstance(r, str):
            return [(st, (l > r) - (l < r))]
        return [(st, mk('!', mk('==', l, r)))]
    if name == 'strlen' and len(args) == 1:
        l = strval(I, st, args[0])
        return [(st, len(l) if isinstance(l, str) else mk('strlen', l))]
    if name == 'operator+' and STR in key:
        return [(st, mk('cat', *[strval(I, st, x) for x in args]))]
    # ---- smart pointers -----------------------------------------------------
    if cls == 'std::_Bit_reference' and ctx.this is not None:
        if name == 'operator bool':
            return [(st, I.rd(st, ctx.this, 'bool', ctx.node))]
        if name == 'operator=' and len(args) == 1:
            I.store(st, addr_of(ctx.this), I.rd(st, args[0], 'bool', ctx.node) if isinstance(args[0], Ptr) else args[0], ctx.node)
            return [(st, ctx.this)]
    if cls.startswith(SMART) and ctx.this is not None:
        slot = sp(I, st, ctx.this)
        if name in ('get', 'operator->', 'operator*'):
            return [(st, spget(I, st, ctx.this))]
        if name == 'operator bool':
            v = spget(I, st, ctx.this)
            return [(st, bool(v) if isconst(v) else True if isinstance(v, (Ptr, Fn)) else mk('bool', v))]
        if name == 'release':
            v = spget(I, st, ctx.this)
            st.mem[slot] = 0
            return [(st, v)]
        if name == 'reset':
            old = spget(I, st, ctx.this)
            st.mem[slot] = args[0] if args else 0
            return drop(I, st, old, ctx, None)
        if name == 'operator=':
            old = spget(I, st, ctx.this)
            v = args[0]
            if isinstance(v, (Ptr, T)):
                x = spget(I, st, v)
                if 'unique' in cls or '&&' in key:
                    st.mem[sp(I, st, v)] = 0
            else:
                x = v
            st.mem[slot] = x
            return drop(I, st, old, ctx, ctx.this)
        if name == 'swap':
            o = sp(I, st, args[0])
            x, y = spget(I, st, ctx.this), spget(I, st, args[0])
            st.mem[slot], st.mem[o] = y, x
            return [(st, None)]
        if name == 'operator[]':
            return [(st, I.element(st, spget(I, st, ctx.this), args[0]))]
        return None
    # ---- locks --------------------------------------------------------------
    if cls.startswith(('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex')) and ctx.this is not None:
        if name == 'lock':
            st.ev('lock', ctx.this)
            return [(st, None)]
        if name == 'unlock':
            st.ev('unlock', ctx.this)
            return [(st, None)]
        if name == 'try_lock':
            n = st.count(('try', ctx.this))
            out = []
            for s, b in I.truth(st, mk('trylock', ctx.this, n)):
                if b:
                    s.ev('trylock', ctx.this)
                out.append((s, b))
            return out
    if cls.startswith(('std::unique_lock<', 'std::lock_guard<')) and ctx.this is not None:
        a = addr_of(ctx.this)
        m = st.mem.get(('F', a, '$m'))
        ow = ('F', a, '$owned')
        if name == 'lock':
            st.ev('lock', m)
            st.mem[ow] = True
            return [(st, None)]
        if name == 'unlock':
            st.ev('unlock', m)
            st.mem[ow] = False
            return [(st, None)]
        if name == 'try_lock':
            n = st.count(('try', m))
            out = []
            for s, b in I.truth(st, mk('trylock', m, n)):
                if b:
                    s.ev('trylock', m)
                s.mem[ow] = b
                out.append((s, b))
            return out
        if name in ('owns_lock', 'operator bool'):
            return [(st, st.mem.get(ow, False))]
        if name == 'release':
            st.mem[ow] = False
            return [(st, m)]
    # ---- iterators ----------------------------------------------------------
    if cls.startswith(ITER_PREFIX) and ctx.this is not None:
        a = addr_of(ctx.this)
        v = itval(I, st, ctx.this)
        if name in ('operator*', 'operator->', 'base'):
            return [(st, v)]
        if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
            step = args[0] if name.endswith('=') else 1
            new = adv(I, v, step if name in ('operator++', 'operator+=') else neg(step), st)
            if a[0] != 'I' and a[0] != 'D':
                st.mem[a] = new
            post = name in ('operator++', 'operator--') and len(args) == 1
            return [(st, v if post else (ctx.this if a[0] != 'I' else new))]
        if name in ('operator+', 'operator-'):
            o = args[0]
            o = itval(I, st, o) if isinstance(o, Ptr) else o
            if name == 'operator-' and isinstance(o, Ptr):
                return [(st, mk('-', v, o))]
            return [(st, adv(I, v, o if name == 'operator+' else neg(o), st))]
        if name == 'operator[]':
            return [(st, adv(I, v, args[0], st))]
        if name == 'operator=':
            st.mem[a] = itval(I, st, args[0])
            return [(st, ctx.this)]
        return None
    if name == 'operator-' and any(x in key for x in ITER_PREFIX) and len(args) == 2:
        return [(st, mk('-', itval(I, st, args[0]), itval(I, st, args[1])))]
    # ---- adaptors: a queue is the sequence below it ---------------------------
    if cls.startswith(('std::queue<', 'std::stack<')) and ctx.this is not None:
        q_, a = cls.startswith('std::queue<'), addr_of(ctx.this)
        if ('F', a, '$len') not in st.mem:
            st.mem[('F', a, '$len')] = 0
        n = st.mem[('F', a, '$len')]
        if name in ('pop', 'front', 'back', 'top') and n == 0 and hasattr(I, 'empty_access'):
            I.empty_access(st, ctx)
        if name == 'pop' and isinstance(n, int):
            return algo.erase(I, st, a, n, [ptr(('I', a, 0 if q_ else n - 1))] + ([] if q_ else [ptr(('I', a, n))])) and [(st, None)]
        if name in ('push', 'emplace', 'top', 'front', 'back', 'empty', 'size', 'swap', 'operator='):
            nm = {'push': 'push_back', 'emplace': 'emplace_back', 'top': 'back'}.get(name, name)
            c = Ctx(**{x: getattr(ctx, x) for x in Ctx.__slots__})
            c.name, c.cls, c.key = nm, 'std::deque<' + cls[cls.index('<') + 1:], key
            if nm == 'emplace_back' and hasattr(I, 'emplace_element'):
                r = I.emplace_element(st, c, ('I', a, n))
                if r is not None:
                    st.mem[('F', a, '$len')] = n + 1
                    return r
            return model(I, st, c, construct)
    # ---- sequences ----------------------------------------------------------
    if cls.startswith(SEQ + ('std::_Vector_base<',)) and ctx.this is not None:
        a = addr_of(ctx.this)
        L = ('F', a, '$len')

        def size():
            v = st.mem.get(L)
            if v is not None:
                return v
            x = st.mem.get(a)
            if isinstance(x, T) and x[0] == 'object':
                st.mem[L] = 0
                return 0
            return mk('size', a, ver(st, a))
        if name == 'size':
            return [(st, size())]
        if name == 'empty':
            v = size()
            return [(st, v == 0 if isinstance(v, int) else mk('==', v, 0))]
        if name in ('operator[]', 'at', 'front', 'back') and cls.startswith('std::vector<bool') and key.endswith(' const'):
            # const vector<bool> access yields the element's value
            i = args[0] if args else 0 if name == 'front' else I.arith('-', size(), 1, 'unsigned long')
            if name == 'at' and hasattr(I, 'vector_at'):
                return [(s2, I.rd(s2, p2, 'bool'), *rest) for s2, p2, *rest in I.vector_at(st, ctx, a, i, size())]
            return [(st, I.load(st, ('I', a, i), 'bool'))]
        if name in ('operator[]',):
            return [(st, ptr(('I', a, args[0])))]
        if name == 'at':
            return I.vector_at(st, ctx, a, args[0], size()) if hasattr(I, 'vector_at') else [(st, ptr(('I', a, args[0])))]
        if name == 'front':
            return [(st, ptr(('I', a, 0)))]
        if name == 'back':
            v = size()
            return [(st, ptr(('I', a, I.arith('-', v, 1, 'unsigned long'))))]
        if name in ('begin', 'cbegin', 'data'):
            return [(st, ptr(('I', a, 0)))]
        if name in ('end', 'cend'):
            return [(st, ptr(('I', a, size())))]
        if name in ('push_back', 'emplace_back') and args is not None:
            v = size()
            if isinstance(v, int):
                e = ('I', a, v)
                x = args[0] if len(args) == 1 else None
                if isinstance(x, Ptr):
                    t = ctx.argnodes[0].get('t', '')
                    if base_type(strip_ref(t)).startswith(SMART):
                        st.mem[('F', e, '$p')] = spget(I, st, x)
                        if name == 'emplace_back' or '&&' in key:
                            st.mem[sp(I, st, x)] = 0
                    elif I.is_class(strip_ref(t)):
                        I.copy_object(st, e, x.addr)
                    elif ctx.argnodes[0].get('k') in ('Ref', 'Member', 'Index', 'Un', 'This') or x.addr in st.mem:
                        st.mem[e] = I.rd(st, x, t) if not t.rstrip().endswith('*') or x.addr in st.mem else x
                    else:
                        st.mem[e] = x
                elif x is not None:
                    st.mem[e] = x
                st.mem[L] = v + 1
            else:
                st.mem[L] = I.arith('+', v, 1, 'unsigned long')
            r = I.on_opaque(st, ctx)
            bump(st, a)
            return r if r is not None else [(st, None)]
        if (name in ('erase', 'insert') or name == 'emplace' and len(args) == 2) and args and isinstance(size(), int):
            r = (algo.erase if name == 'erase' else algo.insert)(I, st, a, size(), args)
            if r is not None:
                I.on_opaque(st, ctx)
                bump(st, a)
                return r
        if name == 'clear':
            I.on_opaque(st, ctx)
            st.mem[L] = 0
            bump(st, a)
            return [(st, None)]
        if name == 'pop_back':
            I.on_opaque(st, ctx)
            st.mem[L] = I.arith('-', size(), 1, 'unsigned long')
            return [(st, None)]
        if name == 'resize':
            I.on_opaque(st, ctx)
            et = elem_type(cls)
            if et is None and isinstance(args[0], int) and isinstance(size(), int) and getattr(I, 'construct_elements', False):
                old = size()
                if old > args[0]:
                    r = drop_objects(I, st, ctx, a, args[0], old, cls)
                else:
                    r = fill_objects(I, st, ctx, a, args[0], cls, args[1] if len(args) > 1 else None, old)
                if r is not None:
                    return [(s, None) for s, _ in r]
            if isinstance(args[0], int) and isinstance(size(), int) and et is not None:
                resize(I, st, a, size(), args[0], et, args[1] if len(args) > 1 else None)
            st.mem[L] = args[0]
            bump(st, a)
            return [(st, None)]
        if name == 'reserve':
            return [(st, None)]
        if name == 'operator=':
            src = addr_of(args[0])
            if src == a:
                return [(st, ctx.this)]
            materialise(I, st, src, cls)
            n = st.mem.get(('F', src, '$len'))
            if n is None:
                n = mk('size', src, ver(st, src))
            I.copy_object(st, a, src)
            st.mem[L] = n
            if '&&' in key:
                st.mem[('F', src, '$len')] = 0
            bump(st, a)
            I.on_opaque(st, ctx)
            return [(st, ctx.this)]
        if name == 'swap':
            b = addr_of(args[0])
            t = ('TMP', ctx.frame, I.node_id(ctx.node))
            I.copy_object(st, t, a)
            I.copy_object(st, a, b)
            I.copy_object(st, b, t)
            return [(st, None)]
    # ---- std::function --------------------------------------------------------
    if cls.startswith('std::function<') and ctx.this is not None:
        a = addr_of(ctx.this)
        v = st.mem.get(a)
        if name == 'operator()':
            if isinstance(v, Fn):
                return I.call_value(st, v, args, ctx.node, ctx.frame)
            return None
        if name == 'operator bool':
            if v is None:
                return None
            return [(st, bool(v) if isconst(v) else True if isinstance(v, Fn) else mk('bool', v))]
        if name == 'operator=':
            x = args[0]
            if isinstance(x, Ptr):
                x = st.mem.get(x.addr, x)
            st.mem[a] = x
            return [(st, ctx.this)]
    # ---- atomics ----------------------------------------------------------------
    if cls.startswith(('std::atomic<', 'std::__atomic_base<')) and ctx.this is not None:
        a = addr_of(ctx.this)
        t = cls[cls.index('<') + 1:cls.rindex('>')]
        if name == 'load' or name.startswith('operator ') and not args:
            return [(st, I.load(st, a, t))]
        if name in ('store', 'operator='):
            I.store(st, a, args[0], ctx.node)
            return [(st, args[0])]
        if name == 'exchange':
            old = I.load(st, a, t)
            I.store(st, a, args[0], ctx.node)
            return [(st, old)]
        op = {'operator++': '+', 'operator--': '-', 'fetch_add': '+', 'fetch_sub': '-', 'operator+=': '+', 'operator-=': '-'}.get(name)
        if op:
            old = I.load(st, a, t)
            new = I.arith(op, old, args[0] if args and name not in ('operator++', 'operator--') else 1, t)
            I.store(st, a, new, ctx.node)
            return [(st, old if name.startswith('fetch') or name in ('operator++', 'operator--') and key.endswith('(int)') else new)]
    # ---- anything else in std: const methods are pure in the object's version ----
    if ctx.this is not None and cls.startswith(('std::', 'pugi::', '__gnu_cxx::')):
        a = addr_of(ctx.this)
        if key.endswith(' const') or name in ('find', 'end', 'begin', 'top', 'front', 'back', 'cend', 'cbegin', 'empty', 'size'):
            r = I.on_opaque(st, ctx)
            if r is not None:
                return r
            x = st.mem.get(a)
            if isinstance(x, RefBind):
                a = addr_of(x[0])
                x = st.mem.get(a)
            base = x if isinstance(x, T) and x[0] not in ('object', 'init') else ptr(a)
            return [(st, mk('m', q, base, tuple(contents(I, st, v) for v in args), ver(st, a)))]
        bump(st, a)
        r = I.on_opaque(st, ctx)
        if r is not None:
            return r
        n = st.count(('mc', q, a))
        return [(st, mk('ret', q, ctx.this, tuple(contents(I, st, v) for v in args), n))]
    if q.startswith('std::') and ctx.this is None:
        r = I.on_opaque(st, ctx)
        if r is not None:
            return r
        if name.startswith('operator<<'):
            return [(st, args[0] if args else None)]
        return [(st, mk('f', q, *[contents(I, st, v) for v in args]))]
    return None


SCALARS = {'bool': False, 'int': 0, 'unsigned int': 0, 'long': 0, 'unsigned long': 0, 'char': 0, 'unsigned char': 0,
           'short': 0, 'unsigned short': 0, 'double': 0.0, 'float': 0.0}


def elem_type(cls):
    """element type of a sequence class of scalars or strings, else None"""
    t = cls.split('<', 1)[1] if '<' in cls else ''
    d, e = 0, ''
    for c in t:
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                break
            d -= 1
        elif c == ',' and d == 0:
            break
        e += c
    e = e.strip()
    return e if e in SCALARS or e.startswith(STR) or e.endswith('*') else None


def resize(I, st, a, old, n, et, fill=None):
    for k in range(n, old):
        st.mem.pop(('I', a, k), None)
    if isinstance(fill, Ptr) and fill.addr in st.mem and not et.endswith('*'):
        fill = st.mem[fill.addr]
    for k in range(old, n):
        st.mem[('I', a, k)] = fill if fill is not None else SCALARS[et] if et in SCALARS else 0 if et.endswith('*') else ''
    st.mem[('F', a, '$len')] = n


def fill_objects(I, st, ctx, a, n, cls, fill, start=0):
    """vector(n) or vector(n, x) of a class with constructors in the analysed program"""
    from interp import Ctx
    et = cls[len('std::vector<'):].rsplit('>', 1)[0]
    d = 0
    for i, c in enumerate(et):
        d += (c == '<') - (c == '>')
        if c == ',' and d == 0:
            et = et[:i]
            break
    et = et.strip()
    sh = et.rsplit('::', 1)[-1]
    if not base_type(et) == et or et.startswith('std::'):
        return None
    key = '%s::%s()' % (et, sh) if fill is None else '%s::%s(const %s &)' % (et, sh, et)
    if key not in I.P.fns:
        if fill is None and plain_class(I, et):
            for k in range(start, n):                   # value-initialised
                e = ('I', a, k)
                st.cls[e] = et
                st.mem[e] = mk('object', et)
                for f in I.P.classes[et]['fields']:
                    x = SCALARS.get(f['t'], 0 if f['t'].endswith('*') else '' if f['t'].startswith(STR) else None)
                    st.mem[('F', e, f['n'])] = x
            st.mem[('F', a, '$len')] = n
            return [(st, ctx.this)]
        return None
    states = [st]
    for k in range(start, n):
        e = ('I', a, k)
        nxt = []
        for s in states:
            s.cls[e] = et
            s.mem[e] = mk('object', et)
            c = Ctx(key=key, name=sh, cls=et, this=ptr(e), args=[] if fill is None else [fill],
                    node=dict(ctx.node, t=et, f=key), frame=(ctx.frame, 'elem', k), dyn=None,
                    argnodes=[] if fill is None else [dict(ctx.argnodes[-1], t='const %s' % et)])
            for s2, v, sig in I.call(s, c, True):
                if not sig:
                    nxt.append(s2)
        states = nxt
    for s in states:
        s.mem[('F', a, '$len')] = n
    return [(s, ctx.this) for s in states]


def plain_class(I, et):
    """no constructor of its own, no bases, only plain fields"""
    c = I.P.classes.get(et)
    if c is None or c.get('bases'):
        return False
    if any(m.get('virt') for m in c.get('methods', [])):
        return False
    return all(f['t'] in SCALARS or f['t'].endswith('*') or f['t'].startswith(STR) for f in c.get('fields', []))


def drop_objects(I, st, ctx, a, n, old, cls):
    """destroy elements n.. of a vector of a class with a destructor in the analysed program"""
    from interp import Ctx
    states = [st]
    for k in range(n, old):
        e = ('I', a, k)
        nxt = []
        for s in states:
            et = s.cls.get(e)
            key = '%s::~%s()' % (et, (et or '').rsplit('::', 1)[-1])
            if key not in I.P.fns:
                return None
            c = Ctx(key=key, name=key.rsplit('::', 1)[-1][:-2], cls=et, this=ptr(e), args=[], node=dict(ctx.node, f=key),
                    frame=(ctx.frame, 'drop', k), dyn=et, argnodes=[])
            for s2, v, sig in I.call(s, c):
                for m in [m for m in s2.mem if under(m, e)]:
                    del s2.mem[m]
                nxt.append(s2)
        states = nxt
    for s in states:
        s.mem[('F', a, '$len')] = n
        bump(s, a)
    return [(s, None) for s in states]


def under(m, e):
    while isinstance(m, tuple) and m and m[0] in ('F', 'I', '='):
        if m == e:
            return True
        m = m[1]
    return False


def materialise(I, st, a, cls):
    """read every element of a sequence of scalars of known length, so that a copy is complete"""
    et = elem_type(cls)
    n = st.mem.get(('F', a, '$len'))
    if et is not None and isinstance(n, int):
        for k in range(n):
            I.load(st, ('I', a, k), et)


def seq_equal(I, st, ctx):
    """== of two sequences of scalars of known length, element by element"""
    t = params_of(ctx.key)
    et, cl = None, ''
    for x in ([ctx.cls] if ctx.cls else []) + list(t):
        x = base_type(strip_ref(x))
        if x.startswith(SEQ):
            et = elem_type(x)
            cl = x[x.index('<') + 1:].split(',')[0].rstrip('>').strip()
    opk = None
    if et is None and I.construct_elements and '::' in cl:
        k = '%s::operator==(const %s &, const %s &)' % (cl.rsplit('::', 1)[0], cl, cl)
        opk = k if k in I.P.fns else None
    if et is None and opk is None:
        return None
    ops = ([ctx.this] if ctx.this is not None else []) + list(ctx.args)
    a, b = [addr_of(x) if isinstance(x, Ptr) else None for x in ops]
    if a is None or b is None:
        return None
    n, m = st.mem.get(('F', a, '$len')), st.mem.get(('F', b, '$len'))
    if not (isinstance(n, int) and isinstance(m, int)):
        return None
    neg_ = ctx.name == 'operator!='
    if n != m:
        return [(st, neg_)]
    work = [(st, True)]
    for k in range(n):
        nxt = []
        for s, eq in work:
            if not eq:
                nxt.append((s, eq))
                continue
            if opk:
                from interp import Ctx
                c = Ctx(key=opk, name='operator==', cls=None, this=None, args=[ptr(('I', a, k)), ptr(('I', b, k))],
                        node=dict(ctx.node, f=opk), frame=(ctx.frame, 'elem', k), dyn=None, argnodes=[])
                for s2, v, sig in I.call(s, c):
                    if not sig:
                        nxt += I.truth(s2, v)
                continue
            x, y = I.load(s, ('I', a, k), et), I.load(s, ('I', b, k), et)
            nxt += I.truth(s, I.compare(s, '==', x, y))
        work = nxt
    return [(s, eq != neg_) for s, eq in work]


def contents(I, st, v):
    if isinstance(v, Ptr):
        x = st.mem.get(v.addr)
        if isinstance(x, RefBind):
            return contents(I, st, x[0])
        if x is not None and not (isinstance(x, T) and x[0] == 'object'):
            return x
    return v


def neg(x):
    return -x if isinstance(x, int) else mk('neg', x)


def adv(I, v, k, st):
    if isinstance(v, Ptr) and v.addr[0] == 'I':
        r = stdmap.step(st, v, k)
        if r is not None:
            return r
        return ptr(('I', v.addr[1], I.arith('+', v.addr[2], k, 'long')))
    return mk('next', v, k)


def drop(I, st, old, ctx, result):
    if isconst(old):
        return [(st, result)]
    out = []
    for s, b in I.truth(st, old):
        if b:
            r = I.on_delete(s, old, ctx.node)
            out += [(x, result) for x in (r if r is not None else [s])]
        else:
            out.append((s, result))
    return out


def dtor(I, st, a, cls):
    if cls.startswith(('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<')):
        if st.mem.get(('F', a, '$owned')):
            st.ev('unlock', st.mem.get(('F', a, '$m')))
            st.mem[('F', a, '$owned')] = False
        return [st]
    if cls.startswith('std::unique_ptr<'):
        v = st.mem.get(('F', a, '$p'))
        if v is None or isconst(v):
            return [st]
        st.mem[('F', a, '$p')] = 0
        out = []
        for s, b in I.truth(st, v):
            if b:
                r = I.on_delete(s, v, None)
                out += r if r is not None else [s]
            else:
                out.append(s)
        return out
    return None
