"""Numbers as sequences of bytes: every byte is a constant or one byte of a symbolic number. Shifts, masks, sums of
disjoint parts and integer conversions move bytes about; anything else yields an opaque number that equals nothing."""
from interp import T, Ptr, mk, ptr, addr_of, INT_BITS, base_type, wrap, isconst, Interp
from models import strval


def width(t):
    b = INT_BITS.get(base_type(t))
    return b[0] // 8 if b else 8 if base_type(t) == 'double' else None


def signed(t):
    b = INT_BITS.get(base_type(t))
    return bool(b and b[1])


def isby(v):
    return isinstance(v, T) and v[0] == 'by'


def sym(name, n):
    """a symbolic number of n bytes, little end first"""
    return mk('by', *[('b', name, k) for k in range(n)])


def small(name, k, n):
    """a symbolic number whose upper bytes are zero"""
    return mk('by', *[('b', name, i) if i < k else 0 for i in range(n)])


def to_bytes(v, n):
    if isby(v):
        return list(v[1:]) if len(v) - 1 == n else None
    if isinstance(v, (int, bool)):
        v = int(v)
        return [(v >> 8 * i) & 255 for i in range(n)]
    return None


def from_bytes(bs, t):
    if all(isinstance(b, int) for b in bs):
        return wrap(sum(b << 8 * i for i, b in enumerate(bs)), t)
    return mk('by', *bs)


def resize(bs, n, sg):
    if len(bs) >= n:
        return bs[:n]
    top = bs[-1]
    fill = 0 if not sg else (255 if top >= 128 else 0) if isinstance(top, int) else ('sx', top)
    return bs + [fill] * (n - len(bs))


def lin(v):
    """(constant, {term: coefficient}) of a sum"""
    if isinstance(v, bool) or isinstance(v, int):
        return int(v), {}
    if isinstance(v, T) and v[0] == 'lin':
        return v[1], dict(v[2])
    return 0, {v: 1}


def unlin(c, d):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return c
    if c == 0 and list(d.values()) == [1]:
        return list(d)[0]
    return mk('lin', c, tuple(sorted(d.items(), key=repr)))


class BytesMixin:
    def castterm(self, st, v, tf, tt):
        if isby(v):
            n, m = width(tt), len(v) - 1
            if n and base_type(tt) != 'bool':
                return from_bytes(resize(list(v[1:]), n, signed(tf)), tt)
        return super().castterm(st, v, tf, tt)

    def on_arith(self, st, op, a, b, n):
        t = n.get('t', '')
        if (isby(a) or isby(b)) and not isinstance(a, Ptr) and not isinstance(b, Ptr) and base_type(t) in INT_BITS:
            w = width(t)
            x = to_bytes(a, w)
            if op in ('*', '/', '%') and isinstance(b, int) and b > 1 and b & (b - 1) == 0 and (b.bit_length() - 1) % 8 == 0 and \
                    (op == '*' or not signed(t)):
                if op == '%':
                    op, b = '&', b - 1
                else:
                    op, b = {'*': '<<', '/': '>>'}[op], b.bit_length() - 1
            if op in ('<<', '>>') and isinstance(b, int) and b % 8 == 0 and x:
                k = b // 8
                if op == '<<':
                    return from_bytes(([0] * k + x)[:w], t)
                return from_bytes(resize(x[k:] or [0], w, signed(t)) if k < w else [0] * w, t)
            y = to_bytes(b, w)
            if x and y:
                if op == '&':
                    r = [p if q == 255 else q if p == 255 else 0 if p == 0 or q == 0 else p & q if isinstance(p, int) and isinstance(q, int)
                         else p if p == q else None for p, q in zip(x, y)]
                    if None not in r:
                        return from_bytes(r, t)
                if op in '|+^':
                    r = [p if q == 0 else q if p == 0 else p | q if op == '|' and isinstance(p, int) and isinstance(q, int) else None
                         for p, q in zip(x, y)]
                    if None not in r:
                        return from_bytes(r, t)
        return super().on_arith(st, op, a, b, n)

    def arith(self, op, a, b, t):
        if op in '+-' and not isinstance(a, Ptr) and not isinstance(b, Ptr) and \
                (isinstance(a, T) and a[0] in ('by', 'lin') or isinstance(b, T) and b[0] in ('by', 'lin')):
            c, d = lin(a)
            e, f = lin(b)
            g = -1 if op == '-' else 1
            for k, x in f.items():
                d[k] = d.get(k, 0) + g * x
            return unlin(c + g * e, d)
        return super().arith(op, a, b, t)

    def compare(self, st, op, a, b):
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if isby(x) and isinstance(y, int) and all(isinstance(q, int) or q[0] == 'b' for q in x[1:]):
                top = x[-1]
                if not isinstance(top, int) or top >= 128:
                    continue        # sign not known
                lo = sum((q if isinstance(q, int) else 0) << 8 * i for i, q in enumerate(x[1:]))
                hi = sum((q if isinstance(q, int) else 255) << 8 * i for i, q in enumerate(x[1:]))
                r = {'<': (hi < y, lo >= y), '<=': (hi <= y, lo > y), '>': (lo > y, hi <= y), '>=': (lo >= y, hi < y),
                     '==': (False, y < lo or y > hi), '!=': (y < lo or y > hi, False)}[o]
                if r[0] or r[1]:
                    return r[0]
        return super().compare(st, op, a, b)
