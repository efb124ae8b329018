"""interval and exclusion facts about a term on a path"""
from interp import T, isconst


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def bounds(st, t):
    """(lo, lo_strict, hi, hi_strict, excluded) known of term t on the path"""
    if isnum(t):
        return t, False, t, False, set()
    lo, los, hi, his, ex = None, False, None, False, set()

    def up(v, strict):
        nonlocal hi, his
        if hi is None or v < hi or (v == hi and strict):
            hi, his = v, strict

    def dn(v, strict):
        nonlocal lo, los
        if lo is None or v > lo or (v == lo and strict):
            lo, los = v, strict
    for k, v in st.facts.items():
        if not isinstance(k, tuple):
            continue
        if k[0] == '=' and len(k) == 2 and k[1] == t and isnum(v[0]):
            up(v[0], False)
            dn(v[0], False)
        elif k[0] == '#' and len(k) == 2 and k[1] == t:
            ex |= {x for x in v if isnum(x)}
        elif k == t:
            if v is True:
                ex.add(0)
            elif v is False:
                up(0, False)
                dn(0, False)
        elif k[0] in ('<', '<=') and len(k) == 3 and isinstance(v, bool):
            s = k[0] == '<'
            if k[1] == t and isnum(k[2]):
                up(k[2], s) if v else dn(k[2], not s)
            elif k[2] == t and isnum(k[1]):
                dn(k[1], s) if v else up(k[1], not s)
    return lo, los, hi, his, ex


def can_be(st, t, c):
    """may term t equal the number c on this path?"""
    lo, los, hi, his, ex = bounds(st, t)
    if c in ex:
        return False
    if lo is not None and (c < lo or (c == lo and los)):
        return False
    if hi is not None and (c > hi or (c == hi and his)):
        return False
    return True


def at_least(st, t, c):
    lo, los, hi, his, ex = bounds(st, t)
    return lo is not None and lo >= c


def at_most(st, t, c):
    lo, los, hi, his, ex = bounds(st, t)
    return hi is not None and hi <= c


def below(st, t, c):
    lo, los, hi, his, ex = bounds(st, t)
    return hi is not None and (hi < c or (hi == c and his))
