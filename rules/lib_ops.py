"""Enumerates the operator classes and evaluates them through their public entry
Operator::operator() (dynamic dispatch on the operator's class)."""
import math, re
from interp import State, T, mk, ptr, Ptr, short, Broken
from lib_expr import ExprI, obj, result_slot, ref_result
from facts import AnalysisBroken

STRT = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
RT = {'bool': 'bool', 'int': 'int', 'double': 'double', 'string': STRT}


def concrete_ops(P):
    """operator classes that are instantiated (have an instance())"""
    out = []
    for c in sorted(P.subclasses('PLEXIL::Operator')):
        if c.startswith(('PLEXIL::OperatorImpl<', 'PLEXIL::ConversionOperator<')):
            continue
        f = P.classes[c]
        if f.get('abstract'):
            continue
        out.append(c)
    return out


def base_name(c):
    return re.sub(r'<.*', '', c).split('::')[-1]


def targ(c):
    m = re.search(r'<(.*)>$', c)
    if not m:
        return None
    t = m.group(1)
    return 'string' if t.startswith('std::basic_string') else t


def result_type(P, c):
    for b in [c] + P.bases(c):
        m = re.match(r'PLEXIL::OperatorImpl<(.*)>$', b)
        if m:
            t = m.group(1)
            return 'string' if t.startswith('std::basic_string') else t
    raise AnalysisBroken('no OperatorImpl base of ' + c)


FORM = {1: ', const PLEXIL::Expression *', 2: ', const PLEXIL::Expression *, const PLEXIL::Expression *',
        'n': ', const PLEXIL::Function &'}


def entry(P, c, rt, form):
    key = 'PLEXIL::Operator::operator()(%s &%s) const' % (RT[rt], FORM[form])
    k = P.dispatch(c, key)
    if k is None:
        raise AnalysisBroken('no entry ' + key)
    f = P.fns.get(k)
    if f is None:
        raise AnalysisBroken('no body for ' + k)
    return f


def fold(name, vs):
    if all(isinstance(v, (int, float)) for v in vs):
        try:
            if name in ('abs', 'fabs'):
                return abs(vs[0])
            if name == 'fmod':
                return math.fmod(*vs)
            if name == 'sqrt':
                return math.sqrt(vs[0])
            if name in ('ceil', 'floor', 'trunc'):
                return float(getattr(math, name)(vs[0]))
            if name == 'round':
                return float(math.floor(abs(vs[0]) + 0.5)) * (1 if vs[0] >= 0 else -1)
            if name == 'isnan':
                return vs[0] != vs[0]
        except (ValueError, ZeroDivisionError):
            pass
    return mk('fabs' if name == 'abs' else name, *vs)


class OpI(ExprI):
    opcls = None

    def dyn_class(self, st, addr, static):
        if addr == ('O', 'op'):
            return self.opcls
        return ExprI.dyn_class(self, st, addr, static)

    def on_call(self, st, ctx):
        if ctx.name in ('isnan', 'fmod', 'sqrt', 'ceil', 'floor', 'round', 'trunc', 'abs', 'fabs', 'isfinite',
                        'min', 'max') and ctx.this is None and not ctx.cls:
            if ctx.name in ('min', 'max'):
                return None
            vs = [self.rd(st, a, '') if isinstance(a, Ptr) else a for a in ctx.args]
            return [(st, fold(ctx.name, vs))]
        if ctx.name == 'report' and (ctx.cls or '').endswith('PlanError'):
            return [(st, None, ('thr', 'PLEXIL::PlanError', ctx.key))]
        return ExprI.on_call(self, st, ctx)


def accepts(P, c, n):
    """does checkArgCount of c accept n arguments"""
    k = P.dispatch(c, 'PLEXIL::Operator::checkArgCount(unsigned long) const')
    f = P.fns.get(k) if k else None
    if f is None:
        raise AnalysisBroken('no checkArgCount for ' + c)
    I = OpI(P)
    I.opcls = c
    rs = I.start(f, State(), this=obj('op'), args=[n])
    vs = {v for s, v, sig in rs}
    if len(vs) != 1 or not isinstance(list(vs)[0], bool):
        raise Broken('checkArgCount of %s undetermined' % c)
    return list(vs)[0]


def forms(P, c, rt, nmax=4):
    """[(form, nargs)] the executive can use for operator c"""
    out = []
    for n in range(0, nmax + 1):
        if not accepts(P, c, n):
            continue
        if n in (1, 2):
            out.append((n, n))
            if rt == 'string':
                out.append(('n', n))
        else:
            out.append(('n', n))
    return out


def evaluate(P, c, rt, form, n, env, vtype=None, cls=OpI):
    """-> (interp, [(state, known?, value, signal)])"""
    f = entry(P, c, rt, form)
    I = cls(P)
    I.opcls = c
    I.env = dict(env)
    I.vtype = vtype or {}
    I.nargs = n
    args = [result_slot()] + ([obj('a%d' % i) for i in range(n)] if form != 'n' else [obj('args')])
    rs = I.start(f, State(), this=obj('op'), args=args)
    return f, I, [(s, v, ref_result(s), sig) for s, v, sig in rs]
