"""Message queues and their receivers: the queue maps of the adapters and the message adapter, over a recording exec interface."""
import copy
import os
from c01 import *

MQ = 'PLEXIL::MessageQueueMap'
INTF = ptr(('O', 'intf'))


def views(P, cls):
    """[(directory, program)] one per copy of the class in the source tree: the functions of that copy stand for the class"""
    by = {}
    for k, f in P.fns.items():
        if k.startswith(cls + '::') and f.get('body') is not None:
            by.setdefault(os.path.dirname(f['file']), {})[k] = f
    for (k, file), f in P.dups.items():
        if k.startswith(cls + '::'):
            by.setdefault(os.path.dirname(file), {})[k] = f
    out = []
    for d in sorted(by):
        if not any(f['n'] not in (cls.split('::')[-1],) for f in by[d].values()):
            continue
        Q = copy.copy(P)
        Q.fns = dict(P.fns)
        Q.fns.update(by[d])
        out.append((d, Q))
    return out


def member(P, cls, name, nargs, pred=None):
    c = [f for k, f in P.fns.items() if f.get('cls') == cls and f['n'] == name and len(f['params']) == nargs and f.get('body') is not None
         and (pred is None or pred(f))]
    if len(c) != 1:
        raise AnalysisBroken('%d definitions of %s::%s with %d parameters' % (len(c), cls, name, nargs))
    return c[0]


class MsgI(AppI):
    model_maps = True

    def __init__(self, P):
        AppI.__init__(self, P)
        self.vts = {v['n']: v['v'] for v in P.enum('ValueType')['vals']}
        self.handles = {v['n']: v['v'] for v in P.enum('CommandHandleValue')['vals']}

    def empty_access(self, st, ctx):
        st.ev('bad', '%s of an empty queue' % ctx.name)

    def emplace_element(self, st, ctx, e):
        cls = ctx.cls[ctx.cls.index('<') + 1:]
        if cls.startswith(VAL) and len(ctx.args) == 1:
            self.vset(st, e, self.vfrom(st, ctx, ctx.args[0], ctx.argnodes[0]))
            return [(st, None)]
        return None

    def on_call(self, st, ctx):
        nm, this = ctx.name, ctx.this
        if isinstance(this, Ptr) and this.addr == ('O', 'intf'):
            if nm == 'handleCommandReturn':
                st.ev('return', ctx.args[0], self.vraw(st, ctx.args[1]))
                return [(st, None)]
            if nm in ('handleCommandAck', 'handleCommandAbortAck', 'notifyOfExternalEvent', 'notifyMessageReceived', 'notifyMessageQueueEmpty'):
                st.ev({'handleCommandAck': 'ack', 'handleCommandAbortAck': 'abortack', 'notifyOfExternalEvent': 'wake',
                       'notifyMessageReceived': 'received', 'notifyMessageQueueEmpty': 'none'}[nm], *ctx.args)
                return [(st, None)]
            if nm in ('notifyMessageAccepted', 'notifyMessageHandleReleased'):
                st.ev({'notifyMessageAccepted': 'accepted', 'notifyMessageHandleReleased': 'released'}[nm],
                      *(list(ctx.args[:-1]) + [self.rd(st, ctx.args[-1], 'std::string')]))
                return [(st, None)]
            st.ev('intf', nm, *ctx.args)
            return [(st, None)]
        if ctx.cls in ('PLEXIL::InterfaceAdapter',) and nm == 'getInterface':
            return [(st, INTF)]
        if isinstance(this, Ptr) and this.addr[0] == 'O' and this.addr[1] == 'cmd':
            c = this.addr[2]
            if nm == 'getCommand':
                return [(st, ptr(('O', 'cstate', c)))]
            if nm == 'getName':
                return [(st, ptr(('O', 'cname')))]
            if nm == 'getArgValues':
                return [(st, ptr(('O', 'cargs', c)))]
        if isinstance(this, Ptr) and this.addr[0] == 'O' and this.addr[1] == 'cstate' and ctx.cls == STATE:
            a = ('O', 'cargs', this.addr[2])
            n = st.mem[('F', a, '$len')]
            if nm == 'parameterCount':
                return [(st, n)]
            if nm == 'name':
                return [(st, ptr(('O', 'cname')))]
            if nm == 'parameters':
                return [(st, ptr(a))]
            if nm in ('parameter', 'parameterType') and ctx.args:
                i = ctx.args[0]
                if not (isinstance(i, int) and i < n):
                    st.ev('bad', 'parameter %s of a command that has %d read' % (i, n))
                    return [(st, self.vts['UNKNOWN_TYPE'] if nm == 'parameterType' else ptr(('O', 'unknown')))]
                e = ('I', a, i)
                return [(st, st.mem[('F', e, '$vt')] if nm == 'parameterType' else ptr(e))]
        if ctx.cls == VAL and isinstance(this, Ptr):
            if nm == 'valueType' and ('F', this.addr, '$vt') in st.mem:
                return [(st, st.mem[('F', this.addr, '$vt')])]
            if nm == 'valueToString':
                v = self.vraw(st, this)
                return [(st, v if isinstance(v, str) and v != U else mk('text', v))]
        if nm == 'queryTime' and not isinstance(this, Ptr):
            return [(st, mk('now', st.count('now')))]
        return AppI.on_call(self, st, ctx)

    def args(self, st, c, vals):
        """the arguments of command c: (type, content)"""
        a = ('O', 'cargs', c)
        st.mem[('F', a, '$len')] = len(vals)
        for i, (t, v) in enumerate(vals):
            self.vset(st, ('I', a, i), v)
            st.mem[('F', ('I', a, i), '$vt')] = self.vts[t]


def cmd(i):
    return ptr(('O', 'cmd', i))
