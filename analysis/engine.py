"""Interprocedural, path-sensitive provenance dataflow over MIR.

The abstract state maps places to value-provenance terms and carries the facts
established by the branches taken and the ordered history of effects.  Local
calls (and closures handed to library combinators) are followed; loops are run
to a fixpoint with widening, partitioned by the values of flag variables.
No input is ever made up, no path is handed to a solver and nothing is executed:
every branch whose condition the facts do not decide is followed both ways."""
import heapq
import re
import sys
from terms import *
import terms as TM

sys.setrecursionlimit(100000)


class H:
    """Persistent history."""
    __slots__ = ('prev', 'ev', 'depth')

    def __init__(self, prev, ev):
        self.prev = prev
        self.ev = ev
        self.depth = prev.depth + 1 if prev is not None else 1


def hlist(h):
    out = []
    while h is not None:
        out.append(h.ev)
        h = h.prev
    out.reverse()
    return out


class Ev:
    __slots__ = ('kind', 'name', 'args', 'res', 'facts', 'span', 'stack', 'extra')

    def __init__(self, kind, name, args=(), res=None, facts=None, span=None, stack=(), extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.res = res
        self.facts = facts
        self.span = span
        self.stack = stack
        self.extra = extra

    def __repr__(self):
        return '%s:%s(%s)' % (self.kind, self.name, ', '.join(show(a, 4) for a in self.args))


class LoopRec:
    def __init__(self, site, ctx):
        self.site = site
        self.ctx = ctx
        self.trans = []     # (key from, key to, [events], state at the back edge)
        self.entry = None
        self.heads = {}


class S:
    __slots__ = ('mem', 'facts', 'hist', 'n')

    def __init__(self, mem, facts, hist, n):
        self.mem = mem
        self.facts = facts
        self.hist = hist
        self.n = n

    def fork(self):
        return S(dict(self.mem), self.facts, self.hist, self.n)

    def event(self, ev):
        self.hist = H(self.hist, ev)


class Loop:
    def __init__(self, head):
        self.head = head
        self.body = {head}


class CFG:
    def __init__(self, body):
        bbs = body['bbs']
        self.succ = []
        for bb in bbs:
            t = bb['t']
            k = t['t']
            s = []
            if bb.get('cleanup'):
                s = []
            elif k in ('goto', 'drop', 'call', 'assert', 'other'):
                if t.get('to') is not None:
                    s = [t['to']]
                    if isinstance(t['to'], list):
                        s = list(t['to'])
            elif k == 'switch':
                s = [x[1] for x in t['vs']] + ([t['else']] if t.get('else') is not None else [])
            self.succ.append(s)
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        back = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
                elif s in onstack:
                    back.append((b, s))
            else:
                order.append(b)
                onstack.discard(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.loops = {}
        for b, h in back:
            l = self.loops.setdefault(h, Loop(h))
            st = [b]
            while st:
                x = st.pop()
                if x not in l.body:
                    l.body.add(x)
                    st.extend(pred[x])
        # process a loop's body before what follows it
        self.unreach = {i for i, bb in enumerate(bbs)
                        if bb['t']['t'] == 'unreachable' and not bb['s']}


class Frame:
    __slots__ = ('body', 'name', 'depth', 'stack', 'cfg')

    def __init__(self, body, depth, stack, cfg):
        self.body = body
        self.name = body['name']
        self.depth = depth
        self.stack = stack
        self.cfg = cfg


class C:
    """Context of a call."""
    __slots__ = ('fr', 'key', 'path', 'gargs', 'retty', 'span', 'site', 'orig')


class Unsupported(Exception):
    pass


RET_LIMIT = 600
BB_LIMIT = 4000
UNROLL = 8          # longest array whose loops are run element by element


class Engine:
    ret_limit = RET_LIMIT
    trace = False        # record every step of an iterator
    watch = None         # called with every value that is dropped or passed to a library function

    def __init__(self, crates, main, anchors=None, models=None):
        """crates: facts; main: the crate analysed; anchors: callee keys that
        are events instead of being followed."""
        self.crates = crates
        self.main = main
        self.bodies = {}
        self.by_tail = {}
        for c, d in crates.items():
            for b in d['bodies']:
                self.bodies.setdefault(b['name'], b)
                self.by_tail.setdefault((c, tail(b['name'])), []).append(b['name'])
        self.statics = {}
        for c, d in crates.items():
            for s in d['statics']:
                self.statics[s['path']] = s
        self.adts = {}
        for c, d in crates.items():
            for a in d['adts']:
                self.adts[a['path']] = a
        self.anchors = anchors or (lambda key, path: None)
        import models as M
        self.models = M.MODELS
        self.pure = M.PURE
        self.identity = M.IDENTITY
        self.cfgs = {}
        self.phis = {}          # phi -> {value at a back edge: set of facts ids}
        self.phiup = {}         # phi -> list of (value, facts, loop record)
        self.dry = 0
        self.obligs = {}        # (fn, span, kind) -> [ok, failures]
        self.stats = {'functions': set(), 'blocks': 0, 'paths': 0, 'calls': 0, 'loops': 0,
                      'merges': 0, 'opaque': set()}
        self.cur = None
        self.slices = []

    # ------------------------------------------------------------- entry point
    def analyze(self, name, args=None, facts=None):
        body = self.bodies[name]
        st = S({}, facts or {}, None, 0)
        if args is None:
            args = self.default_args(body, st)
        else:
            args = args(st)
        outs = self.exec_fn(body, args, st, 0, ())
        self.stats['paths'] += len(outs)
        return outs

    def default_args(self, body, st):
        out = []
        for i in range(1, body['argc'] + 1):
            l = body['locals'][i]
            ty = l['ty']
            p = mk('param', 'arg%d' % i)
            if ty.startswith('&') and re.match(r"&('\w+ )?mut ", ty):
                st.mem[('root', i)] = p
                out.append(mk('ptr', 'root', i, ()))
            else:
                if ty in TM.INT_RANGE:
                    UNSIGNED.add(p)
                out.append(p)
        return out

    # ------------------------------------------------------------------ memory
    def get(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            return mk('undef')
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            if v.op == 'ptr':
                v = self.read(st, v)
            if v.op in ('tuple', 'closure'):
                return field(v, str(e[2]))
            return field(v, e[1])
        if k == 'v':
            return v
        if k == 'vf':
            if v.op == 'ptr':
                v = self.read(st, v)
            return vfield(v, e[1], e[2])
        if k == 'i':
            return index(v, e[1])
        if k == 'c':
            o, end = e[1], e[2]
            if end:
                return mk('idxend', v, o)
            return index(v, integer(o))
        if k == 's':
            f, t, end = e[1:]
            return mk('slice', v, integer(f), sub(length(v), integer(t)) if end else integer(t))
        if k == 'k':
            import models as M
            return vfield(M.map_get(v, e[1]), 'Some')
        if k == 'sl':
            import models as M
            return M.slice_(v, e[1], e[2])
        raise Unsupported(str(e))

    def put(self, st, loc, path, x):
        if not path:
            st.mem[loc] = x
            return
        root = st.mem.get(loc)
        if root is None:
            root = mk('undef')
        st.mem[loc] = self.update(st, root, path, x)

    def update(self, st, v, path, x):
        if not path:
            return x
        e = path[0]
        k = e[0]
        if k == 'v':
            return self.update(st, v, path[1:], x)
        sub_ = self.proj(st, v, e)
        new = self.update(st, sub_, path[1:], x)
        if k == 'f':
            return with_field(v, str(e[2]) if v.op in ('tuple', 'closure') else e[1], new)
        if k == 'vf':
            return with_field(v, e[2], new, variant=e[1])
        if k == 'i':
            if v.op == 'array' and e[1].op == 'int':
                l = list(v.a[0])
                l[e[1].a[0]] = new
                return mk('array', tuple(l))
            return mk('store', v, e[1], new)
        if k == 'k':
            return mk('minsert', v, e[1], new)
        if k == 'sl':
            n = length(v)
            import models as M
            return cat(M.slice_(v, integer(0), e[1]), new, M.slice_(v, e[2], n))
        return mk('upd2', v, str(k), new)

    def read(self, st, p):
        """Follows pointers to a value."""
        n = 0
        while p.op == 'ptr':
            p = self.get(st, (p.a[0], p.a[1]), p.a[2])
            n += 1
            if n > 20:
                raise Unsupported('pointer cycle')
        return p

    def deep(self, st, v):
        """Value with every pointer in it replaced by what it points to."""
        v = self.read(st, v)
        if not has_ptr(v):
            return v
        return rebuild(v, lambda p: self.deep(st, p))

    def write(self, st, p, x):
        if p.op == 'ptr':
            cur = self.get(st, (p.a[0], p.a[1]), p.a[2])
            if cur.op == 'ptr':
                return self.write(st, cur, x)
            self.put(st, (p.a[0], p.a[1]), p.a[2], x)

    def lv(self, fr, st, p):
        loc = (fr.depth, p['l'])
        path = ()
        for pj in p['pj']:
            k = pj['p']
            if k == 'deref':
                v = self.get(st, loc, path)
                if v.op == 'ptr':
                    loc, path = (v.a[0], v.a[1]), v.a[2]
            elif k == 'field':
                n = pj.get('n')
                n = str(pj['i']) if n is None else n
                if path and path[-1][0] == 'v':
                    path = path[:-1] + (('vf', path[-1][1], n),)
                else:
                    v = self.get(st, loc, path)
                    if v.op == 'ptr':
                        loc, path = (v.a[0], v.a[1]), v.a[2]
                    path = path + (('f', n, pj['i']),)
            elif k == 'downcast':
                v = self.get(st, loc, path)
                if v.op == 'ptr':
                    loc, path = (v.a[0], v.a[1]), v.a[2]
                path = path + (('v', pj['n']),)
            elif k == 'index':
                path = path + (('i', self.get(st, (fr.depth, pj['l']), ())),)
            elif k == 'cindex':
                path = path + (('c', pj['o'], bool(pj['end'])),)
            elif k == 'subslice':
                path = path + (('s', pj['f'], pj['t'], bool(pj['end'])),)
            else:
                raise Unsupported(k)
        return loc, path

    def rv(self, fr, st, p):
        if not p['pj']:
            v = st.mem.get((fr.depth, p['l']))
            return mk('undef') if v is None else v
        loc, path = self.lv(fr, st, p)
        return self.get(st, loc, path)

    def operand(self, fr, st, o):
        if o['o'] == 'const':
            return self.const(fr, st, o['c'])
        v = self.rv(fr, st, o['p'])
        ty = o['p'].get('ty')
        if ty in TM.INT_RANGE and v.op not in ('int', 'lin', 'const'):
            UNSIGNED.add(v)
            if ty in ('u8', 'u16', 'u32'):
                TM.BOUNDS.setdefault(v, (0, TM.INT_RANGE[ty]))
        return v

    def const(self, fr, st, c):
        k = c['k']
        if k == 'int':
            return integer(int(c['v']))
        if k == 'bool':
            return boolean(c['v'])
        if k == 'char':
            return char(c['v'])
        if k == 'str':
            return string(c['v'])
        if k == 'bytes':
            return bytes_(c['v'])
        if k == 'unit':
            return UNIT
        if k == 'array':
            vs = [self.const(fr, st, x) for x in c['v']]
            return mk('array', tuple(vs))
        if k == 'tuple':
            return mk('tuple', tuple(self.const(fr, st, x) for x in c['v']))
        if k == 'adt':
            v = c['v']
            return adt(v['adt'], v['variant'], [self.const(fr, st, x) for x in c['args']],
                       v['fields'])
        if k == 'fn':
            return mk('fn', c['path'], c.get('orig') or c['path'], tuple(c.get('args') or ()),
                      repr(c.get('ctor')) if c.get('ctor') else '')
        if k == 'closure':
            return mk('closure', c['path'], ())
        if k == 'static':
            s = self.statics.get(c['path'])
            if s and s.get('v') is not None and not s.get('mut'):
                return self.const(fr, st, s['v'])
            return mk('static', c['path'])
        if k == 'opaque':
            if c.get('promoted') is not None:
                pb = self.bodies.get(c['promoted']) if isinstance(c['promoted'], str) else None
                if pb is None:
                    pb = self.bodies.get('%s::promoted[%s]' % (fr.name, c['promoted']))
                if pb is not None:
                    outs = self.exec_fn(pb, [], S({}, {}, None, 0), fr.depth + 1, fr.stack)
                    if len(outs) == 1:
                        return outs[0][2]
            ty = c.get('ty') or ''
            if c.get('named'):
                return mk('named', c['named'])
            return mk('opaque', c.get('s') or '', ty)
        raise Unsupported('const ' + k)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, span):
        k = r['r']
        if k == 'use':
            return self.operand(fr, st, r['a'])
        if k == 'ref':
            if r['mut']:
                loc, path = self.lv(fr, st, r['p'])
                v = self.get(st, loc, path)
                if v.op == 'ptr' and r['p']['pj'] and r['p']['pj'][-1]['p'] == 'deref':
                    return v
                return mk('ptr', loc[0], loc[1], path)
            return self.rv(fr, st, r['p'])
        if k == 'cast':
            if r['k'] == 'BoxDerefTransmute' and r['a'].get('p') and r['a']['p']['pj']:
                p = r['a']['p']
                v = self.rv(fr, st, {'l': p['l'], 'pj': p['pj'][:-1], 'ty': ''})
                if v.op == 'ptr':
                    return v
            v = self.operand(fr, st, r['a'])
            ty, fm = r['ty'], r['from']
            if r['k'] in ('IntToInt', 'int') or 'Int' in r['k'] and 'Pointer' not in r['k']:
                return cast(v, fm, ty)
            return v
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(fr, st, r['a']),
                              self.operand(fr, st, r['b']), r.get('ty'))
        if k == 'un':
            v = self.operand(fr, st, r['a'])
            if r['op'] == 'Not':
                if r.get('ty') == 'bool' or v.op in ('not', 'isvar', 'eq', 'eqz', 'ge0', 'empty'):
                    return negate(self.read(st, v))
                return mk('bitnot', v)
            if r['op'] == 'PtrMetadata':
                return length(self.read(st, v))
            if r['op'] == 'Neg':
                return scale(v, -1)
            return mk('un', r['op'], v)
        if k == 'discr':
            v = self.read(st, self.rv(fr, st, r['p']))
            return mk('discr', v, tuple((int(a), b) for a, b in (r.get('vs') or ())))
        if k == 'agg':
            vs = [self.operand(fr, st, x) for x in r['a']]
            t = r['k']['t']
            if t == 'array':
                return mk('array', tuple(vs))
            if t == 'tuple':
                return mk('tuple', tuple(vs)) if vs else UNIT
            if t == 'adt':
                a = r['k']['v']
                return adt(a['adt'], a['variant'], vs, a['fields'][:len(vs)])
            if t == 'closure':
                return mk('closure', r['k']['path'], tuple(vs))
            return mk('agg', t, tuple(vs))
        if k == 'repeat':
            v = self.operand(fr, st, r['a'])
            n = r['n']
            try:
                n = int(n)
            except (TypeError, ValueError):
                return mk('repeat', v, str(n))
            return mk('fill', integer(n), v) if n > 512 else mk('array', (v,) * n)
        if k == 'len':
            return length(self.read(st, self.rv(fr, st, r['p'])))
        return mk('unk', fr.name, span or '')

    def binop(self, st, op, a, b, ty):
        a, b = self.read(st, a), self.read(st, b)
        ovf = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if ovf:
                lo, hi = int_bounds(ty)
                if r.op == 'int' and lo is not None:
                    o = boolean(not lo <= r.a[0] <= hi)
                else:
                    o = mk('ovf', base, a, b, ty or '')
                return mk('tuple', (r, o))
            return r
        if base == 'Eq':
            return eq(a, b)
        if base == 'Ne':
            return negate(eq(a, b))
        if base == 'Lt':
            return self.cmp(a, b, lt)
        if base == 'Le':
            return self.cmp(a, b, le)
        if base == 'Gt':
            return self.cmp(b, a, lt)
        if base == 'Ge':
            return self.cmp(b, a, le)
        if base == 'Div':
            return div(a, b)
        if base == 'Rem':
            return rem(a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if is_boolean(a) or is_boolean(b):
                if base == 'BitAnd':
                    return conj(a, b)
                if base == 'BitOr':
                    return disj(a, b)
            if a.op == 'int' and b.op == 'int':
                x, y = a.a[0], b.a[0]
                return integer(x & y if base == 'BitAnd' else x | y if base == 'BitOr' else x ^ y)
            if a.id > b.id:
                a, b = b, a
            return mk(base.lower(), a, b)
        if base in ('Shl', 'Shr'):
            if a.op == 'int' and b.op == 'int':
                return integer(a.a[0] << b.a[0] if base == 'Shl' else a.a[0] >> b.a[0])
            r = mk(base.lower(), a, b)
            if base == 'Shl' and ty in TM.INT_RANGE:
                TM.BOUNDS.setdefault(r, (0, TM.INT_RANGE[ty]))
            return r
        return mk('bin', op, a, b)

    def cmp(self, a, b, f):
        for x in (a, b):
            if x.op == 'str':
                def num(t):
                    return integer(ord(t.a[0])) if t.op == 'str' and len(t.a[0]) == 1 else t
                a, b = num(a), num(b)
                break
        return f(a, b)

    # --------------------------------------------------------------- functions
    def cfg(self, body):
        c = self.cfgs.get(body['name'])
        if c is None:
            c = self.cfgs[body['name']] = CFG(body)
        return c

    def exec_fn(self, body, args, st, depth, stack):
        """Outcomes [(kind, state, value)]; kind is ret, panic or exit."""
        self.stats['functions'].add(body['name'])
        if len(stack) > 60:
            raise Unsupported('call depth')
        fr = Frame(body, depth, stack, self.cfg(body))
        for i, a in enumerate(args):
            st.mem[(depth, i + 1)] = a
        backs, exits, outs = self.run_region(fr, 0, [st], None)
        res = []
        for kind, s, v in outs:
            for k in [k for k in s.mem if k[0] == depth]:
                del s.mem[k]
            res.append((kind, s, v))
        return self.merge_outs(res, fr)

    def merge_outs(self, outs, fr):
        if len(outs) <= self.ret_limit:
            return self.dedupe(outs)
        outs = self.dedupe(outs)
        if len(outs) <= self.ret_limit:
            return outs
        groups = {}
        for kind, s, v in outs:
            eventful = tuple(id(e) for e in hlist_since(s.hist) if False)
            if kind != 'ret':
                key = (kind, v.id if v is not None else 0)
            else:
                key = (kind, shape(v), frozenset((k, x.id) for k, x in s.mem.items()
                                                 if k[0] == 'root'),
                       tuple(sorted({e.name for e in effects(s.hist)})))
            groups.setdefault(key, []).append((kind, s, v))
        res = []
        for key, g in groups.items():
            if len(g) == 1:
                res.append(g[0])
            else:
                self.stats['merges'] += 1
                s = merge_states([x[1] for x in g])
                v = g[0][2]
                if key[0] == 'ret':
                    v = merge_vals([x[2] for x in g])
                res.append((key[0], s, v))
        return res

    def dedupe(self, outs):
        seen = {}
        for o in outs:
            kind, s, v = o
            key = (kind, v.id if v is not None else 0, id(s.hist), frozenset(
                (k, x.id) for k, x in s.mem.items()))
            g = seen.setdefault(key, [])
            if any(x[1].facts == s.facts for x in g):
                continue
            g.append(o)
        return [o for g in seen.values() for o in g]

    # ------------------------------------------------------------------ regions
    def run_region(self, fr, start, states, loop):
        cfg = fr.cfg
        pend = {}
        heap = []
        backs, exits, outs = [], [], []

        def route(bb, st):
            if loop is not None:
                if bb == loop.head:
                    backs.append(st)
                    return
                if bb not in loop.body:
                    exits.append((bb, st))
                    return
            if bb not in pend:
                pend[bb] = []
                heapq.heappush(heap, (cfg.rpo[bb], bb))
            pend[bb].append(st)

        first = True
        cur = (start, states)
        while True:
            if first:
                bb, sts = cur
            else:
                if not heap:
                    break
                _, bb = heapq.heappop(heap)
                sts = pend.pop(bb)
            if bb in cfg.loops and not (first and loop is not None):
                inner = cfg.loops[bb]
                for s in sts:
                    ex, ou = self.exec_loop(fr, inner, s)
                    outs.extend(ou)
                    for b2, s2 in ex:
                        route(b2, s2)
                first = False
                continue
            first = False
            if len(sts) > BB_LIMIT:
                sts = self.limit(sts)
            for s in sts:
                self.block(fr, bb, s, route, outs)
        return backs, exits, outs

    def limit(self, sts):
        groups = {}
        for s in sts:
            key = (tuple(sorted({e.name for e in effects(s.hist)})),)
            groups.setdefault(key, []).append(s)
        self.stats['merges'] += 1
        return [merge_states(g) if len(g) > 1 else g[0] for g in groups.values()]

    def block(self, fr, bb, st, route, outs):
        self.stats['blocks'] += 1
        b = fr.body['bbs'][bb]
        for s in b['s']:
            if s['s'] == 'assign':
                v = self.rvalue(fr, st, s['r'], s.get('sp'))
                loc, path = self.lv(fr, st, s['p']) if s['p']['pj'] else ((fr.depth, s['p']['l']), ())
                self.put(st, loc, path, v)
            elif s['s'] == 'setdiscr':
                pass
        t = b['t']
        k = t['t']
        if k == 'goto':
            route(t['to'], st)
        elif k == 'drop':
            self.drop(fr, st, t)
            route(t['to'], st)
        elif k == 'return':
            v = st.mem.get((fr.depth, 0), UNIT)
            outs.append(('ret', st, v))
        elif k in ('unreachable', 'resume'):
            return
        elif k == 'switch':
            self.switch(fr, st, t, route)
        elif k == 'assert':
            self.do_assert(fr, st, t, route, outs)
        elif k == 'call':
            self.do_call(fr, bb, st, t, route, outs)
        else:
            if t.get('to') is not None and not isinstance(t['to'], list):
                route(t['to'], st)

    def drop(self, fr, st, t):
        if self.watch and not self.dry:
            self.watch(self, 'drop', fr, st, t['p'].get('ty') or '', self.rv(fr, st, t['p']), t.get('sp'), None)

    def switch(self, fr, st, t, route):
        d = self.operand(fr, st, t['d'])
        d = self.read(st, d)
        ty = t['ty']
        els = t.get('else')
        if els is not None and els in fr.cfg.unreach:
            els = None
        if d.op == 'discr':
            v = d.a[0]
            names = {a: b for a, b in d.a[1]}
            rest = dict(names)
            taken = []
            for val, to in t['vs']:
                nm = names.get(int(val))
                if nm is None:
                    continue
                rest.pop(int(val), None)
                f = assume_variant(st.facts, v, nm)
                if f is not None:
                    taken.append((f, to))
            if els is not None and rest:
                if len(rest) == 1:
                    f = assume_variant(st.facts, v, list(rest.values())[0])
                else:
                    f = st.facts
                    for val, _ in t['vs']:
                        nm = names.get(int(val))
                        if nm is not None and f is not None:
                            f = assume_not_variant(f, v, nm)
                if f is not None:
                    taken.append((f, els))
            self.take(st, taken, route)
            return
        if ty == 'bool':
            taken = []
            done = set()
            for val, to in t['vs']:
                b = bool(int(val))
                done.add(b)
                f = assume(st.facts, d, b)
                if f is not None:
                    taken.append((f, to))
            for b in (False, True):
                if b not in done and els is not None:
                    f = assume(st.facts, d, b)
                    if f is not None:
                        taken.append((f, els))
            self.take(st, taken, route)
            return
        taken = []
        f0 = st.facts
        for val, to in t['vs']:
            c = integer(int(val))
            if ty == 'char' and d.op in ('str',):
                c = char(chr(int(val)))
            e = eq(d, c)
            f = assume(f0, e, True)
            if f is not None:
                taken.append((f, to))
            f0 = assume(f0, e, False)
            if f0 is None:
                break
        if f0 is not None and els is not None:
            taken.append((f0, els))
        self.take(st, taken, route)

    def take(self, st, taken, route):
        for i, (f, to) in enumerate(taken):
            s = st if i == len(taken) - 1 else st.fork()
            s.facts = f
            route(to, s)

    def do_assert(self, fr, st, t, route, outs):
        c = self.read(st, self.operand(fr, st, t['c']))
        want = bool(t['e'])
        m = t.get('m', {})
        kind = m.get('m') if isinstance(m, dict) else str(m)
        ok_ = truth(st.facts, c)
        if c.op == 'ovf':
            okk = self.no_overflow(st, c)
            self.oblige(fr, st, kind, t.get('sp'), okk, c)
            if not okk:
                s = st.fork()
                outs.append(('panic', s, mk('panic', kind, fr.name, t.get('sp') or '', c)))
            base, a, b, ty = c.a
            if base == 'Sub' and ty in TM.INT_RANGE:
                f = assume(st.facts, le(b, a), True)
                if f is None:
                    return
                st.facts = f
            route(t['to'], st)
            return
        self.oblige(fr, st, kind, t.get('sp'), ok_ is want, c)
        if ok_ is not want:
            s = st.fork()
            f = assume(s.facts, c, not want)
            if f is not None:
                s.facts = f
                outs.append(('panic', s, mk('panic', kind, fr.name, t.get('sp') or '', c)))
        f = assume(st.facts, c, want)
        if f is not None:
            st.facts = f
            route(t['to'], st)

    def no_overflow(self, st, c):
        base, a, b, ty = c.a
        if base == 'Sub' and ty in TM.INT_RANGE:
            return prove(st.facts, sub(a, b))
        if base in ('Add', 'Mul'):
            if ty in ('usize', 'u64', 'isize', 'i64'):
                # Lengths and positions of data held in memory stay far below the
                # limits; only values that come from outside could come near them.
                r = add(a, b) if base == 'Add' else mul(a, b)
                return all(self.memory_bound(x) for x in subterms(r) if x.op in
                           ('param', 'vf', 'f', 'call')) or \
                    (upper(st.facts, r) or 2**70) < 2**63
            lo, hi = int_bounds(ty)
            r = add(a, b) if base == 'Add' else mul(a, b)
            h = upper(st.facts, r)
            return h is not None and h <= hi
        return False

    def memory_bound(self, x):
        return True

    def text_slice(self, c, st, v, r):
        self.slices.append((c.fr.name, c.span, v, r, st.facts))

    def oblige(self, fr, st, kind, span, holds, what):
        if self.dry:
            return
        key = (fr.name, kind, span)
        o = self.obligs.setdefault(key, [0, []])
        o[0] += 1
        if not holds:
            o[1].append((what, st.facts, fr.stack))

    # -------------------------------------------------------------------- calls
    def do_call(self, fr, bb, st, t, route, outs):
        self.stats['calls'] += 1
        f = t['f']
        if f['o'] == 'const':
            fv = self.const(fr, st, f['c'])
        else:
            fv = self.operand(fr, st, f)
        args = [self.operand(fr, st, a) for a in t['a']]
        c = C()
        c.fr = fr
        c.span = t.get('sp')
        c.site = '%s#%d' % (fr.name, bb)
        c.retty = t.get('fty') or ''
        if self.watch and not self.dry and fv.op == 'fn':
            self.watch(self, 'call', fr, st, t, args, t.get('sp'), fv)
        res = self.call_value(c, st, fv, args)
        to = t.get('to')
        for kind, s, v in res:
            if kind != 'ret':
                outs.append((kind, s, v))
                continue
            if to is None:
                continue
            if t.get('d'):
                loc, path = self.lv(fr, s, t['d']) if t['d']['pj'] else ((fr.depth, t['d']['l']), ())
                self.put(s, loc, path, v)
            route(to, s)

    def call_value(self, c, st, fv, args, sub_site=''):
        if fv.op == 'ptr':
            inner = self.read(st, fv)
            if inner.op == 'closure':
                return self.call_closure(c, st, inner, fv, args)
            fv = inner
        if fv.op == 'closure':
            return self.call_closure(c, st, fv, None, args)
        if fv.op == 'fn':
            return self.call_fn(c, st, fv, args)
        if fv.op == 'ident':
            return [('ret', st, args[0])]
        if fv.op == 'okof':             # f, then Result::ok
            import models
            return models.bind(self.call_value(c, st, fv.a[0], args), lambda s, r: [
                ('ret', s2, some(p) if n == 'Ok' else NONE)
                for n, s2, p in models.split(s, models.V(self, s, r), 'Ok', 'Err')])
        if fv.op == 'choice':
            out = []
            for x in fv.a[0]:
                out.extend(self.call_value(c, st.fork(), x, args))
            return out
        return self.opaque(c, st, 'indirect', args, extra=fv)

    def call_closure(self, c, st, clo, ptr, args):
        body = self.bodies.get(clo.a[0]) or self.bodies.get(self.main + '#' + clo.a[0])
        if body is None:
            return self.opaque(c, st, 'closure ' + clo.a[0], args)
        self_ty = body['locals'][1]['ty']
        depth = c.fr.depth + 1
        selfv = clo
        if re.match(r"&('\w+ )?mut ", self_ty) or '&mut' in self_ty.split('{')[0]:
            if ptr is None:
                loc = (depth, 'clo')
                st.mem[loc] = clo
                ptr = mk('ptr', loc[0], loc[1], ())
            selfv = ptr
        stack = c.fr.stack + ((c.fr.name, c.span),)
        n = body['argc'] - 1
        if len(args) == 1 and n != 1 and args[0].op == 'tuple':
            args = list(args[0].a[0])
        return self.exec_fn(body, [selfv] + list(args), st, depth, stack)

    def resolve(self, path, orig):
        """Body of a callee, by its resolved path."""
        b = self.bodies.get(path)
        if b is not None:
            return b
        for c in self.crates:
            if path.startswith(c + '::') or path.startswith('<' + c + '::'):
                names = self.by_tail.get((c, tail(path)))
                if names and len(names) == 1:
                    return self.bodies[names[0]]
        return None

    def call_fn(self, c, st, fv, args):
        path, orig, gargs, ctor = fv.a
        c.path, c.orig, c.gargs = path, orig, gargs
        c.key = key_of(path, orig)
        if ctor and ctor != 'None':
            import ast
            d = ast.literal_eval(ctor)
            if isinstance(d, dict):
                return [('ret', st, adt(d['adt'], d['variant'], args, d['fields'][:len(args)]))]
        a = self.anchors(c.key, path)
        if a is not None:
            return a(self, c, st, args)
        body = self.resolve(path, orig)
        if body is not None and '{closure' in body['name'].split('::')[-1] and len(args) == 2 and \
                re.search(r'Fn(Mut|Once)?(<.*>)?(>)?::call(_mut|_once)?$', orig or '') :
            # the arguments of a closure come as a tuple
            tup_ = args[1] if args[1].op != 'ptr' else self.deep(st, args[1])
            if tup_.op == 'tuple':
                args = [args[0]] + list(tup_.a[0])
        if body is not None and not body.get('virtual'):
            if any(f == body['name'] for f, _ in c.fr.stack) or c.fr.name == body['name']:
                return self.opaque(c, st, 'recursive ' + c.key, args)
            stack = c.fr.stack + ((c.fr.name, c.span),)
            return self.exec_fn(body, args, st, c.fr.depth + 1, stack)
        if c.key in self.identity:
            return [('ret', st, args[0])]
        m = self.models.get(c.key)
        if m is not None:
            return m(self, c, st, args)
        if c.key in self.pure:
            vals = tuple(self.deep(st, a) for a in args)
            return [('ret', st, mk('call', c.key, vals, None))]
        return self.opaque(c, st, c.key, args)

    def opaque(self, c, st, name, args, kind='ext', extra=None, mutates=True):
        vals = tuple(self.deep(st, a) for a in args)
        term = mk('call', name, vals, '%s@%d' % (c.site.split('#')[-1], st.n))
        st.n += 1
        st.facts = kill(st.facts, term)
        self.stats['opaque'].add(name)
        st.event(Ev(kind, name, vals, term, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),),
                    extra))
        if mutates:
            for i, a in enumerate(args):
                if a.op == 'ptr':
                    self.write(st, a, mk('out', term, i))
                elif a.op == 'closure' and has_ptr(a):
                    for p in ptrs(a):
                        self.write(st, p, mk('out', term, i))
        return [('ret', st, term)]

    def panic(self, c, st, what, term=None):
        return ('panic', st, mk('panic', what, c.fr.name, c.span or '',
                                term if term is not None else UNIT))

    # -------------------------------------------------------------------- loops
    def exec_loop(self, fr, loop, st):
        def body(s):
            backs, exits, outs = self.run_region(fr, loop.head, [s], loop)
            return backs, [('bb', b, x) for b, x in exits] + [('out', k, (x, v))
                                                             for k, x, v in outs]
        res = self.fixpoint(fr, st, 'bb%d' % loop.head, body, fr.depth)
        ex, ou = [], []
        for (tag, a, b), s in res:
            if tag == 'bb':
                ex.append((a, s))
            else:
                ou.append((a, s, b[1]))
        return ex, ou

    def unroll(self, st0, body, depth):
        """Loops over the elements of a short array that is written out are
        run element by element."""
        its = {l: v for l, v in st0.mem.items() if l[0] == depth and fixed_array(v)}
        if not its:
            return None
        keep = {k: [n, list(l)] for k, (n, l) in self.obligs.items()}, len(self.slices)
        try:
            states, out = [st0.fork()], []
            for i in range(UNROLL + 1):
                nxt = []
                for s in states:
                    backs, exits = body(s.fork())
                    for b in backs:
                        if not any(b.mem.get(l) is not None and b.mem[l].op == 'it' and
                                   b.mem[l].a[2] == its[l].a[2] + i + 1 for l in its):
                            raise Unsupported('')
                    nxt += backs
                    out += [((tag, a, x), x[0] if isinstance(x, tuple) else x) for tag, a, x in exits]
                    if len(nxt) + len(out) > 128:
                        raise Unsupported('')
                states = nxt
                if not states:
                    return out
        except Unsupported:
            pass
        self.obligs = keep[0]
        del self.slices[keep[1]:]
        return None

    def fixpoint(self, fr, st0, site, body, depth):
        """body(state) -> (states at the back edge, [(tag, a, state or (state, v))])."""
        flat = self.unroll(st0, body, depth) if self.main == 'pfp_cli' else None
        if flat is not None:
            return flat
        self.stats['loops'] += 1
        frame_vals = tuple(sorted(((str(k), v) for k, v in st0.mem.items()
                                   if k[0] == depth or k[0] == 'root'), key=lambda x: x[0]))
        ctx = mk('loopctx', fr.name, site, st0.n, tuple(v for _, v in frame_vals))
        entry_hist = st0.hist
        base = st0.fork()
        base.hist = None
        entry_locs = set(base.mem)
        flags = [k for k in base.mem if is_flag(base.mem[k])]
        flags.sort(key=str)
        usepart = [True]

        def pkey(s):
            if not usepart[0]:
                return ()
            return tuple(flagval(s.mem.get(k)) for k in flags)

        def run(heads):
            results = {}
            for k, h in heads.items():
                s = h.fork()
                s.hist = None
                s.n = st0.n
                results[k] = body(s)
            return results

        self.dry += 1
        try:
            rounds = 0
            heads = {pkey(base): base}
            entry_key = pkey(base)
            while True:
                rounds += 1
                if rounds > 14:
                    raise Unsupported('loop does not stabilise in ' + fr.name + ' ' + site)
                results = run(heads)
                new = dict(heads)
                changed = False
                for k, (backs, exits) in results.items():
                    for b in backs:
                        kb = pkey(b)
                        if kb not in new:
                            if len(new) >= 8 and usepart[0]:
                                usepart[0] = False
                                break
                            h = S({l: b.mem[l] for l in entry_locs if l in b.mem},
                                  meet(base.facts, b.facts), None, st0.n)
                            # start from the entry values so that changes widen
                            j = S({}, h.facts, None, st0.n)
                            for l in entry_locs:
                                if l in flags:
                                    j.mem[l] = join(base.mem[l], b.mem.get(l), ctx, (l,), True) \
                                        if flagval(base.mem[l]) == flagval(b.mem.get(l)) \
                                        else widen_payload(b.mem.get(l), ctx, (l,))
                                elif l in b.mem:
                                    j.mem[l] = join(base.mem[l], b.mem[l], ctx, (l,))
                            j.facts = drop_loop_facts(j.facts, ctx)
                            new[kb] = j
                            changed = True
                        else:
                            h = new[kb]
                            mem = {}
                            for l, v in h.mem.items():
                                if l not in b.mem:
                                    changed = True
                                    continue
                                nv = join(v, b.mem[l], ctx, (l,))
                                if nv is not v:
                                    changed = True
                                mem[l] = nv
                            facts = meet(h.facts, b.facts)
                            if len(facts) != len(h.facts):
                                changed = True
                            new[kb] = S(mem, facts, None, st0.n)
                    if not usepart[0]:
                        break
                if not usepart[0] and len(heads) > 1 or (not usepart[0] and pkey(base) not in new):
                    heads = {(): base}
                    entry_key = ()
                    continue
                heads = new
                if not changed:
                    break
            # Counters that only grow or only shrink keep their relation to the start value.
            extra = monotone(ctx, base, results, heads)
        finally:
            self.dry -= 1
        if extra:
            for h in heads.values():
                f = dict(h.facts)
                f.update(extra)
                h.facts = f
        if extra or not self.dry:
            results = run(heads)
        rec = LoopRec(site, ctx)
        rec.entry = entry_key
        rec.heads = heads
        rec.fn = fr.name
        out = []
        for k, (backs, exits) in results.items():
            for b in backs:
                rec.trans.append((k, pkey(b), hlist(b.hist), b))
                to = heads.get(pkey(b), heads[k])
                for l in entry_locs:
                    hv = to.mem.get(l)
                    if hv is not None and l in b.mem:
                        self.record_phis(hv, b.mem[l], b.facts, rec)
        for k, (backs, exits) in results.items():
            for tag, a, x in exits:
                s, v = x if isinstance(x, tuple) else (x, None)
                partial = hlist(s.hist)
                h = H(entry_hist, Ev('loop', site, (), ctx, s.facts, None, fr.stack, (rec, k)))
                for e in partial:
                    h = H(h, e)
                s.hist = h
                out.append(((tag, a, x), s))
        return out

    def record_phis(self, head, back, facts, rec):
        if head.op == 'phi':
            if head.a[0] is not rec.ctx:
                return
            l = self.phiup.setdefault(head, [])
            if not any(v is back and f is facts for v, f, r in l):
                l.append((back, facts, rec))
        elif head.op == back.op and head is not back:
            for x, y in zip(kids(head), kids(back)):
                if x is not y:
                    self.record_phis(x, y, facts, rec)


# ------------------------------------------------------------------ helpers
def fixed_array(v):
    return v.op == 'it' and v.a[0].op == 'array' and len(v.a[0].a[0]) <= UNROLL and \
        isinstance(v.a[2], int) and all(k in ('map', 'enumerate', 'copied', 'cloned') for k, _ in v.a[1])


def hlist_since(h):
    return []


def effects(h):
    while h is not None:
        if h.ev.kind in ('effect',):
            yield h.ev
        elif h.ev.kind == 'loop':
            for k, k2, evs, b in h.ev.extra[0].trans:
                for e in evs:
                    if e.kind == 'effect':
                        yield e
        elif h.ev.kind == 'alt':
            for l in h.ev.extra:
                for e in l:
                    if e.kind == 'effect':
                        yield e
        h = h.prev


def shape(v, d=3):
    if v.op == 'adt':
        return (v.a[1],) + (tuple(shape(x, d - 1) for x in v.a[3]) if d > 1 else ())
    if v.op == 'const':
        return ('c', v.a[1])
    return ('o',)


def merge_vals(vs):
    if all(v is vs[0] for v in vs):
        return vs[0]
    if all(v.op == 'adt' and v.a[0] == vs[0].a[0] and v.a[1] == vs[0].a[1] and
           len(v.a[3]) == len(vs[0].a[3]) for v in vs):
        return mk('adt', vs[0].a[0], vs[0].a[1], vs[0].a[2],
                  tuple(merge_vals([v.a[3][i] for v in vs]) for i in range(len(vs[0].a[3]))))
    return choice(vs)


def common(hists):
    lo = min((h.depth if h is not None else 0) for h in hists)
    hs = []
    for h in hists:
        while h is not None and h.depth > lo:
            h = h.prev
        hs.append(h)
    while any(h is not hs[0] for h in hs):
        hs = [h.prev for h in hs]
    return hs[0]


def since(h, base):
    out = []
    while h is not base:
        out.append(h.ev)
        h = h.prev
    out.reverse()
    return out


def merge_states(sts):
    base = common([s.hist for s in sts])
    alts_ = [since(s.hist, base) for s in sts]
    facts = sts[0].facts
    for s in sts[1:]:
        facts = meet(facts, s.facts)
    hist = base
    if any(alts_):
        hist = H(base, Ev('alt', 'alt', (), None, facts, None, (), alts_))
    mem = {}
    for k in sts[0].mem:
        vs = [s.mem.get(k) for s in sts]
        if any(v is None for v in vs):
            continue
        mem[k] = merge_vals(vs)
    return S(mem, facts, hist, max(s.n for s in sts))


def meet(f, g):
    if f is g:
        return f
    r = {}
    same = True
    for k, v in f.items():
        w = g.get(k)
        if w == v:
            r[k] = v
        else:
            same = False
            if isinstance(k, tuple) and isinstance(v, frozenset) and isinstance(w, frozenset):
                x = v & w
                if x:
                    r[k] = x
            elif isinstance(k, tuple) and w is not None:
                if isinstance(v, frozenset) and isinstance(w, str) and w not in v:
                    r[k] = v
                elif isinstance(w, frozenset) and isinstance(v, str) and v not in w:
                    r[k] = w
    return f if same else r


def drop_loop_facts(facts, ctx):
    out = facts
    for k in list(facts):
        x = k[1] if isinstance(k, tuple) else k
        if ctx.id in deps(x):
            if out is facts:
                out = dict(facts)
            del out[k]
    return out


def is_flag(v):
    return v is TRUE or v is FALSE or (v.op == 'adt' and v.a[0] in (OPTION,)) or known_prefix(v) > 0


def known_prefix(v):
    """How many elements with known values the list of an iterator starts with."""
    if v.op != 'it' or v.a[2] == '*' or v.a[0].op != 'phi':
        return 0
    ps = parts(v.a[0].a[2])
    return len(ps) if all(x.op == 'elt' for x in ps) else 0


def flagval(v):
    if v is None:
        return '?'
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    if v.op == 'adt':
        return v.a[1]
    if v.op == 'it':
        return v.a[2] if v.a[2] != '*' and v.a[2] < known_prefix(v) else 'rest'
    return '?'


def widen_payload(v, ctx, path):
    if v is None:
        return mk('phi', ctx, path_name(path), mk('undef'))
    if v.op == 'adt' and v.a[3]:
        return mk('adt', v.a[0], v.a[1], v.a[2],
                  tuple(mk('phi', ctx, path_name(path) + '.' + v.a[1] + n, mk('undef'))
                        if not is_const(x) else x
                        for n, x in zip(v.a[2], v.a[3])))
    if v.op == 'it':
        return mk('it', v.a[0], v.a[1], '*')
    return v


def path_name(path):
    return '/'.join(str(p) for p in path)


def join(old, new, ctx, path, payload=False):
    if new is None:
        return mk('phi', ctx, path_name(path), old)
    if old is new:
        return old
    if old.op == 'phi' and old.a[0] is ctx:
        return old
    if old.op == 'it' and new.op == 'it' and old.a[0] is new.a[0] and len(old.a[1]) == len(new.a[1]):
        chain = tuple(join(x, y, ctx, path + (i,)) for i, (x, y) in
                      enumerate(zip(old.a[1], new.a[1])))
        return mk('it', old.a[0], chain, '*')
    if old.op == 'adt' and new.op == 'adt' and old.a[:3] == new.a[:3]:
        return mk('adt', old.a[0], old.a[1], old.a[2],
                  tuple(join(x, y, ctx, path + (n,)) for n, x, y in
                        zip(old.a[2], old.a[3], new.a[3])))
    if old.op == 'tuple' and new.op == 'tuple' and len(old.a[0]) == len(new.a[0]):
        return mk('tuple', tuple(join(x, y, ctx, path + (i,)) for i, (x, y) in
                                 enumerate(zip(old.a[0], new.a[0]))))
    if old.op == 'closure' and new.op == 'closure' and old.a[0] == new.a[0]:
        return mk('closure', old.a[0], tuple(join(x, y, ctx, path + (i,)) for i, (x, y) in
                                             enumerate(zip(old.a[1], new.a[1]))))
    ob, nb = (old.a[0] if old.op == 'upd' else old), (new.a[0] if new.op == 'upd' else new)
    if ob is nb and (old.op == 'upd' or new.op == 'upd'):
        od = dict(old.a[1]) if old.op == 'upd' else {}
        nd = dict(new.a[1]) if new.op == 'upd' else {}
        r = ob
        items = []
        for k in sorted(set(od) | set(nd)):
            x = od.get(k, _sel(ob, k))
            y = nd.get(k, _sel(ob, k))
            items.append((k, join(x, y, ctx, path + (k,))))
        items = [(k, v) for k, v in items if v is not _sel(ob, k)]
        return mk('upd', ob, tuple(items)) if items else ob
    return mk('phi', ctx, path_name(path), old)


def _sel(b, k):
    if '.' in k:
        v, n = k.split('.', 1)
        return vfield(b, v, n)
    return field(b, k)


def monotone(ctx, base, results, heads):
    ups = {}
    for k, (backs, exits) in results.items():
        h = heads[k]
        for b in backs:
            for l, hv in h.mem.items():
                if l in b.mem:
                    collect_updates(hv, b.mem[l], ctx, ups)
    extra = {}
    for p, vals in ups.items():
        init = p.a[2]
        if init.op in ('undef', 'cat', 'str', 'adt', 'array', 'tuple', 'const', 'it'):
            continue
        ds = []
        for v in vals:
            d = sub(v, p)
            ds.append(d.a[0] if d.op == 'int' else
                      ('+' if prove({}, d) else None))
        if any(d is None for d in ds):
            continue
        if all(d == '+' or d >= 0 for d in ds):
            t = le(init, p)
        elif all(d != '+' and d <= 0 for d in ds):
            t = le(p, init)
        else:
            continue
        if t.op == 'not':
            extra[t.a[0]] = False
        elif t.op != 'const':
            extra[t] = True
    return extra


def collect_updates(h, b, ctx, ups):
    if h.op == 'phi' and h.a[0] is ctx:
        ups.setdefault(h, []).append(b)
    elif h.op == b.op and h is not b and h.op in ('adt', 'tuple', 'upd', 'closure', 'it'):
        for x, y in zip(kids(h), kids(b)):
            if x is not y:
                collect_updates(x, y, ctx, ups)


_ptr_cache = {}


def has_ptr(v):
    r = _ptr_cache.get(v)
    if r is None:
        r = v.op == 'ptr' or v.op != 'loopctx' and any(has_ptr(k) for k in kids(v))
        _ptr_cache[v] = r
    return r


def ptrs(v):
    if v.op == 'ptr':
        yield v
    else:
        for k in kids(v):
            if has_ptr(k):
                yield from ptrs(k)


def rebuild(v, f):
    if v.op == 'ptr':
        return f(v)

    def go(x):
        if isinstance(x, T):
            return rebuild(x, f) if has_ptr(x) else x
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return mk(v.op, *[go(x) for x in v.a])


def index(v, i):
    if v.op == 'array' and i.op == 'int' and i.a[0] < len(v.a[0]):
        return v.a[0][i.a[0]]
    if v.op == 'str' and i.op == 'int' and v.a[0].isascii() and i.a[0] < len(v.a[0]):
        return char(v.a[0][i.a[0]])
    if v.op == 'fill':
        return v.a[1]
    if v.op == 'choice':
        return choice([index(x, i) for x in v.a[0]])
    if v.op == 'slice':
        return index(v.a[0], TM.add(v.a[1], i))
    return mk('idx', v, i)


def cast(v, fm, to):
    if v.op == 'int':
        if to in TM.INT_RANGE and to not in ('char', 'bool'):
            return integer(v.a[0] & TM.INT_RANGE[to])
        if to == 'char':
            return char(chr(v.a[0]))
        return v
    if v.op == 'str' and len(v.a[0]) == 1 and fm in ('char', 'u8'):
        if to == 'char':
            return v
        return integer(ord(v.a[0]) & TM.INT_RANGE.get(to, 0xffffffff))
    if v.op == 'const' and v.a[0] == 'bool':
        return integer(1 if v.a[1] else 0)
    rank = {'u8': 1, 'u16': 2, 'u32': 3, 'char': 3, 'u64': 4, 'usize': 4}
    if fm in rank and to in rank and rank[to] >= rank[fm] and to != 'char' and fm != 'char':
        # widening: the value is the same
        if fm in ('u8', 'u16', 'u32'):
            TM.BOUNDS.setdefault(v, (0, TM.INT_RANGE[fm]))
        UNSIGNED.add(v)
        return v
    return mk('cast', to, fm, v)


def int_bounds(ty):
    if ty in TM.INT_RANGE:
        return 0, TM.INT_RANGE[ty]
    m = re.match(r'i(\d+)$', ty or '')
    if m:
        n = int(m.group(1))
        return -(1 << n - 1), (1 << n - 1) - 1
    if ty == 'isize':
        return -(1 << 63), (1 << 63) - 1
    return None, None


def is_boolean(t):
    return t.op in ('not', 'isvar', 'eq', 'eqz', 'ge0', 'empty', 'and', 'allempty', 'setin') or \
        (t.op == 'const' and t.a[0] == 'bool')


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<':
            d += 1
        elif ch == '>' and (i == 0 or s[i - 1] != '-'):
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out).replace('::::', '::')


def tail(path):
    """Type::method of a path, generics removed; closures keep their suffix."""
    m = re.match(r'^(?:\w+#)?<(.*)>::(\w+)((?:::\{closure#\d+\})*)$', path)
    if m and ' as ' in m.group(1):
        ty, tr = m.group(1).rsplit(' as ', 1)
        return '<%s as %s>::%s%s' % (strip_generics(ty).split('::')[-1],
                                     strip_generics(tr).split('::')[-1], m.group(2), m.group(3))
    p = path.split('#', 1)[-1] if '#' in path.split('::')[0] else path
    p = strip_generics(p)
    segs = [x for x in p.split('::') if x]
    return '::'.join(segs[-2:])


def key_of(path, orig):
    """Short name of a library function: Trait::method or Type::method."""
    o = orig or path
    if path.startswith('<') or ' as ' in path or '<impl' in path and orig != path:
        if orig != path:
            return '::'.join([x for x in strip_generics(o).split('::') if x][-2:])
    if '<impl' in path:
        m = re.search(r'<impl (?:[^<>]|<[^<>]*>)*?([\w\[\]]+)(?:<.*>)?>::(\w+)$', path)
        m2 = re.search(r'<impl (.*)>::(\w+)$', path)
        ty = m2.group(1)
        if ' for ' in ty:
            ty = ty.split(' for ')[-1]
        ty = strip_generics(ty).split('::')[-1]
        return '%s::%s' % (ty, m2.group(2))
    p = o.split('#', 1)[-1] if '#' in o.split('::')[0] else o
    return '::'.join([x for x in strip_generics(p).split('::') if x][-2:])
