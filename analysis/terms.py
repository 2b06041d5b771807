"""Value-provenance terms (hash-consed), linear normal forms and facts."""


class T:
    __slots__ = ('op', 'a', 'id', 'deps', 'size')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, _key(a))
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.deps = None
        _tab[k] = t
    return t


def _key(x):
    if isinstance(x, T):
        return ('#', x.id)
    if isinstance(x, tuple):
        return tuple(_key(y) for y in x)
    if isinstance(x, bool):
        return ('b', x)
    return x


def kids(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def deps(t):
    """ids of all subterms, including t."""
    if t.deps is None:
        s = {t.id}
        for k in kids(t):
            s |= deps(k)
        t.deps = frozenset(s)
    return t.deps


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(kids(x))


def mentions(t, x):
    return x.id in deps(t)


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


# ---------------------------------------------------------------- constructors
TRUE = mk('const', 'bool', True)
FALSE = mk('const', 'bool', False)
UNIT = mk('const', 'unit', None)
EMPTY = mk('cat')


def boolean(b):
    return TRUE if b else FALSE


def integer(v, ty='usize'):
    return mk('int', v)


def string(s):
    return EMPTY if s == '' else mk('str', s)


def bytes_(b):
    """Byte strings that are text are the same as the text."""
    if len(b) == 0:
        return EMPTY
    try:
        return mk('str', bytes(b).decode('utf-8'))
    except UnicodeDecodeError:
        return mk('bytes', bytes(b).hex())


def char(c):
    return mk('str', c)


def is_int(t):
    return t.op == 'int'


def is_const(t):
    return t.op in ('int', 'str', 'const', 'bytes') or t is EMPTY


def adt(path, variant, fields=(), names=None):
    fields = tuple(fields)
    if names is None:
        names = tuple(str(i) for i in range(len(fields)))
    return mk('adt', path, variant, tuple(names), fields)


OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
FLOW = 'std::ops::ControlFlow'


def some(x):
    return adt(OPTION, 'Some', (x,))


NONE = adt(OPTION, 'None')


def ok(x):
    return adt(RESULT, 'Ok', (x,))


def err(x):
    return adt(RESULT, 'Err', (x,))


def tup(*xs):
    return mk('tuple', tuple(xs))


VARIANTS = {
    'Some': ('None', 'Some'), 'None': ('None', 'Some'),
    'Ok': ('Ok', 'Err'), 'Err': ('Ok', 'Err'),
    'Continue': ('Continue', 'Break'), 'Break': ('Continue', 'Break'),
}


def field(v, name):
    op = v.op
    if op == 'adt':
        if name in v.a[2]:
            return v.a[3][v.a[2].index(name)]
    elif op == 'tuple':
        i = int(name)
        if i < len(v.a[0]):
            return v.a[0][i]
    elif op == 'closure':
        return v.a[1][int(name)]
    elif op == 'upd':
        for k, x in v.a[1]:
            if k == name:
                return x
        return field(v.a[0], name)
    elif op == 'choice':
        return choice([field(x, name) for x in v.a[0]])
    return mk('f', v, name)


def vfield(v, variant, name='0'):
    if v.op == 'adt':
        if v.a[1] == variant and name in v.a[2]:
            return v.a[3][v.a[2].index(name)]
    elif v.op == 'upd':
        key = variant + '.' + name
        for k, x in v.a[1]:
            if k == key:
                return x
        return vfield(v.a[0], variant, name)
    elif v.op == 'choice':
        xs = [x for x in v.a[0] if not (x.op == 'adt' and x.a[1] != variant)]
        if xs:
            return choice([vfield(x, variant, name) for x in xs])
    return mk('vf', v, variant, name)


def with_field(v, name, x, variant=None):
    if v.op == 'adt' and (variant is None or v.a[1] == variant) and name in v.a[2]:
        i = v.a[2].index(name)
        f = list(v.a[3])
        f[i] = x
        return mk('adt', v.a[0], v.a[1], v.a[2], tuple(f))
    if v.op == 'tuple':
        f = list(v.a[0])
        f[int(name)] = x
        return mk('tuple', tuple(f))
    if v.op == 'closure':
        f = list(v.a[1])
        f[int(name)] = x
        return mk('closure', v.a[0], tuple(f))
    key = name if variant is None else variant + '.' + name
    if v.op == 'upd':
        base, items = v.a[0], dict(v.a[1])
    else:
        base, items = v, {}
    items[key] = x
    if (field(base, name) if variant is None else vfield(base, variant, name)) is x:
        del items[key]
    if not items:
        return base
    return mk('upd', base, tuple(sorted(items.items(), key=lambda kv: kv[0])))


def choice(vs):
    out = []
    for v in vs:
        for x in (v.a[0] if v.op == 'choice' else (v,)):
            if x not in out:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return mk('choice', tuple(sorted(out, key=lambda t: t.id)))


def alts(v):
    return v.a[0] if v.op == 'choice' else (v,)


# ------------------------------------------------------------- concatenations
def cat(*parts):
    """Text or byte sequence; pieces appended one by one are ('item', x)."""
    out = []

    def add(p):
        if p.op == 'cat':
            for q in p.a:
                add(q)
            return
        if p.op == 'item' and p.a[0].op == 'str' and len(p.a[0].a[0]) == 1:
            p = p.a[0]
        if p.op == 'str' and out and out[-1].op == 'str':
            out[-1] = mk('str', out[-1].a[0] + p.a[0])
            return
        out.append(p)
    for p in parts:
        add(p)
    if len(out) == 1 and out[0].op not in ('item', 'elt'):
        return out[0]
    return mk('cat', *out)


def item(x):
    if x.op == 'int' and 0x20 <= x.a[0] < 0x7f or x.op == 'int' and x.a[0] in (0, 10):
        return mk('item', mk('str', chr(x.a[0])))
    return mk('item', x)


def parts(t):
    if t.op == 'cat':
        return list(t.a)
    return [t]


def length(t):
    if t.op == 'cat':
        r = integer(0)
        for p in t.a:
            r = add(r, length(p))
        return r
    if t.op in ('item', 'elt'):
        return integer(1)
    if t.op == 'str':
        return integer(len(t.a[0].encode('utf-8')))
    if t.op == 'bytes':
        return integer(len(t.a[0]) // 2)
    if t.op == 'array':
        return integer(len(t.a[0]))
    if t.op == 'fill':
        return t.a[0]
    if t.op == 'resize':
        return t.a[1]
    if t.op == 'store':
        return length(t.a[0])
    if t.op == 'slice':
        return sub(t.a[2], t.a[1])
    if t.op == 'rand':
        return integer(t.a[0])
    if t.op == 'coll' and t.a[2] is not None and all(not c for c, _ in t.a[2]):
        return length(t.a[0])
    if t.op == 'scrypt':
        return t.a[3]
    return mk('len', t)


# ------------------------------------------------------------ linear integers
def lin(t):
    """(const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def unlin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return integer(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, k=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, x in db.items():
        d[t] = d.get(t, 0) + k * x
    return unlin(ca + k * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin(a)
    return unlin(c * k, {t: x * k for t, x in d.items()})


def mul(a, b):
    if a.op == 'int':
        return scale(b, a.a[0])
    if b.op == 'int':
        return scale(a, b.a[0])
    a, b = sorted((a, b), key=lambda t: t.id)
    return mk('mul', a, b)


def div(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0]:
        return integer(a.a[0] // b.a[0])
    if b.op == 'int' and b.a[0] == 1:
        return a
    return mk('div', a, b)


def rem(a, b):
    if a.op == 'int' and b.op == 'int' and b.a[0]:
        return integer(a.a[0] % b.a[0])
    return mk('rem', a, b)


# ------------------------------------------------------------------- booleans
def negate(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def empty(t):
    n = length(t)
    if n.op == 'int':
        return boolean(n.a[0] == 0)
    if t.op == 'cat':
        return mk('allempty', tuple(t.a)) if not any(
            p.op in ('item', 'elt', 'str') for p in t.a) else FALSE
    return mk('empty', t)


def ge0(l):
    """l >= 0"""
    c, d = lin(l)
    if not d:
        return boolean(c >= 0)
    if len(d) == 1:
        (t, k), = d.items()
        if k < 0:
            return negate(ge0(unlin(-c - 1, {t: -k})))
        if k > 1:   # k*t >= -c
            return ge0(unlin(-((-c + k - 1) // k), {t: 1}))
        if t.op == 'len':
            if c >= 0:
                return TRUE
            if c == -1:
                return negate(empty(t.a[0]))
        return mk('ge0', unlin(c, d))
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        return negate(mk('ge0', unlin(-c - 1, {t: -k for t, k in d.items()})))
    return mk('ge0', unlin(c, d))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), integer(1)))


def eq(a, b, ints=False):
    if a is b:
        return TRUE
    if a.op == 'choice' and b.op != 'choice' and is_const(b):
        pass
    if a.op in ('const',) and a.a[0] == 'bool':
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return negate(a)
    for x, y in ((a, b), (b, a)):
        if y.op == 'adt' and not y.a[3] and not (x.op == 'adt'):
            return mk('isvar', x, y.a[1])
    if a.op == 'adt' and b.op == 'adt':
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[3], b.a[3]):
            r = conj(r, eq(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and x.a[0] == OPTION and x.a[1] == 'Some' and y.op != 'adt':
            return conj(mk('isvar', y, 'Some'), eq(x.a[3][0], vfield(y, 'Some')))
    if a is EMPTY:
        return empty(b)
    if b is EMPTY:
        return empty(a)
    if a.op in ('int', 'lin', 'len') or b.op in ('int', 'lin', 'len') or ints:
        if (a.op in ('str',)) or b.op == 'str':
            x, y = (a, b) if a.op == 'str' else (b, a)
            if y.op == 'int':
                return boolean(len(x.a[0]) == 1 and ord(x.a[0]) == y.a[0])
            return _eq(a, b)
        c, d = lin(sub(a, b))
        if not d:
            return boolean(c == 0)
        if len(d) == 1:
            (t, k), = d.items()
            if c % k:
                return FALSE
            v = -c // k
            if t.op == 'len':
                if v == 0:
                    return empty(t.a[0])
                if v < 0:
                    return FALSE
            if t.op == 'cast' and t.a[0] == 'u8' and False:
                pass
            return mk('eqz', t, v)
        first = min(d, key=lambda t: t.id)
        if d[first] < 0:
            c, d = -c, {t: -k for t, k in d.items()}
        return mk('eqz', unlin(c, d), 0)
    if is_const(a) and is_const(b):
        return FALSE
    return _eq(a, b)


def _eq(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def conj(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return mk('and', a, b)


def disj(a, b):
    return negate(conj(negate(a), negate(b)))


# ---------------------------------------------------------------------- facts
# Facts are an immutable-by-convention dict:  bool term -> True/False,
# ('v', term) -> variant name or frozenset of excluded names.
UNSIGNED = set()     # terms of unsigned integer type
BOUNDS = {}          # term -> (lo, hi) from its type


def variant(facts, v):
    if v.op == 'adt':
        return v.a[1]
    if v.op == 'upd':
        return variant(facts, v.a[0])
    f = facts.get(('v', v))
    if isinstance(f, str):
        return f
    if v.op == 'choice':
        vs = {variant(facts, x) for x in v.a[0]}
        if len(vs) == 1:
            return vs.pop()
    return None


def excluded(facts, v):
    if v.op == 'upd':
        return excluded(facts, v.a[0])
    f = facts.get(('v', v))
    return f if isinstance(f, frozenset) else frozenset()


def assume_variant(facts, v, name):
    known = variant(facts, v)
    if known is not None:
        return facts if known == name else None
    if name in excluded(facts, v):
        return None
    while v.op == 'upd':
        v = v.a[0]
    f = dict(facts)
    f[('v', v)] = name
    return f


def assume_not_variant(facts, v, name):
    known = variant(facts, v)
    if known is not None:
        return None if known == name else facts
    while v.op == 'upd':
        v = v.a[0]
    ex = excluded(facts, v) | {name}
    f = dict(facts)
    allv = VARIANTS.get(name)
    if allv:
        rest = [x for x in allv if x not in ex]
        if not rest:
            return None
        if len(rest) == 1:
            f[('v', v)] = rest[0]
            return f
    f[('v', v)] = frozenset(ex)
    return f


def truth(facts, t):
    """True, False or None."""
    op = t.op
    if op == 'const':
        return t.a[1]
    k = facts.get(t)
    if k is not None:
        return k
    if op == 'not':
        r = truth(facts, t.a[0])
        return None if r is None else not r
    if op == 'and':
        a, b = truth(facts, t.a[0]), truth(facts, t.a[1])
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None
    if op == 'isvar':
        v = variant(facts, t.a[0])
        if v is not None:
            return v == t.a[1]
        if t.a[1] in excluded(facts, t.a[0]):
            return False
        return None
    if op == 'empty':
        l = mk('len', t.a[0])
        if prove(facts, add(l, integer(-1))):
            return False
        if prove(facts, scale(l, -1)):
            return True
        return None
    if op == 'ge0':
        l = t.a[0]
        if prove(facts, l):
            return True
        if prove(facts, add(scale(l, -1), integer(-1))):
            return False
        return None
    if op == 'eqz':
        l = add(t.a[0], integer(-t.a[1]))
        if prove(facts, add(l, integer(-1))) or prove(facts, add(scale(l, -1), integer(-1))):
            return False
        if prove(facts, l) and prove(facts, scale(l, -1)):
            return True
        return None
    if op == 'eq':
        a, b = t.a
        for x, c in ((a, b), (b, a)):
            if c.op == 'str':
                for f, val in facts.items():
                    if val is True and isinstance(f, T) and f.op == 'eq' and x in f.a:
                        o = f.a[0] if f.a[1] is x else f.a[1]
                        if o.op == 'str' and o is not c:
                            return False
                if len(c.a[0]) and facts.get(mk('empty', x)) is True:
                    return False
        return None
    return None


def assume(facts, t, val):
    """Facts extended by t == val, or None if that contradicts them."""
    op = t.op
    if op == 'not':
        return assume(facts, t.a[0], not val)
    if op == 'const':
        return facts if t.a[1] == val else None
    if op == 'isvar':
        return (assume_variant if val else assume_not_variant)(facts, t.a[0], t.a[1])
    if op == 'and' and val:
        f = assume(facts, t.a[0], True)
        return None if f is None else assume(f, t.a[1], True)
    k = truth(facts, t)
    if k is not None:
        return facts if k == val else None
    if op == 'and' and not val:
        if truth(facts, t.a[0]) is True:
            return assume(facts, t.a[1], False)
        if truth(facts, t.a[1]) is True:
            return assume(facts, t.a[0], False)
    f = dict(facts)
    f[t] = val
    if op == 'allempty' and val:
        for p in t.a[0]:
            f = assume(f, empty(p), True)
            if f is None:
                return None
    return f


def kill(facts, t):
    """Drops the facts that mention t."""
    i = t.id
    out = None
    for k in facts:
        x = k[1] if isinstance(k, tuple) else k
        if i in deps(x):
            if out is None:
                out = dict(facts)
            del out[k]
    return facts if out is None else out


def inequalities(facts):
    for k, v in facts.items():
        if isinstance(k, tuple):
            continue
        if k.op == 'ge0':
            yield k.a[0] if v else add(scale(k.a[0], -1), integer(-1))
        elif k.op == 'eqz' and v:
            l = add(k.a[0], integer(-k.a[1]))
            yield l
            yield scale(l, -1)
        elif k.op == 'empty':
            l = mk('len', k.a[0])
            yield scale(l, -1) if v else add(l, integer(-1))
        elif v and k.op == 'call' and k.a[0] in ('str::starts_with', 'str::ends_with',
                                                 'str::contains'):
            yield sub(length(k.a[1][0]), length(k.a[1][1]))


INT_RANGE = {'u8': 255, 'u16': 65535, 'u32': 2**32 - 1, 'u64': 2**64 - 1, 'usize': 2**64 - 1,
             'char': 0x10ffff, 'bool': 1}


def intrinsic(facts, t):
    """Linear forms >= 0 that hold for t whatever the facts are."""
    op = t.op
    if op == 'len':
        yield t
        x = t.a[0]
        if x.op == 'elem' and x.a[0].op == 'chunks':
            n = x.a[0].a[1]
            yield sub(n, t)
            yield sub(t, integer(1))
            whole = length(x.a[0].a[0])
            if truth(facts, eq(rem(whole, n), integer(0))) or divides(facts, n, whole):
                yield sub(t, n)
    elif op == 'rem':
        yield t
        if t.a[1].op == 'int':
            yield sub(integer(t.a[1].a[0] - 1), t)
        else:
            yield sub(sub(t.a[1], integer(1)), t)
        yield sub(t.a[0], t)
    elif op == 'div':
        yield t
        if t.a[1].op == 'int':
            yield sub(t.a[0], scale(t, t.a[1].a[0]))
            yield sub(add(scale(t, t.a[1].a[0]), integer(t.a[1].a[0] - 1)), t.a[0])
        else:
            yield sub(t.a[0], t)
    elif op == 'index':
        yield t
        yield sub(sub(length(t.a[0]), integer(1)), t)
    elif op == 'elem' and t.a[0].op == 'range':
        yield sub(t, t.a[0].a[0])
        yield sub(sub(t.a[0].a[1], integer(1)), t)
    elif op == 'cast':
        hi = INT_RANGE.get(t.a[0])
        if hi is not None:
            yield t
            h2 = INT_RANGE.get(t.a[1])
            yield sub(integer(min(hi, h2) if h2 is not None else hi), t)
    elif op == 'bitand':
        yield t
        for x in t.a:
            if x.op == 'int':
                yield sub(x, t)
    elif op == 'bitor':
        yield t
        his = []
        for x in t.a:
            h = upper(facts, x)
            if h is None:
                break
            his.append(h)
        else:
            yield sub(integer((1 << max(h.bit_length() for h in his)) - 1), t)
    elif op == 'shr':
        yield t
        h = upper(facts, t.a[0])
        if h is not None and t.a[1].op == 'int':
            yield sub(integer(h >> t.a[1].a[0]), t)
    elif op == 'shl':
        yield t
    elif op == 'idx' and t.a[0].op == 'array':
        vals = [x.a[0] for x in t.a[0].a[0] if x.op == 'int']
        if len(vals) == len(t.a[0].a[0]) and vals:
            yield sub(t, integer(min(vals)))
            yield sub(integer(max(vals)), t)
    elif op == 'setlen':
        yield t
        yield sub(integer(4), t)
    elif op == 'vf' and t.a[0].op == 'call' and t.a[0].a[0] in ('str::find', 'str::rfind'):
        yield t
        s, p = t.a[0].a[1][:2]
        yield sub(sub(length(s), length(p) if p.op in ('str', 'cat') else integer(1)), t)
    if t in BOUNDS:
        lo, hi = BOUNDS[t]
        yield sub(t, integer(lo))
        yield sub(integer(hi), t)
    elif t in UNSIGNED:
        yield t


def divides(facts, n, l):
    """n divides l: l is (x / n) * n, or a multiple by construction."""
    if n.op != 'int':
        return False
    c, d = lin(l)
    if c % n.a[0]:
        return False
    for t, k in d.items():
        if k % n.a[0] == 0:
            continue
        if truth_shallow(facts, mk('eqz', rem(t, n), 0)):
            continue
        return False
    return True


def truth_shallow(facts, t):
    return facts.get(t)


_depth = [0]


def upper(facts, t):
    if t.op == 'int':
        return t.a[0]
    if _depth[0] > 6:
        return None
    _depth[0] += 1
    try:
        best = None
        c, d = lin(t)
        tot = c
        for x, k in d.items():
            if k < 0:
                if not prove(facts, x, 0):
                    return None
                continue
            h = None
            for l in intrinsic(facts, x):
                cc, dd = lin(l)
                if dd.get(x) == -1 and len(dd) == 1:
                    h = cc if h is None else min(h, cc)
            for l in inequalities(facts):
                cc, dd = lin(l)
                if dd.get(x) == -1 and len(dd) == 1:
                    h = cc if h is None else min(h, cc)
            if h is None:
                return None
            tot += k * h
        return tot
    finally:
        _depth[0] -= 1


def prove(facts, l, depth=3, seen=None):
    """l >= 0 follows from the facts and the intrinsic bounds."""
    c, d = lin(l)
    if not d:
        return c >= 0
    if depth < 0 or _depth[0] > 6:
        return False
    _depth[0] += 1
    try:
        if all(k > 0 and (t in UNSIGNED or t.op in ('len', 'rem', 'div', 'index', 'cast', 'setlen'))
               for t, k in d.items()) and c >= 0:
            return True
        if depth == 0:
            return False
        if len(d) == 1:
            t, k = next(iter(d.items()))
            if t.op == 'div' and k > 0 and t.a[1].op == 'int' and t.a[1].a[0] > 0:
                # t >= m if and only if m divisors fit
                return prove(facts, sub(t.a[0], integer(-(c // k) * t.a[1].a[0])), depth)
        cands = []
        for t in d:
            cands.extend(intrinsic(facts, t))
        cands.extend(facts_ineqs(facts))
        for f in cands:
            cf, df = lin(f)
            # use f to cancel one term of l
            for t, k in d.items():
                kf = df.get(t)
                if kf and (kf > 0) == (k > 0) and k % kf == 0:
                    m = k // kf
                    rest = sub(l, scale(f, m))
                    cr, dr = lin(rest)
                    if not dr:
                        if cr >= 0:
                            return True
                        continue
                    if len(dr) <= max(len(d), 2) and prove(facts, rest, depth - 1):
                        return True
        return False
    finally:
        _depth[0] -= 1


_ineq_cache = {}


def facts_ineqs(facts):
    key = id(facts)
    c = _ineq_cache.get(key)
    if c is not None and c[0] is facts:
        return c[1]
    if len(_ineq_cache) > 20000:
        _ineq_cache.clear()
    r = list(inequalities(facts))
    _ineq_cache[key] = (facts, r)
    return r


# -------------------------------------------------------------------- display
def show(t, d=6):
    if not isinstance(t, T):
        return '(' + ','.join(show(x, d - 1) for x in t) + ')' if isinstance(t, tuple) else str(t)
    if d <= 0:
        return '..'
    op = t.op
    a = t.a
    if op == 'int':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'const':
        return str(a[1]) if a[0] != 'unit' else '()'
    if op == 'param':
        return a[0]
    if op == 'cat':
        return '""' if not a else ' ++ '.join(show(x, d - 1) for x in a)
    if op in ('item', 'elt'):
        return '[' + show(a[0], d - 1) + ']'
    if op == 'f':
        return show(a[0], d - 1) + '.' + a[1]
    if op == 'vf':
        return '%s(%s)%s' % (a[1], show(a[0], d - 1), '' if a[2] == '0' else '.' + a[2])
    if op == 'adt':
        n = a[0].split('::')[-1]
        if a[1] and a[1] != n:
            n = a[1]
        return n + ('(' + ', '.join(show(x, d - 1) for x in a[3]) + ')' if a[3] else '')
    if op == 'tuple':
        return '(' + ', '.join(show(x, d - 1) for x in a[0]) + ')'
    if op == 'lin':
        s = ' + '.join(('%d*' % k if k != 1 else '') + show(x, d - 1) for x, k in a[1])
        return '(%s%+d)' % (s, a[0]) if a[0] else '(%s)' % s
    if op == 'ge0':
        return show(a[0], d) + '>=0'
    if op == 'eqz':
        return '%s==%d' % (show(a[0], d), a[1])
    if op == 'eq':
        return '%s==%s' % (show(a[0], d - 1), show(a[1], d - 1))
    if op == 'not':
        return '!' + show(a[0], d)
    if op == 'isvar':
        return '%s is %s' % (show(a[0], d - 1), a[1])
    if op == 'call':
        return '%s(%s)%s' % (a[0], ', '.join(show(x, d - 1) for x in a[1]),
                             '' if a[2] is None else '#%s' % (a[2],))
    if op == 'phi':
        return 'phi(%s)' % '.'.join(str(x) for x in a[1:])
    if op == 'loopctx':
        return 'loop@%s' % a[1]
    return '%s(%s)' % (op, ', '.join(show(x, d - 1) for x in a))
