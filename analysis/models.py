"""Semantics of the library functions that the analysed code calls."""
import re
from terms import *
import terms as TM

MODELS = {}
PURE = set()
IDENTITY = set()


def m(*keys):
    def d(f):
        for k in keys:
            MODELS[k] = f
        return f
    return d


def ret(st, v):
    return [('ret', st, v)]


def V(E, st, x):
    return E.read(st, x)


def D(E, st, x):
    return E.deep(st, x)


def split(st, v, *names):
    """[(variant, state, payload)] for the variants the facts allow."""
    out = []
    todo = []
    for n in names:
        f = assume_variant(st.facts, v, n)
        if f is not None:
            todo.append((n, f))
    for i, (n, f) in enumerate(todo):
        s = st if i == len(todo) - 1 else st.fork()
        s.facts = f
        out.append((n, s, vfield(v, n)))
    return out


def branch(st, cond):
    """[(bool, state)]"""
    t = truth(st.facts, cond)
    if t is not None:
        return [(t, st)]
    out = []
    for b in (True, False):
        f = assume(st.facts, cond, b)
        if f is not None:
            s = st.fork()
            s.facts = f
            out.append((b, s))
    return out


def call(E, c, st, f, args):
    return E.call_value(c, st, f, args)


def bind(outs, g):
    """Continues the returning outcomes with g(state, value)."""
    res = []
    for kind, s, v in outs:
        if kind == 'ret':
            res.extend(g(s, v))
        else:
            res.append((kind, s, v))
    return res


def pure(*keys):
    PURE.update(keys)


def term(name, *args):
    return mk('call', name, tuple(args), None)


# ------------------------------------------------------------------- identity
IDENTITY.update('''
Secret::new ExposeSecret::expose_secret Clone::clone ToOwned::to_owned Deref::deref
DerefMut::deref_mut String::as_str String::as_bytes str::as_bytes String::into_bytes
str::as_str Vec::as_slice Vec::as_mut_slice [T]::to_vec str::to_owned String::from Box::new Rc::new
Option::as_ref Option::as_deref Option::cloned Option::copied Result::as_ref
Iterator::copied Iterator::cloned Iterator::by_ref Iterator::peekable Iterator::fuse
hint::must_use AsRef::as_ref AsMut::as_mut Borrow::borrow BorrowMut::borrow_mut
String::as_mut_str String::into_boxed_str Vec::into_boxed_slice Path::new Path::to_path_buf
PathBuf::as_path CtOutput::into_bytes GenericArray::as_slice GenericArray::into_vec
convert::identity String::as_mut_string Cow::into_owned str::into_string Cow::borrow
OsStr::new OsStr::to_os_string Path::as_os_str Wrapping::new PathBuf::into_os_string
str::to_string SecretString::new Secret::clone str::into_owned [T]::as_ref Option::as_slice
Zeroizing::new [T]::into_vec [T]::as_slice Box::into_inner
'''.split())


@m('Into::into', 'From::from', 'TryInto::try_into', 'TryFrom::try_from')
def m_into(E, c, st, a):
    v = a[0]
    r = V(E, st, v)
    t = c.gargs[1] if len(c.gargs) > 1 else ''
    fm = c.gargs[0] if c.gargs else ''
    if c.key.startswith('From'):
        fm, t = t, fm
    if 'Try' in c.key:
        return ret(st, term('try_into', D(E, st, v), mk('ty', t)))
    if t == 'char' or fm == 'char':
        from engine import cast
        if t == 'char':
            return ret(st, r if r.op == 'str' else cast(r, fm, 'char'))
        if t in TM.INT_RANGE:
            return ret(st, cast(r, 'char', t))
    if t in TM.INT_RANGE and fm in TM.INT_RANGE:
        from engine import cast
        return ret(st, cast(r, fm, t))
    if t.startswith('std::option::Option') and not fm.startswith('std::option::Option'):
        return ret(st, some(v))
    return ret(st, v)


# ------------------------------------------------------------- Option, Result
@m('Try::branch')
def m_branch(E, c, st, a):
    v = V(E, st, a[0])
    isopt = (v.op == 'adt' and v.a[0] == OPTION) or 'option::Option' in c.path.split(' as ')[0]
    out = []
    if isopt:
        for n, s, p in split(st, v, 'Some', 'None'):
            out.append(('ret', s, adt(FLOW, 'Continue', (p,)) if n == 'Some' else
                        adt(FLOW, 'Break', (NONE,))))
    else:
        for n, s, p in split(st, v, 'Ok', 'Err'):
            out.append(('ret', s, adt(FLOW, 'Continue', (p,)) if n == 'Ok' else
                        adt(FLOW, 'Break', (err(p),))))
    return out


@m('FromResidual::from_residual')
def m_residual(E, c, st, a):
    v = V(E, st, a[0])
    if v.op == 'adt' and v.a[1] == 'Err' and len(c.gargs) >= 1:
        # error conversion: T = Result<_, F>, R = Result<!, E>
        return ret(st, v)
    return ret(st, v)


@m('Option::map', 'Result::map')
def m_map(E, c, st, a):
    v = V(E, st, a[0])
    good, bad = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    out = []
    for n, s, p in split(st, v, good, bad):
        if n == good:
            out += bind(call(E, c, s, a[1], [p]),
                        lambda s2, r: ret(s2, some(r) if good == 'Some' else ok(r)))
        else:
            out.append(('ret', s, NONE if bad == 'None' else err(p)))
    return out


@m('Option::and_then', 'Result::and_then')
def m_and_then(E, c, st, a):
    v = V(E, st, a[0])
    good, bad = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    out = []
    for n, s, p in split(st, v, good, bad):
        if n == good:
            out += call(E, c, s, a[1], [p])
        else:
            out.append(('ret', s, NONE if bad == 'None' else err(p)))
    return out


@m('Option::and', 'Result::and')
def m_and(E, c, st, a):
    v = V(E, st, a[0])
    good, bad = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    return [('ret', s, a[1] if n == good else (NONE if bad == 'None' else err(p)))
            for n, s, p in split(st, v, good, bad)]


@m('Result::map_err', 'Result::or_else')
def m_map_err(E, c, st, a):
    v = V(E, st, a[0])
    out = []
    for n, s, p in split(st, v, 'Ok', 'Err'):
        if n == 'Ok':
            out.append(('ret', s, ok(p)))
        elif c.key == 'Result::or_else':
            out += call(E, c, s, a[1], [p])
        else:
            out += bind(call(E, c, s, a[1], [p]), lambda s2, r: ret(s2, err(r)))
    return out


@m('Result::or')
def m_or(E, c, st, a):
    v = V(E, st, a[0])
    return [('ret', s, ok(p) if n == 'Ok' else a[1]) for n, s, p in split(st, v, 'Ok', 'Err')]


@m('Option::or')
def m_oor(E, c, st, a):
    v = V(E, st, a[0])
    return [('ret', s, some(p) if n == 'Some' else a[1]) for n, s, p in split(st, v, 'Some', 'None')]


@m('Option::or_else')
def m_oore(E, c, st, a):
    v = V(E, st, a[0])
    out = []
    for n, s, p in split(st, v, 'Some', 'None'):
        out += ret(s, some(p)) if n == 'Some' else call(E, c, s, a[1], [])
    return out


@m('Option::ok_or')
def m_ok_or(E, c, st, a):
    v = V(E, st, a[0])
    return [('ret', s, ok(p) if n == 'Some' else err(a[1]))
            for n, s, p in split(st, v, 'Some', 'None')]


@m('Option::ok_or_else')
def m_ok_or_else(E, c, st, a):
    v = V(E, st, a[0])
    out = []
    for n, s, p in split(st, v, 'Some', 'None'):
        out += ret(s, ok(p)) if n == 'Some' else \
            bind(call(E, c, s, a[1], []), lambda s2, r: ret(s2, err(r)))
    return out


@m('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect', 'Result::unwrap_err',
   'Result::expect_err', 'Option::unwrap_unchecked')
def m_unwrap(E, c, st, a):
    v = V(E, st, a[0])
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    if c.key.endswith('_err'):
        names = ('Err', 'Ok')
    out = []
    bad = False
    for n, s, p in split(st, v, *names):
        if n == names[0]:
            out.append(('ret', s, p))
        else:
            bad = True
            out.append(E.panic(c, s, c.key, v))
    E.oblige(c.fr, st, c.key, c.span, not bad, v)
    return out


@m('Option::unwrap_or', 'Result::unwrap_or')
def m_unwrap_or(E, c, st, a):
    v = V(E, st, a[0])
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    return [('ret', s, p if n == names[0] else a[1]) for n, s, p in split(st, v, *names)]


def default_of(ty):
    if ty in TM.INT_RANGE and ty not in ('char', 'bool') or re.match(r'i\d+$|isize$', ty):
        return integer(0)
    if ty == 'bool':
        return FALSE
    if ty == 'char':
        return char('\0')
    if 'HashMap' in ty or 'BTreeMap' in ty:
        return mk('map0')
    if ty.endswith('String') or 'vec::Vec<' in ty or ty in ('&str', "&'static str"):
        return EMPTY
    if ty.startswith('std::option::Option'):
        return NONE
    if ty == '()':
        return UNIT
    return mk('default', ty)


@m('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or_default(E, c, st, a):
    v = V(E, st, a[0])
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    return [('ret', s, p if n == names[0] else default_of(c.gargs[0] if c.gargs else ''))
            for n, s, p in split(st, v, *names)]


@m('Default::default')
def m_default(E, c, st, a):
    return ret(st, default_of(c.gargs[0] if c.gargs else ''))


@m('Option::unwrap_or_else', 'Result::unwrap_or_else')
def m_unwrap_or_else(E, c, st, a):
    v = V(E, st, a[0])
    opt = c.key.startswith('Option')
    names = ('Some', 'None') if opt else ('Ok', 'Err')
    out = []
    for n, s, p in split(st, v, *names):
        out += ret(s, p) if n == names[0] else call(E, c, s, a[1], [] if opt else [p])
    return out


@m('Option::map_or', 'Result::map_or')
def m_map_or(E, c, st, a):
    v = V(E, st, a[0])
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    out = []
    for n, s, p in split(st, v, *names):
        out += call(E, c, s, a[2], [p]) if n == names[0] else ret(s, a[1])
    return out


@m('Option::map_or_else', 'Result::map_or_else')
def m_map_or_else(E, c, st, a):
    v = V(E, st, a[0])
    opt = c.key.startswith('Option')
    names = ('Some', 'None') if opt else ('Ok', 'Err')
    out = []
    for n, s, p in split(st, v, *names):
        out += call(E, c, s, a[2], [p]) if n == names[0] else call(E, c, s, a[1], [] if opt else [p])
    return out


@m('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(E, c, st, a):
    v = V(E, st, a[0])
    n = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c.key.split('::')[1]]
    k = variant(st.facts, v)
    if k is not None:
        return ret(st, boolean(k == n))
    if n == 'None':
        return ret(st, negate(mk('isvar', v, 'Some')))
    if n == 'Err':
        return ret(st, negate(mk('isvar', v, 'Ok')))
    return ret(st, mk('isvar', v, n))


@m('Option::is_some_and', 'Result::is_ok_and', 'Option::is_none_or')
def m_is_and(E, c, st, a):
    v = V(E, st, a[0])
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    out = []
    for n, s, p in split(st, v, *names):
        out += call(E, c, s, a[1], [p]) if n == names[0] else \
            ret(s, boolean(c.key == 'Option::is_none_or'))
    return out


@m('Option::filter')
def m_ofilter(E, c, st, a):
    v = V(E, st, a[0])
    out = []
    for n, s, p in split(st, v, 'Some', 'None'):
        if n == 'None':
            out.append(('ret', s, NONE))
            continue

        def g(s2, r, p=p):
            return [('ret', s3, some(p) if b else NONE) for b, s3 in branch(s2, r)]
        out += bind(call(E, c, s, a[1], [p]), g)
    return out


@m('Result::ok', 'Result::err')
def m_rok(E, c, st, a):
    v = V(E, st, a[0])
    want = 'Ok' if c.key == 'Result::ok' else 'Err'
    return [('ret', s, some(p) if n == want else NONE) for n, s, p in split(st, v, 'Ok', 'Err')]


@m('Option::as_mut', 'Result::as_mut', 'Option::as_deref_mut')
def m_as_mut(E, c, st, a):
    p = a[0]
    v = V(E, st, p)
    if p.op != 'ptr':
        return ret(st, v)
    while True:
        q = E.get(st, (p.a[0], p.a[1]), p.a[2])
        if q.op != 'ptr':
            break
        p = q
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    out = []
    for n, s, x in split(st, v, *names):
        if n == 'None':
            out.append(('ret', s, NONE))
        else:
            q = mk('ptr', p.a[0], p.a[1], p.a[2] + (('vf', n, '0'),))
            out.append(('ret', s, some(q) if n == 'Some' else ok(q) if n == 'Ok' else err(q)))
    return out


@m('Option::take', 'mem::take')
def m_take(E, c, st, a):
    v = V(E, st, a[0])
    E.write(st, a[0], NONE if c.key == 'Option::take' else default_of(c.gargs[0]))
    return ret(st, v)


@m('Option::replace', 'Option::insert')
def m_oreplace(E, c, st, a):
    v = V(E, st, a[0])
    E.write(st, a[0], some(a[1]))
    if c.key == 'Option::insert':
        p = a[0]
        return ret(st, mk('ptr', p.a[0], p.a[1], p.a[2] + (('vf', 'Some', '0'),)))
    return ret(st, v)


@m('mem::replace')
def m_replace(E, c, st, a):
    v = V(E, st, a[0])
    E.write(st, a[0], a[1])
    return ret(st, v)


@m('mem::swap')
def m_swap(E, c, st, a):
    x, y = V(E, st, a[0]), V(E, st, a[1])
    E.write(st, a[0], y)
    E.write(st, a[1], x)
    return ret(st, UNIT)


@m('mem::drop')
def m_drop(E, c, st, a):
    return ret(st, UNIT)


@m('Option::get_or_insert_with', 'Option::get_or_insert')
def m_get_or_insert(E, c, st, a):
    p = a[0]
    v = V(E, st, p)
    q = mk('ptr', p.a[0], p.a[1], p.a[2] + (('vf', 'Some', '0'),))
    out = []
    for n, s, x in split(st, v, 'Some', 'None'):
        if n == 'Some':
            out.append(('ret', s, q))
        else:
            r = call(E, c, s, a[1], []) if c.key.endswith('with') else ret(s, a[1])

            def g(s2, y):
                E.write(s2, p, some(y))
                return ret(s2, q)
            out += bind(r, g)
    return out


@m('Option::flatten', 'Result::flatten')
def m_flatten(E, c, st, a):
    v = V(E, st, a[0])
    names = ('Some', 'None') if c.key.startswith('Option') else ('Ok', 'Err')
    return [('ret', s, p if n == names[0] else (NONE if n == 'None' else err(p)))
            for n, s, p in split(st, v, *names)]


@m('Option::zip')
def m_ozip(E, c, st, a):
    out = []
    for n, s, p in split(st, V(E, st, a[0]), 'Some', 'None'):
        if n == 'None':
            out.append(('ret', s, NONE))
            continue
        for n2, s2, q in split(s, V(E, s, a[1]), 'Some', 'None'):
            out.append(('ret', s2, some(tup(p, q)) if n2 == 'Some' else NONE))
    return out


@m('Option::transpose')
def m_transpose(E, c, st, a):
    out = []
    for n, s, p in split(st, V(E, st, a[0]), 'Some', 'None'):
        if n == 'None':
            out.append(('ret', s, ok(NONE)))
            continue
        for n2, s2, q in split(s, V(E, s, p), 'Ok', 'Err'):
            out.append(('ret', s2, ok(some(q)) if n2 == 'Ok' else err(q)))
    return out


@m('bool::then', 'bool::then_some')
def m_then(E, c, st, a):
    out = []
    for b, s in branch(st, V(E, st, a[0])):
        if not b:
            out.append(('ret', s, NONE))
        elif c.key == 'bool::then':
            out += bind(call(E, c, s, a[1], []), lambda s2, r: ret(s2, some(r)))
        else:
            out.append(('ret', s, some(a[1])))
    return out


# ----------------------------------------------------------------- comparison
@m('PartialEq::eq', 'PartialEq::ne')
def m_eq(E, c, st, a):
    x, y = D(E, st, a[0]), D(E, st, a[1])
    ints = bool(c.gargs) and c.gargs[0].lstrip('&') in TM.INT_RANGE
    if 'EnumSet' in c.path:
        x, y = as_set(x), as_set(y)
        if y.op == 'set' and y.a[0] is SET0 and not y.a[1]:
            r = set_empty(x)
            return ret(st, r if c.key.endswith('eq') else negate(r))
    vx, vy = variant(st.facts, x), variant(st.facts, y)
    r = None
    if vx is not None and vy is not None and vx != vy:
        r = FALSE
    if r is None:
        r = eq(x, y, ints)
    return ret(st, r if c.key.endswith('eq') else negate(r))


@m('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(E, c, st, a):
    x, y = D(E, st, a[0]), D(E, st, a[1])
    k = c.key.split('::')[1]
    f = {'lt': lambda: E.cmp(x, y, lt), 'le': lambda: E.cmp(x, y, le),
         'gt': lambda: E.cmp(y, x, lt), 'ge': lambda: E.cmp(y, x, le)}[k]
    return ret(st, f())


@m('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def m_maxmin(E, c, st, a):
    x, y = V(E, st, a[0]), V(E, st, a[1])
    out = []
    for b, s in branch(st, E.cmp(x, y, le)):
        out.append(('ret', s, (y if b else x) if c.key.endswith('max') else (x if b else y)))
    return out


@m('RangeInclusive::new')
def m_rangei(E, c, st, a):
    return ret(st, mk('rangei', a[0], a[1]))


@m('RangeInclusive::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains')
def m_rcontains(E, c, st, a):
    r, x = D(E, st, a[0]), D(E, st, a[1])
    if r.op == 'rangei':
        return ret(st, conj(E.cmp(r.a[0], x, le), E.cmp(x, r.a[1], le)))
    if r.op == 'adt' and r.a[0].endswith('::RangeInclusive') and len(r.a[3]) == 3 and r.a[3][2] is FALSE:
        return ret(st, conj(E.cmp(r.a[3][0], x, le), E.cmp(x, r.a[3][1], le)))
    if r.op == 'adt' and r.a[0].endswith('::Range'):
        return ret(st, conj(E.cmp(r.a[3][0], x, le), E.cmp(x, r.a[3][1], lt)))
    return ret(st, term(c.key, r, x))


for _k in 'u8 u16 u32 u64 usize i32 i64 isize'.split():
    def _mk(k):
        @m(k + '::wrapping_sub')
        def wsub(E, c, st, a):
            x, y = V(E, st, a[0]), V(E, st, a[1])
            if prove(st.facts, sub(x, y)):
                return ret(st, sub(x, y))
            return ret(st, mk('wsub', x, y))

        @m(k + '::wrapping_add')
        def wadd(E, c, st, a):
            return ret(st, mk('wadd', V(E, st, a[0]), V(E, st, a[1])))

        @m(k + '::saturating_sub', k + '::checked_sub')
        def ssub(E, c, st, a):
            x, y = V(E, st, a[0]), V(E, st, a[1])
            chk = c.key.endswith('checked_sub')
            return [('ret', s, (some(sub(x, y)) if chk else sub(x, y)) if b else
                     (NONE if chk else integer(0))) for b, s in branch(st, le(y, x))]

        @m(k + '::saturating_add')
        def sadd(E, c, st, a):
            return ret(st, add(V(E, st, a[0]), V(E, st, a[1])))

        @m(k + '::is_multiple_of')
        def mult(E, c, st, a):
            return ret(st, eq(rem(V(E, st, a[0]), V(E, st, a[1])), integer(0)))

        @m(k + '::div_ceil')
        def dceil(E, c, st, a):
            x, y = V(E, st, a[0]), V(E, st, a[1])
            return ret(st, div(sub(add(x, y), integer(1)), y))

        @m(k + '::abs_diff')
        def adiff(E, c, st, a):
            return ret(st, mk('absdiff', V(E, st, a[0]), V(E, st, a[1])))
    _mk(_k)


@m('u8::to_ascii_uppercase', 'char::to_ascii_uppercase', 'str::to_ascii_uppercase',
   'str::to_uppercase', 'str::to_lowercase', 'str::to_ascii_lowercase', 'u8::to_ascii_lowercase',
   'char::to_ascii_lowercase')
def m_upper(E, c, st, a):
    v = V(E, st, a[0])
    up = 'upper' in c.key
    if v.op == 'str' and v.a[0].isascii():
        return ret(st, string(v.a[0].upper() if up else v.a[0].lower()))
    if v.op == 'int':
        ch = chr(v.a[0])
        return ret(st, integer(ord(ch.upper() if up else ch.lower()) if ch.isascii() else v.a[0]))
    return ret(st, mk('upper' if up else 'lower', v))


pure('char::is_ascii_alphabetic', 'char::is_alphanumeric', 'char::is_whitespace', 'char::is_numeric',
     'u8::is_ascii_alphanumeric', 'u8::is_ascii_whitespace', 'u8::is_ascii_digit',
     'str::is_ascii', 'str::is_char_boundary', 'str::contains',
     'str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_matches', 'str::replace',
     'str::trim_start_matches', 'str::trim_end_matches', 'str::strip_suffix', 'str::rfind',
     'str::rsplit_once', 'str::repeat', 'str::eq_ignore_ascii_case',
     '[T]::starts_with', '[T]::ends_with', 'WildMatch::new', 'WildMatch::matches', 'Path::display',
     'Path::parent', 'Path::join', 'Path::file_name', 'Path::to_string_lossy', 'Path::extension',
     'Path::with_extension', 'Path::with_file_name', 'Error::kind', 'Ord::cmp',
     'PartialOrd::partial_cmp', 'char::from_u32', 'char::to_digit', 'char::len_utf8', 'u32::pow',
     'usize::pow', 'process::id', 'Metadata::permissions', 'Metadata::is_file', 'Path::to_str',
     'Iterator::last', 'Iterator::min', 'Iterator::max',
     'Iterator::nth', 'u8::count_ones', 'u8::leading_zeros', 'QrCode::encode_text',
     'QrCode::get_module', 'QrCode::size', 'Debug::fmt', 'shellwords::split',
     'ArgMatches::subcommand', 'ArgMatches::subcommand_name', 'ArgMatches::subcommand_matches')


@m('QrCode::encode_text')
def m_qr(E, c, st, a):
    return ret(st, term('QrCode::encode_text', *[D(E, st, x) for x in a]))


# ------------------------------------------------------------------- text etc.
@m('String::new', 'String::with_capacity', 'Vec::new', 'Vec::with_capacity', 'OsString::new',
   'PathBuf::new')
def m_new(E, c, st, a):
    return ret(st, EMPTY)


def elt(c, x):
    t = c.gargs[0] if c.gargs else ''
    return item(x) if t in ('u8', 'char', '') else mk('elt', x)


@m('String::push')
def m_spush(E, c, st, a):
    E.write(st, a[0], cat(V(E, st, a[0]), item(V(E, st, a[1]))))
    return ret(st, UNIT)


@m('Vec::push')
def m_vpush(E, c, st, a):
    E.write(st, a[0], cat(V(E, st, a[0]), elt(c, a[1] if a[1].op == 'ptr' else V(E, st, a[1]))))
    return ret(st, UNIT)


@m('String::push_str', 'Vec::extend_from_slice', 'AddAssign::add_assign', 'OsString::push',
   'PathBuf::push', 'Write::write_str', 'String::extend_from_within')
def m_pushstr(E, c, st, a):
    x, y = V(E, st, a[0]), D(E, st, a[1])
    if c.key == 'AddAssign::add_assign' and 'String' not in c.path:
        E.write(st, a[0], add(x, y))
        return ret(st, UNIT)
    if c.key == 'PathBuf::push':
        E.write(st, a[0], mk('pathjoin', x, y))
    else:
        E.write(st, a[0], cat(x, y))
    return ret(st, ok(UNIT) if c.key == 'Write::write_str' else UNIT)


@m('Vec::append')
def m_append(E, c, st, a):
    E.write(st, a[0], cat(V(E, st, a[0]), V(E, st, a[1])))
    E.write(st, a[1], EMPTY)
    return ret(st, UNIT)


@m('Add::add')
def m_add(E, c, st, a):
    x, y = D(E, st, a[0]), D(E, st, a[1])
    if 'String' in c.path:
        return ret(st, cat(x, y))
    if c.gargs and c.gargs[0].lstrip('&') in TM.INT_RANGE:
        return ret(st, add(x, y))
    return ret(st, term('Add::add', x, y))


@m('Vec::clear', 'String::clear')
def m_clear(E, c, st, a):
    E.write(st, a[0], EMPTY)
    return ret(st, UNIT)


@m('String::pop', 'Vec::pop')
def m_pop(E, c, st, a):
    v = V(E, st, a[0])
    out = []
    ps = parts(v)
    if v.op == 'cat' and ps and ps[-1].op in ('item', 'elt'):
        E.write(st, a[0], cat(*ps[:-1]))
        return ret(st, some(ps[-1].a[0]))
    if ps and ps[-1].op == 'str' and len(ps[-1].a[0]) >= 1:
        s0 = ps[-1].a[0]
        E.write(st, a[0], cat(*(ps[:-1] + [string(s0[:-1])])))
        last = char(s0[-1])
        if c.key == 'Vec::pop':
            last = integer(ord(s0[-1]))
        return ret(st, some(last))
    for b, s in branch(st, empty(v)):
        if b:
            out.append(('ret', s, NONE))
        else:
            E.write(s, a[0], mk('droplast', v))
            out.append(('ret', s, some(mk('idxend', v, 1))))
    return out


@m('Vec::truncate', 'String::truncate')
def m_trunc(E, c, st, a):
    v, n = V(E, st, a[0]), V(E, st, a[1])
    out = []
    for b, s in branch(st, lt(n, length(v))):
        if b:
            E.write(s, a[0], slice_(v, integer(0), n))
        out.append(('ret', s, UNIT))
    return out


@m('Vec::resize')
def m_resize(E, c, st, a):
    v, n, x = V(E, st, a[0]), V(E, st, a[1]), V(E, st, a[2])
    if v is EMPTY:
        E.write(st, a[0], mk('fill', n, x))
    else:
        E.write(st, a[0], mk('resize', v, n, x))
    return ret(st, UNIT)


@m('Box::new_uninit')
def m_new_uninit(E, c, st, a):
    """What vec![...] allocates."""
    loc = (c.fr.depth, 'box:' + c.site)
    st.mem[loc] = mk('call', 'uninit', (), None)
    return ret(st, mk('ptr', loc[0], loc[1], ()))


@m('boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(E, c, st, a):
    v = D(E, st, a[0])
    x = field(field(v, 'value'), 'value')
    if x.op == 'array':
        return ret(st, cat(*[elt(c, y) for y in x.a[0]]) if x.a[0] else EMPTY)
    return ret(st, x)


@m('vec::from_elem')
def m_from_elem(E, c, st, a):
    return ret(st, mk('fill', V(E, st, a[1]), V(E, st, a[0])))


@m('String::len', 'str::len', 'Vec::len', '[T]::len', 'HashMap::len', 'ExactSizeIterator::len')
def m_len(E, c, st, a):
    return ret(st, length(plain(D(E, st, a[0]))))


@m('String::is_empty', 'str::is_empty', 'Vec::is_empty', '[T]::is_empty', 'HashMap::is_empty')
def m_isempty(E, c, st, a):
    v = plain(D(E, st, a[0]))
    if v.op == 'map0':
        return ret(st, TRUE)
    return ret(st, empty(v))


@m('Vec::capacity', 'String::capacity')
def m_cap(E, c, st, a):
    t = mk('cap', V(E, st, a[0]), 0)
    UNSIGNED.add(t)
    return ret(st, t)


def slice_(v, a, b):
    if a.op == 'int' and a.a[0] == 0 and b is length(v):
        return v
    if v.op == 'slice':
        return slice_(v.a[0], add(v.a[1], a), add(v.a[1], b))
    if v.op == 'str' and a.op == 'int' and b.op == 'int' and v.a[0].isascii():
        return string(v.a[0][a.a[0]:b.a[0]])
    if a is b:
        return EMPTY
    if v.op == 'cat':
        ps = parts(v)
        pos = integer(0)
        i0 = 0 if a is pos else None
        j0 = None
        for i, p in enumerate(ps):
            pos = add(pos, length(p))
            if pos is a:
                i0 = i + 1
            if pos is b:
                j0 = i + 1
        if i0 is not None and j0 is not None and i0 <= j0:
            return cat(*ps[i0:j0])
    return mk('slice', v, a, b)


def range_of(E, st, r, v):
    """(from, to) of an index argument, or None for a single position."""
    r = D(E, st, r)
    n = length(v)
    if r.op == 'rangei':
        return r.a[0], add(r.a[1], integer(1))
    if r.op == 'adt':
        k = r.a[0].split('::')[-1]
        f = dict(zip(r.a[2], r.a[3]))
        if k == 'Range':
            return r.a[3][0], r.a[3][1]
        if k == 'RangeFrom':
            return r.a[3][0], n
        if k == 'RangeTo':
            return integer(0), r.a[3][0]
        if k == 'RangeToInclusive':
            return integer(0), add(r.a[3][0], integer(1))
        if k == 'RangeFull':
            return integer(0), n
    return None


@m('Index::index', 'IndexMut::index_mut')
def m_index(E, c, st, a):
    v = plain(V(E, st, a[0]))
    if 'HashMap' in c.path:
        g = map_get(v, D(E, st, a[1]))
        out = []
        for n, s, p in split(st, g, 'Some', 'None'):
            if n == 'Some':
                out.append(('ret', s, p))
            else:
                out.append(E.panic(c, s, 'index', g))
        E.oblige(c.fr, st, 'HashMap index', c.span, len(out) == 1 and out[0][0] == 'ret', g)
        return out
    r = range_of(E, st, a[1], v)
    n = length(v)
    mut = c.key == 'IndexMut::index_mut' and a[0].op == 'ptr'
    p = a[0]
    if r is None:
        i = V(E, st, a[1])
        cond = lt(i, n)
        val = mk('ptr', p.a[0], p.a[1], p.a[2] + (('i', i),)) if mut else idx(v, i)
        kind = 'index'
    else:
        cond = conj(le(r[0], r[1]), le(r[1], n))
        if r[1] is n:
            cond = le(r[0], n)
        if r[0].op == 'int' and r[0].a[0] == 0:
            cond = le(r[1], n)
        val = slice_(v, r[0], r[1])
        kind = 'slice'
        if mut:
            val = mk('ptr', p.a[0], p.a[1], p.a[2] + (('sl', r[0], r[1]),))
    t = truth(st.facts, cond)
    textual = 'str' in c.path.split(' as ')[0] or 'String' in c.path
    E.oblige(c.fr, st, kind, c.span, t is True, cond)
    out = []
    if t is not True:
        s = st.fork()
        f = assume(s.facts, cond, False)
        if f is not None:
            s.facts = f
            out.append(E.panic(c, s, kind, cond))
    f = assume(st.facts, cond, True)
    if f is not None:
        st.facts = f
        if textual and r is not None:
            E.text_slice(c, st, v, r)
        out.append(('ret', st, val))
    return out


def idx(v, i):
    from engine import index
    return index(v, i)


@m('[T]::get', 'str::get')
def m_get(E, c, st, a):
    v = plain(D(E, st, a[0]))
    r = range_of(E, st, a[1], v)
    n = length(v)
    if r is None:
        i = V(E, st, a[1])
        cond, val = lt(i, n), idx(v, i)
    else:
        cond, val = conj(le(r[0], r[1]), le(r[1], n)), slice_(v, r[0], r[1])
    return [('ret', s, some(val) if b else NONE) for b, s in branch(st, cond)]


@m('[T]::first', '[T]::last')
def m_firstlast(E, c, st, a):
    v = plain(D(E, st, a[0]))
    ps = parts(v)
    e = None
    if c.key == '[T]::first':
        e = idx(v, integer(0))
        if ps and ps[0].op in ('item', 'elt'):
            e = ps[0].a[0]
    else:
        if ps and ps[-1].op in ('item', 'elt'):
            e = ps[-1].a[0]
        elif v.op == 'array' and v.a[0]:
            e = v.a[0][-1]
        else:
            n = length(v)
            e = mk('idxend', v, 1)
    return [('ret', s, NONE if b else some(e)) for b, s in branch(st, empty(v))]


@m('str::ends_with')
def m_ends_with(E, c, st, a):
    """One of some ASCII characters at the end: a condition on the last byte."""
    v, x = plain(D(E, st, a[0])), plain(D(E, st, a[1]))
    if x.op == 'slice' and x.a[0].op == 'array' and x.a[1] is integer(0) and x.a[2] is length(x.a[0]):
        x = x.a[0]
    cs = []
    for y in x.a[0] if x.op == 'array' else (x,):
        if y.op == 'int':
            cs.append(y.a[0])
        elif y.op == 'str' and len(y.a[0]) == 1:
            cs.append(ord(y.a[0]))
        else:
            cs.append(256)
    ps = parts(v)
    if not cs or any(n > 127 for n in cs) or not ps or v.op == 'str':
        return ret(st, term('str::ends_with', v, x))
    if ps[-1].op in ('item', 'elt'):
        e = ps[-1].a[0]
    elif ps[-1].op == 'str':
        return ret(st, boolean(ord(ps[-1].a[0][-1]) in cs) if ps[-1].a[0] else term('str::ends_with', v, x))
    else:
        e = mk('idxend', v, 1)
    out = []
    for b, s in branch(st, empty(v)):
        if b:
            out.append(('ret', s, FALSE))
            continue
        r = [s]
        for n in cs:
            nx = []
            for t in r:
                for b2, s2 in branch(t, eq(e, integer(n))):
                    if b2:
                        out.append(('ret', s2, TRUE))
                    else:
                        nx.append(s2)
            r = nx
        out += [('ret', t, FALSE) for t in r]
    return out


@m('[T]::contains')
def m_contains(E, c, st, a):
    v, x = plain(D(E, st, a[0])), D(E, st, a[1])
    if v.op == 'array':
        r = FALSE
        for y in v.a[0]:
            r = disj(r, eq(x, y))
        return ret(st, r)
    return ret(st, term('[T]::contains', v, x))


def required(E, c, st, kind, cond):
    """(states in which cond holds, outcomes in which the call panics)."""
    t = truth(st.facts, cond)
    E.oblige(c.fr, st, kind, c.span, t is True, cond)
    out = []
    if t is not True:
        s = st.fork()
        f = assume(s.facts, cond, False)
        if f is not None:
            s.facts = f
            out.append(E.panic(c, s, kind, cond))
    f = assume(st.facts, cond, True)
    if f is None:
        return [], out
    st.facts = f
    return [st], out


@m('[T]::copy_from_slice', '[T]::clone_from_slice')
def m_copy(E, c, st, a):
    v, x = V(E, st, a[0]), D(E, st, a[1])
    sts, out = required(E, c, st, 'copy length', eq(length(v), length(x)))
    for s in sts:
        E.write(s, a[0], x)
        out.append(('ret', s, UNIT))
    return out


@m('[T]::split_at', 'str::split_at')
def m_split_at(E, c, st, a):
    v, n = plain(D(E, st, a[0])), V(E, st, a[1])
    sts, out = required(E, c, st, 'slice', le(n, length(v)))
    for s in sts:
        if c.key == 'str::split_at':
            E.text_slice(c, s, v, (integer(0), n))
        out.append(('ret', s, tup(slice_(v, integer(0), n), slice_(v, n, length(v)))))
    return out


@m('Vec::split_off', 'String::split_off')
def m_split_off(E, c, st, a):
    v, n = plain(V(E, st, a[0])), V(E, st, a[1])
    sts, out = required(E, c, st, 'slice', le(n, length(v)))
    for s in sts:
        if c.key == 'String::split_off':
            E.text_slice(c, s, v, (integer(0), n))
        E.write(s, a[0], slice_(v, integer(0), n))
        out.append(('ret', s, slice_(v, n, length(v))))
    return out


@m('[T]::split_first', '[T]::split_last')
def m_split_first(E, c, st, a):
    v = plain(D(E, st, a[0]))
    out = []
    for b, s in branch(st, empty(v)):
        n = length(v)
        if b:
            out.append(('ret', s, NONE))
        elif c.key == '[T]::split_first':
            out.append(('ret', s, some(tup(idx(v, integer(0)), slice_(v, integer(1), n)))))
        else:
            out.append(('ret', s, some(tup(mk('idxend', v, 1), slice_(v, integer(0), sub(n, integer(1)))))))
    return out


@m('[T]::fill')
def m_fill(E, c, st, a):
    E.write(st, a[0], mk('fill', length(V(E, st, a[0])), V(E, st, a[1])))
    return ret(st, UNIT)


@m('[T]::join', '[T]::concat', 'Join::join')
def m_join(E, c, st, a):
    v = plain(D(E, st, a[0]))
    sep = D(E, st, a[1]) if len(a) > 1 else EMPTY
    items = None
    if v.op == 'array':
        items = list(v.a[0])
    elif v.op == 'cat' and all(p.op == 'elt' for p in v.a):
        items = [p.a[0] for p in v.a]
    if items is not None:
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(sep)
            out.append(x)
        return ret(st, cat(*out))
    return ret(st, mk('join', v, sep))


@m('str::starts_with')
def m_starts(E, c, st, a):
    return ret(st, term('str::starts_with', D(E, st, a[0]), pat(D(E, st, a[1]))))


def pat(p):
    return p


@m('str::strip_prefix')
def m_strip_prefix(E, c, st, a):
    s0, p = D(E, st, a[0]), pat(D(E, st, a[1]))
    t = term('str::starts_with', s0, p)
    out = []
    for b, s in branch(st, t):
        out.append(('ret', s, some(slice_(s0, length(p), length(s0))) if b else NONE))
    return out


@m('str::find', 'str::rfind')
def m_find(E, c, st, a):
    return ret(st, term(c.key, D(E, st, a[0]), pat(D(E, st, a[1]))))


@m('str::split_once')
def m_split_once(E, c, st, a):
    s0, p = D(E, st, a[0]), pat(D(E, st, a[1]))
    t = term('str::find', s0, p)
    out = []
    for n, s, i in split(st, t, 'Some', 'None'):
        if n == 'None':
            out.append(('ret', s, NONE))
        else:
            out.append(('ret', s, some(tup(slice_(s0, integer(0), i),
                                           slice_(s0, add(i, length(p)), length(s0))))))
    return out


@m('str::parse')
def m_parse(E, c, st, a):
    return ret(st, term('str::parse', D(E, st, a[0]), mk('ty', (c.gargs or ['?'])[-1])))


@m('FromStr::from_str')
def m_fromstr(E, c, st, a):
    return ret(st, term('str::parse', D(E, st, a[0]), mk('ty', (c.gargs or ['?'])[0])))


@m('str::from_utf8', 'String::from_utf8')
def m_utf8(E, c, st, a):
    v = D(E, st, a[0])
    if is_text(v):
        return ret(st, ok(v))
    t = mk('isutf8', v)
    e = mk('fromutf8error' if c.key.startswith('String') else 'utf8error', v)
    return [('ret', s, ok(v) if b else err(e)) for b, s in branch(st, t)]


def is_text(v):
    return v is EMPTY or v.op == 'str'


@m('String::from_utf8_lossy', 'String::from_utf8_unchecked', 'str::from_utf8_unchecked')
def m_utf8l(E, c, st, a):
    v = D(E, st, a[0])
    return ret(st, v if is_text(v) or 'unchecked' in c.key else mk('lossy', v))


TEXT = re.compile(r"^(&('\w+ )?(mut )?)*(std::string::String|str|std::borrow::Cow<.*str>|"
                  r"std::boxed::Box<str>|std::rc::Rc<str>|secrecy::Secret<.*>|"
                  r"std::path::Display<.*>|std::fmt::Arguments<.*>)$")


def display(ty, v, E=None):
    if TEXT.match(ty):
        return v
    if re.match(r"^(&('\w+ )?)*char$", ty):
        return cat(item(v))
    if v.op == 'int':
        return string(str(v.a[0]))
    if v.op == 'str':
        return v
    return mk('disp', v)


@m('ToString::to_string')
def m_to_string(E, c, st, a):
    return ret(st, display(c.gargs[0] if c.gargs else '', D(E, st, a[0])))


@m('Argument::new_display')
def m_newdisp(E, c, st, a):
    return ret(st, display(c.gargs[-1] if c.gargs else '', D(E, st, a[0])))


@m('Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def m_newdebug(E, c, st, a):
    return ret(st, mk('debug', D(E, st, a[0])))


def raw(v):
    if v.op == 'str':
        return v.a[0].encode('utf-8')
    if v.op == 'bytes':
        return bytes.fromhex(v.a[0])
    if v.op == 'array':
        return bytes(x.a[0] for x in v.a[0])
    if v is EMPTY:
        return b''
    return None


@m('Arguments::new')
def m_args(E, c, st, a):
    b = raw(D(E, st, a[0]))
    args = D(E, st, a[1])
    args = list(args.a[0]) if args.op == 'array' else None
    if b is None or args is None:
        return ret(st, mk('fmt', D(E, st, a[0]), D(E, st, a[1])))
    out = []
    i = 0
    nxt = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(string(b[i:i + x].decode('utf-8')))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(string(b[i:i + n].decode('utf-8')))
            i += n
        else:
            spec = []
            if x & 1:
                spec.append(b[i:i + 4].hex())
                i += 4
            if x & 2:
                spec.append(b[i:i + 2].hex())
                i += 2
            if x & 4:
                spec.append(b[i:i + 2].hex())
                i += 2
            if x & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            v = args[nxt] if nxt < len(args) else mk('undef')
            nxt += 1
            out.append(mk('spec', v, ','.join(spec)) if spec else v)
    return ret(st, cat(*out))


@m('Arguments::from_str', 'Arguments::new_const')
def m_args_str(E, c, st, a):
    v = D(E, st, a[0])
    if v.op == 'array' and len(v.a[0]) <= 1:
        v = v.a[0][0] if v.a[0] else EMPTY
    return ret(st, v)


@m('fmt::format')
def m_format(E, c, st, a):
    return ret(st, D(E, st, a[0]))


@m('io::_print', 'io::_eprint')
def m_print(E, c, st, a):
    from engine import Ev
    v = D(E, st, a[0])
    st.event(Ev('print', c.key, (v,), None, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))
    return ret(st, UNIT)


# -------------------------------------------------------------------- iterators
ITERS = ('it',)


def plain(v):
    """Iterator values that stand for a whole sequence are that sequence."""
    if v.op == 'it' and not v.a[1] and v.a[2] == 0:
        return v.a[0]
    return v


def as_it(v):
    if v.op == 'it':
        return v
    if v.op == 'adt' and v.a[0].endswith('ops::Range'):
        return mk('it', mk('range', v.a[3][0], v.a[3][1]), (), 0)
    if v.op == 'rangei':
        return mk('it', mk('range', v.a[0], add(v.a[1], integer(1))), (), 0)
    if v.op == 'adt' and v.a[0].endswith('ops::RangeFrom'):
        return mk('it', mk('range', v.a[3][0], mk('inf')), (), 0)
    if v.op == 'map0' or v.op == 'minsert':
        return mk('it', mk('mapiter', v), (), 0)
    return mk('it', v, (), 0)


@m('IntoIterator::into_iter', '[T]::iter', 'Vec::iter', 'HashMap::iter', 'Option::iter',
   'Option::into_iter', 'Vec::drain', '[T]::into_iter', 'HashSet::iter', 'BTreeMap::iter',
   'str::bytes')
def m_iter(E, c, st, a):
    v = a[0]
    if v.op == 'ptr' and c.key != 'Vec::drain':
        if V(E, st, v).op == 'it':
            return ret(st, v)
        v2 = V(E, st, v)
        if 'mut' in (c.gargs[0] if c.gargs else ''):
            return E.opaque(c, st, c.key, a)
        return ret(st, as_it(v2))
    v2 = D(E, st, v)
    if c.key == 'Vec::drain':
        if len(a) < 2 or v.op != 'ptr':
            return E.opaque(c, st, c.key, a)
        r = range_of(E, st, a[1], plain(v2))
        n = length(plain(v2))
        if r is None:
            return E.opaque(c, st, c.key, a)
        if r[0] is integer(0) and r[1] is n:
            E.write(st, v, EMPTY)
            return ret(st, as_it(v2))
        v2 = plain(v2)
        sts, out = required(E, c, st, 'slice', conj(le(r[0], r[1]), le(r[1], n)))
        for s in sts:
            E.write(s, v, cat(slice_(v2, integer(0), r[0]), slice_(v2, r[1], n)))
            out.append(('ret', s, as_it(slice_(v2, r[0], r[1]))))
        return out
    ty = c.gargs[0] if c.gargs else ''
    if 'HashMap' in ty or 'HashMap' in c.key or 'BTreeMap' in ty:
        return ret(st, mk('it', mk('mapiter', v2), (), 0))
    return ret(st, as_it(v2))


@m('str::chars')
def m_chars(E, c, st, a):
    return ret(st, mk('it', mk('chars', D(E, st, a[0])), (), 0))


@m('str::char_indices')
def m_charidx(E, c, st, a):
    return ret(st, mk('it', mk('charidx', D(E, st, a[0])), (), 0))


@m('[T]::chunks', '[T]::chunks_exact')
def m_chunks(E, c, st, a):
    v, n = plain(D(E, st, a[0])), V(E, st, a[1])
    if n.op == 'int' and n.a[0] == 0 or n.op != 'int' and not prove(st.facts, add(n, integer(-1))):
        E.oblige(c.fr, st, 'chunks', c.span, False, n)
    return ret(st, mk('it', mk('chunks' if c.key.endswith('chunks') else 'chunksx', v, n), (), 0))


@m('[T]::windows')
def m_windows(E, c, st, a):
    return ret(st, mk('it', mk('windows', plain(D(E, st, a[0])), V(E, st, a[1])), (), 0))


@m('str::split', 'str::lines', 'str::split_whitespace', 'str::splitn', 'str::rsplit',
   'str::split_terminator', 'str::split_ascii_whitespace', 'str::split_inclusive', '[T]::split')
def m_split(E, c, st, a):
    xs = [D(E, st, x) for x in a]
    return ret(st, mk('it', mk('pieces', c.key, tuple(xs)), (), 0))


@m('HashMap::keys', 'HashMap::into_keys', 'BTreeMap::keys')
def m_keys(E, c, st, a):
    return ret(st, mk('it', mk('keys', D(E, st, a[0])), (), 0))


@m('HashMap::values', 'HashMap::into_values')
def m_values(E, c, st, a):
    return ret(st, mk('it', mk('values', D(E, st, a[0])), (), 0))


@m('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::flat_map',
   'Iterator::take_while', 'Iterator::skip_while', 'Iterator::inspect', 'Iterator::map_while')
def m_adapt(E, c, st, a):
    v = as_it(V(E, st, a[0]))
    k, f = c.key.split('::')[1], a[1]
    if k == 'flat_map' and len(c.gargs) > 1:
        k, f = flat(k, f, next((g for g in c.gargs[1:] if not g.startswith('{')), ''))
    return ret(st, mk('it', v.a[0], v.a[1] + ((k, f),), v.a[2]))


def flat(k, f, ty):
    """A flat_map to options and results is a filter_map."""
    if ty.startswith('std::option::Option<'):
        return 'filter_map', f
    if ty.startswith('std::result::Result<'):
        return 'filter_map', mk('okof', f)
    return k, f


@m('Iterator::enumerate')
def m_enum(E, c, st, a):
    v = as_it(V(E, st, a[0]))
    return ret(st, mk('it', v.a[0], v.a[1] + (('enumerate', UNIT),), v.a[2]))


@m('Iterator::flatten')
def m_iflatten(E, c, st, a):
    v = as_it(V(E, st, a[0]))
    ch = [x for x in v.a[1] if x[0] not in ('filter', 'take_while', 'skip_while', 'inspect')]
    if ch and ch[-1][0] == 'map':
        f = ch[-1][1]
        f = E.read(st, f) if f.op == 'ptr' else f
        b = E.bodies.get(f.a[0]) or E.bodies.get(E.main + '#' + f.a[0]) if f.op == 'closure' else None
        k, g = flat('map', mk('ident'), b['locals'][0]['ty'] if b else '')
        if k != 'map':
            return ret(st, mk('it', v.a[0], v.a[1] + ((k, g),), v.a[2]))
    return ret(st, mk('it', v.a[0], v.a[1] + (('flatten', UNIT),), v.a[2]))


@m('Iterator::rev')
def m_rev(E, c, st, a):
    v = as_it(V(E, st, a[0]))
    return ret(st, mk('it', mk('rev', v.a[0]), v.a[1], v.a[2]))


def seq_of(v):
    """Term of the sequence an iterator value yields."""
    v = as_it(v)
    if not v.a[1] and v.a[2] == 0:
        return v.a[0]
    return v


@m('Iterator::zip', 'iter::zip')
def m_zip(E, c, st, a):
    x, y = as_it(V(E, st, a[0])), as_it(D(E, st, a[1]))
    return ret(st, mk('it', mk('zip', seq_of(x), seq_of(y)), (), 0))


@m('Iterator::chain')
def m_chain(E, c, st, a):
    x, y = as_it(V(E, st, a[0])), as_it(D(E, st, a[1]))
    return ret(st, mk('it', mk('chain', seq_of(x), seq_of(y)), (), 0))


@m('Iterator::step_by')
def m_step(E, c, st, a):
    v = as_it(V(E, st, a[0]))
    n = V(E, st, a[1])
    return ret(st, mk('it', mk('stepby', seq_of(v), n), (), 0))


@m('Iterator::skip', 'Iterator::take')
def m_skip(E, c, st, a):
    v = as_it(V(E, st, a[0]))
    n = V(E, st, a[1])
    return ret(st, mk('it', mk(c.key.split('::')[1], seq_of(v), n), (), 0))


@m('iter::once', 'iter::empty')
def m_once(E, c, st, a):
    return ret(st, mk('it', mk('array', tuple(a)), (), 0))


@m('iter::repeat')
def m_repeat(E, c, st, a):
    return ret(st, mk('it', mk('repeat', a[0], 'inf'), (), 0))


def element(E, st, src, site, pos):
    """[(state, element)] of a sequence; the state knows that there is one."""
    op = src.op
    if op == 'it':
        return pull(E, st, src, site)
    if op == 'zip':
        out = []
        for k, s, x in element(E, st, src.a[0], site + 'l', pos):
            if k != 'ret':
                out.append((k, s, x))
                continue
            for k2, s2, y in element(E, s, src.a[1], site + 'r', pos):
                out.append((k2, s2, tup(x, y) if k2 == 'ret' else y))
        return out
    if op == 'chain':
        s1 = st.fork()
        return element(E, s1, src.a[0], site + 'a', '*') + element(E, st, src.a[1], site + 'b', '*')
    if op in ('rev', 'sorted', 'dedup', 'skip', 'take', 'stepby'):
        base = src.a[0]
        if op == 'rev' or op == 'sorted' or op == 'dedup':
            return element(E, st, base, site, '*')
        if op in ('skip', 'take', 'stepby'):
            t = mk('elem', src, site)
            if base.op == 'range':
                t = mk('elem', mk('range', base.a[0], base.a[1]), site)
                if t.a[0].op == 'range':
                    UNSIGNED.add(t)
                st.facts = kill(st.facts, t)
                return [('ret', st, t)]
            if base.op == 'array' and src.a[1].op == 'int' and op != 'stepby':
                n = src.a[1].a[0]
                base = mk('array', base.a[0][n:] if op == 'skip' else base.a[0][:n])
            return element(E, st, base, site, '*')
    if op == 'array' and pos == '*' and src.a[0] and len(src.a[0]) <= 4 and \
            all(x.op not in ('int', 'str') for x in src.a[0]):
        return [('ret', st.fork(), x) for x in src.a[0]]
    if op == 'cat' and all(p.op == 'elt' for p in src.a) and src.a and pos == '*':
        return [('ret', st.fork(), p.a[0]) for p in src.a]
    if op == 'mapiter':
        k = mk('elem', mk('keys', src.a[0]), site)
        st.facts = kill(st.facts, k)
        return [('ret', st, tup(k, vfield(map_get(src.a[0], k), 'Some')))]
    if op == 'values':
        k = mk('elem', mk('keys', src.a[0]), site)
        st.facts = kill(st.facts, k)
        return [('ret', st, vfield(map_get(src.a[0], k), 'Some'))]
    if op == 'choice':
        out = []
        for x in src.a[0]:
            out += element(E, st.fork(), x, site, pos)
        return out
    if pos != '*' and op not in ('range', 'chunks', 'chunksx', 'windows', 'keys', 'pieces', 'chars',
                                 'charidx', 'phi'):
        f = assume(st.facts, lt(integer(pos), length(src)), True)
        if f is None:
            return []
        st.facts = f
        return [('ret', st, idx(src, integer(pos)))]
    if op == 'adt' and src.a[0] == OPTION:
        return [('ret', st, src.a[3][0])] if src.a[1] == 'Some' else []
    if op == 'phi' and E is not None:
        alt = phi_items(E, src)
        if alt is not None:
            out = []
            first = initial(src) if src.a[2] is not EMPTY else []
            for x in alt if pos == '*' or pos >= len(first) else first[pos:pos + 1]:
                out.append(('ret', st.fork(), x))
            if out:
                return out
    t = mk('elem', src, site)
    st.facts = kill(st.facts, t)
    if op == 'range' and src.a[0].op == 'int' and src.a[0].a[0] >= 0 or op == 'range' and \
            prove(st.facts, src.a[0]):
        UNSIGNED.add(t)
    return [('ret', st, t)]


def initial(phi):
    """The elements that a list has before a loop, or None."""
    ps = parts(phi.a[2])
    return [x.a[0] for x in ps] if all(x.op == 'elt' for x in ps) else None


def phi_items(E, phi):
    """Elements of a list with known elements to which a loop appended others."""
    ups = E.phiup.get(phi)
    if not ups or phi.a[2] is not EMPTY and not initial(phi):
        return None
    out = list(initial(phi) or ()) if phi.a[2] is not EMPTY else []
    for v, f, r in ups:
        if v is phi:
            continue
        ps = parts(v)
        if not ps or ps[0] is not phi:
            return None
        for p in ps[1:]:
            if p.op != 'elt':
                return None
            if p.a[0] not in out:
                out.append(p.a[0])
    return out


def pull(E, st, it, site, c=None):
    """[(kind, state, element)]: the elements the iterator may yield next."""
    src, chain, pos = it.a
    outs = element(E, st, src, site, pos if not chain else ('*' if pos == '*' else pos))
    for i, (k, f) in enumerate(chain):
        def g(s, x, k=k, f=f, i=i):
            if k == 'enumerate':
                if i == 0 and pos != '*' and src.op not in ('pieces',):
                    n = integer(pos)
                elif i == 0:
                    n = mk('index', src, site)
                    s.facts = kill(s.facts, n)
                    fct = assume(s.facts, lt(n, length(src)), True)
                else:
                    n = mk('index', mk('it', src, chain[:i], 0), site)
                    s.facts = kill(s.facts, n)
                return [('ret', s, tup(n, x))]
            if k == 'flatten':
                return element(E, s, plain(V(E, s, x)), site + 'f', '*')
            cc = E.cur
            if k == 'map':
                return E.call_value(cc, s, f, [x])
            if k == 'flat_map':
                return bind(E.call_value(cc, s, f, [x]), lambda s2, r: element(
                    E, s2, seq_of(V(E, s2, r)), site + 'f', '*'))
            if k in ('filter', 'take_while', 'skip_while'):
                def h(s2, r):
                    if k == 'skip_while':
                        return [('ret', s2, x)]
                    fc = assume(s2.facts, V(E, s2, r), True)
                    if fc is None:
                        return []
                    s2.facts = fc
                    return [('ret', s2, x)]
                return bind(E.call_value(cc, s, f, [x]), h)
            if k in ('filter_map', 'map_while'):
                def h(s2, r):
                    fc = assume_variant(s2.facts, V(E, s2, r), 'Some')
                    if fc is None:
                        return []
                    s2.facts = fc
                    return [('ret', s2, vfield(V(E, s2, r), 'Some'))]
                return bind(E.call_value(cc, s, f, [x]), h)
            if k == 'inspect':
                return bind(E.call_value(cc, s, f, [x]), lambda s2, r: [('ret', s2, x)])
            return [('ret', s, mk('call', k, (x, f), None))]
        outs = bind(outs, g)
    return outs


def exhausted(st, it):
    """State in which the iterator yields nothing more, or None."""
    src, chain, pos = it.a
    if chain and any(k in ('filter', 'filter_map', 'flat_map', 'flatten', 'take_while', 'map_while',
                           'skip_while') for k, _ in chain):
        return st
    if pos == '*':
        if src.op == 'range':
            return st
        return st
    if src.op == 'range':
        f = assume(st.facts, le(sub(src.a[1], integer(pos)), src.a[0]), True)
    elif src.op in ('chunks',):
        f = assume(st.facts, empty(src.a[0]), True) if pos == 0 else st.facts
    elif src.op in ('pieces',):
        f = st.facts if pos != 0 or 'split' not in src.a[0] or 'white' in src.a[0] else None
    elif src.op == 'adt' and src.a[0] == OPTION:
        f = st.facts if (src.a[1] == 'None' or pos > 0) else None
    elif src.op in ('array', 'cat', 'str', 'slice', 'fill') or src.op in (
            'param', 'f', 'vf', 'call', 'out'):
        f = assume(st.facts, le(length(src), integer(pos)), True)
    else:
        f = st.facts
    if f is None:
        return None
    st.facts = f
    return st


def advance(it):
    src, chain, pos = it.a
    if pos == '*':
        return it
    return mk('it', src, chain, pos + 1)


@m('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(E, c, st, a):
    p = a[0]
    v = V(E, st, p)
    it = as_it(v)
    if c.key.endswith('next_back'):
        it = mk('it', mk('rev', it.a[0]), it.a[1], it.a[2])
    return do_next(E, c, st, p, it, c.site)


def do_next(E, c, st, p, it, site):
    out = []
    s0 = exhausted(st.fork(), it)
    if it.a[0].op == 'phi' and it.a[2] != '*' and not it.a[1] and it.a[0].a[2] is not EMPTY and \
            phi_items(E, it.a[0]) is not None and it.a[2] < len(initial(it.a[0])):
        s0 = None
    if s0 is not None:
        if E.trace or it.a[0].op in ('keys', 'chunks', 'chunksx', 'scrypt', 'range') or it.a[0].op in (
                'skip', 'take', 'stepby', 'rev') and it.a[0].a[0].op in ('chunks', 'chunksx') or \
                it.a[0].op == 'stepby' and it.a[0].a[0].op == 'range':
            from engine import Ev
            s0.event(Ev('none', 'exhausted', (it,), None, s0.facts, c.span, c.fr.stack))
        out.append(('ret', s0, NONE))
    E.write(st, p, advance(it))
    E.cur = c
    for k, s, x in pull(E, st, it, short(site)):
        if k == 'ret' and E.trace:
            from engine import Ev
            s.event(Ev('none', 'next', (it, x), None, s.facts, c.span, c.fr.stack))
        out.append((k, s, some(x) if k == 'ret' else x))
    return out


def short(site):
    return site


def iterate(E, c, st, it, accs, step):
    """Runs step(state, element, [acc locations]) for every element; step gives
    outcomes ('next'|'stop'|'panic'|'exit', state, value).  Yields the outcomes
    ('done'|'stop'|..., state, value) with the accumulators in place."""
    d = c.fr.depth
    uid = c.site
    iloc = (d, 'it:' + uid)
    st.mem[iloc] = it
    locs = []
    for i, x in enumerate(accs):
        l = (d, 'acc%d:%s' % (i, uid))
        st.mem[l] = x
        locs.append(l)
    ptr = mk('ptr', d, 'it:' + uid, ())

    def body(s):
        backs, exits = [], []
        cur = as_it(V(E, s, ptr))
        for k, s2, x in do_next(E, c, s, ptr, cur, uid + '*'):
            if k != 'ret':
                exits.append(('out', k, (s2, x)))
                continue
            if x is NONE:
                exits.append(('out', 'done', (s2, UNIT)))
                continue
            for k3, s3, y in step(s2, x.a[3][0], locs):
                if k3 == 'next':
                    backs.append(s3)
                else:
                    exits.append(('out', k3, (s3, y)))
        return backs, exits
    res = []
    for (tag, k, x), s in E.fixpoint(c.fr, st, 'it:' + c.site, body, d):
        vals = [s.mem.get(l) for l in locs]
        for l in locs + [iloc]:
            s.mem.pop(l, None)
        res.append((k, s, x[1], vals))
    return res


def next_(outs):
    return [('next' if k == 'ret' else k, s, v) for k, s, v in outs]


@m('Iterator::fold')
def m_fold(E, c, st, a):
    it = as_it(V(E, st, a[0]))

    def step(s, x, locs):
        def g(s2, r):
            s2.mem[locs[0]] = r
            return [('next', s2, None)]
        res = []
        for k, s2, r in call(E, c, s, a[2], [s.mem[locs[0]], x]):
            res += g(s2, r) if k == 'ret' else [(k, s2, r)]
        return res
    return [('ret', s, vals[0]) if k == 'done' else (k, s, v)
            for k, s, v, vals in iterate(E, c, st, it, [a[1]], step)]


@m('Iterator::sum', 'Iterator::count')
def m_sum(E, c, st, a):
    it = as_it(V(E, st, a[0]))
    if not it.a[1] and it.a[0].op != 'array':
        return ret(st, term(c.key, it))
    one = c.key.endswith('count')

    def step(s, x, locs):
        x = integer(1) if one else plain(V(E, s, x))
        s.mem[locs[0]] = add(s.mem[locs[0]], x)
        return [('next', s, None)]
    return [('ret', s, vals[0]) if k == 'done' else (k, s, v)
            for k, s, v, vals in iterate(E, c, st, it, [integer(0)], step)]


@m('Iterator::for_each')
def m_for_each(E, c, st, a):
    it = as_it(V(E, st, a[0]))

    def step(s, x, locs):
        return next_(call(E, c, s, a[1], [x]))
    return [('ret', s, UNIT) if k == 'done' else (k, s, v)
            for k, s, v, vals in iterate(E, c, st, it, [], step)]


@m('Iterator::try_for_each')
def m_try_for_each(E, c, st, a):
    it = as_it(V(E, st, a[0]))

    def step(s, x, locs):
        res = []
        for k, s2, r in call(E, c, s, a[1], [x]):
            if k != 'ret':
                res.append((k, s2, r))
                continue
            for n, s3, p in split(s2, V(E, s2, r), 'Ok', 'Err'):
                res.append(('next', s3, None) if n == 'Ok' else ('stop', s3, err(p)))
        return res
    return [('ret', s, ok(UNIT)) if k == 'done' else ('ret', s, v) if k == 'stop' else (k, s, v)
            for k, s, v, vals in iterate(E, c, st, it, [], step)]


@m('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::position', 'Iterator::find_map',
   'Iterator::rposition')
def m_any(E, c, st, a):
    it = as_it(V(E, st, a[0]))
    k0 = c.key.split('::')[1]

    def step(s, x, locs):
        res = []
        for k, s2, r in call(E, c, s, a[1], [x]):
            if k != 'ret':
                res.append((k, s2, r))
                continue
            if k0 == 'find_map':
                for n, s3, p in split(s2, V(E, s2, r), 'Some', 'None'):
                    res.append(('stop', s3, some(p)) if n == 'Some' else ('next', s3, None))
                continue
            for b, s3 in branch(s2, V(E, s2, r)):
                if b == (k0 != 'all'):
                    v = {'any': TRUE, 'all': FALSE, 'find': some(x)}.get(k0)
                    if v is None:
                        n = mk('index', it.a[0] if not it.a[1] else it, c.site)
                        s3.facts = kill(s3.facts, n)
                        v = some(n)
                    res.append(('stop', s3, v))
                else:
                    res.append(('next', s3, None))
        return res
    end = {'any': FALSE, 'all': TRUE}.get(k0, NONE)
    return [('ret', s, end) if k == 'done' else ('ret', s, v) if k == 'stop' else (k, s, v)
            for k, s, v, vals in iterate(E, c, st, it, [], step)]


def collect(E, c, st, it, target, init=EMPTY):
    it = as_it(it)
    wrap = None
    t = target
    mo = re.match(r'^std::(result::Result|option::Option)<(.*)>$', t)
    if mo:
        wrap = 'Ok' if 'Result' in mo.group(1) else 'Some'
        t = mo.group(2)
    ismap = 'HashMap<' in t or 'BTreeMap<' in t
    text = 'String' in t.split('<')[0] or 'Vec<u8>' in t or 'Vec<char>' in t or 'str>' == t[-4:] and 'Box' in t
    textitems = 'String' in t.split('<')[0]
    if not it.a[1] and it.a[2] == 0 and wrap is None and not ismap:
        src = it.a[0]
        if src.op == 'chars' and textitems:
            src = src.a[0]
        if src.op not in ('zip', 'chain', 'range', 'mapiter', 'rev', 'skip', 'take', 'stepby'):
            return ret(st, cat(init, src) if init is not EMPTY else src)
        if src.op in ('skip', 'take') and init is EMPTY and not text and not src.a[0].op in (
                'zip', 'chain', 'range', 'mapiter', 'rev', 'skip', 'take', 'stepby', 'it'):
            # a part of a list, or all of it
            base, n = src.a[0], src.a[1]
            out = []
            for b, s in branch(st, ge0(sub(length(base), n))):
                if src.op == 'take':
                    out.append(('ret', s, slice_(base, integer(0), n) if b else base))
                else:
                    out.append(('ret', s, slice_(base, n, length(base)) if b else EMPTY))
            return out
    if ismap and init is EMPTY:
        init = mk('map0')

    def put(s, x, loc):
        cur = s.mem[loc]
        if ismap:
            s.mem[loc] = mk('minsert', cur, D(E, s, field(x, '0')), field(x, '1'))
        elif textitems:
            y = D(E, s, x)
            isch = c_item_is_char(y)
            s.mem[loc] = cat(cur, item(y))
        elif text:
            s.mem[loc] = cat(cur, item(D(E, s, x)))
        else:
            s.mem[loc] = cat(cur, mk('elt', x))
        return ('next', s, None)

    def step(s, x, locs):
        if wrap is None:
            return [put(s, x, locs[0])]
        good, bad = ('Ok', 'Err') if wrap == 'Ok' else ('Some', 'None')
        res = []
        for n, s2, p in split(s, V(E, s, x), good, bad):
            if n == good:
                res.append(put(s2, p, locs[0]))
            else:
                res.append(('stop', s2, err(p) if bad == 'Err' else NONE))
        return res
    out = []
    for k, s, v, vals in iterate(E, c, st, it, [init], step):
        if k == 'done':
            r = vals[0]
            out.append(('ret', s, r if wrap is None else ok(r) if wrap == 'Ok' else some(r)))
        elif k == 'stop':
            out.append(('ret', s, v))
        else:
            out.append((k, s, v))
    return out


def c_item_is_char(y):
    return True


@m('Iterator::collect')
def m_collect(E, c, st, a):
    return collect(E, c, st, V(E, st, a[0]), c.gargs[-1] if c.gargs else '')


@m('FromIterator::from_iter')
def m_from_iter(E, c, st, a):
    return collect(E, c, st, V(E, st, a[0]), c.gargs[0] if c.gargs else '')


@m('Extend::extend', 'Vec::extend', 'String::extend')
def m_extend(E, c, st, a):
    p = a[0]
    v = V(E, st, p)

    def g(s, r):
        E.write(s, p, r)
        return ret(s, UNIT)
    return bind(collect(E, c, st, D(E, st, a[1]) if a[1].op != 'ptr' else V(E, st, a[1]),
                        c.gargs[0] if c.gargs else '', v), g)


@m('Vec::retain')
def m_retain(E, c, st, a):
    p = a[0]
    v = V(E, st, p)

    def step(s, x, locs):
        res = []
        for k, s2, r in call(E, c, s, a[1], [x]):
            if k != 'ret':
                res.append((k, s2, r))
                continue
            for b, s3 in branch(s2, V(E, s2, r)):
                if b:
                    s3.mem[locs[0]] = cat(s3.mem[locs[0]], mk('elt', x))
                res.append(('next', s3, None))
        return res
    out = []
    for k, s, x, vals in iterate(E, c, st, as_it(v), [EMPTY], step):
        if k == 'done':
            E.write(s, p, vals[0])
            out.append(('ret', s, UNIT))
        else:
            out.append((k, s, x))
    return out


KEYS = mk('param', 'key1'), mk('param', 'key2')


def key_spec(E, c, st, f, n):
    """What a key function or comparison makes of its arguments."""
    outs = call(E, c, st.fork(), f, list(KEYS[:n]))
    if any(k != 'ret' for k, s, v in outs):
        return mk('key', '?', ())
    vals = []
    for k, s, v in outs:
        v = D(E, s, v)
        if v not in vals:
            vals.append(v)
    return mk('key', 'by' if n == 1 else 'cmp', tuple(vals))


@m('[T]::sort_by_key', '[T]::sort', '[T]::sort_unstable', '[T]::sort_by', '[T]::sort_unstable_by_key',
   '[T]::sort_by_cached_key', '[T]::sort_unstable_by')
def m_sort(E, c, st, a):
    v = V(E, st, a[0])
    if v is not EMPTY:
        n = len(c.key.split('_by')) and (0 if '_by' not in c.key else 1 if c.key.endswith('_key') else 2)
        k = key_spec(E, c, st, a[1], n) if n else mk('key', 'by', KEYS[:1])
        E.write(st, a[0], mk('sorted', v, k))
    return ret(st, UNIT)


@m('[T]::reverse')
def m_reverse(E, c, st, a):
    v = V(E, st, a[0])
    if v is not EMPTY:
        E.write(st, a[0], mk('rev', v))
    return ret(st, UNIT)


@m('Vec::dedup_by_key', 'Vec::dedup', 'Vec::dedup_by')
def m_dedup(E, c, st, a):
    v = V(E, st, a[0])
    if v is not EMPTY:
        n = 0 if '_by' not in c.key else 1 if c.key.endswith('_key') else 2
        k = key_spec(E, c, st, a[1], n) if n else mk('key', 'by', KEYS[:1])
        E.write(st, a[0], mk('dedup', v, k))
    return ret(st, UNIT)


# --------------------------------------------------------------------- HashMap
@m('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def m_mapnew(E, c, st, a):
    return ret(st, mk('map0'))


def map_get(v, k):
    if v.op == 'map0':
        return NONE
    if v.op == 'minsert':
        if v.a[1] is k:
            return some(v.a[2])
        if is_const(v.a[1]) and is_const(k):
            return map_get(v.a[0], k)
    if v.op == 'mremove':
        if v.a[1] is k:
            return NONE
    return term('HashMap::get', v, k)


@m('HashMap::get', 'BTreeMap::get')
def m_mapget(E, c, st, a):
    return ret(st, map_get(D(E, st, a[0]), D(E, st, a[1])))


@m('HashMap::contains_key', 'BTreeMap::contains_key')
def m_mapcontains(E, c, st, a):
    g = map_get(D(E, st, a[0]), D(E, st, a[1]))
    v = variant(st.facts, g)
    if v is not None:
        return ret(st, boolean(v == 'Some'))
    return ret(st, mk('isvar', g, 'Some'))


@m('HashMap::insert', 'BTreeMap::insert')
def m_mapinsert(E, c, st, a):
    v, k = V(E, st, a[0]), D(E, st, a[1])
    old = map_get(v, k)
    E.write(st, a[0], mk('minsert', v, k, a[2]))
    return ret(st, old)


@m('HashMap::remove', 'BTreeMap::remove')
def m_mapremove(E, c, st, a):
    v, k = V(E, st, a[0]), D(E, st, a[1])
    E.write(st, a[0], mk('mremove', v, k))
    return ret(st, map_get(v, k))


@m('HashMap::clear', 'BTreeMap::clear')
def m_mapclear(E, c, st, a):
    E.write(st, a[0], mk('map0'))
    return ret(st, UNIT)


@m('HashMap::retain', 'BTreeMap::retain')
def m_mapretain(E, c, st, a):
    """The predicate is run once for any entry.  One that says 'not this key' is a
    removal."""
    p = a[0]
    v = V(E, st, p)
    s0 = st.fork()
    outs = call(E, c, s0, a[1], list(KEYS))
    if any(k != 'ret' for k, s, x in outs):
        E.write(st, p, mk('mretain', v, mk('key', '?', ())))
        return ret(st, UNIT)
    cases = [(s, D(E, s, x)) for k, s, x in outs]
    same = []
    for s, x in cases:
        for t in [x] + [k for k in s.facts if not isinstance(k, tuple)]:
            for y in find(t, lambda z: z.op == 'eq' and KEYS[0] in z.a):
                k = y.a[1] if y.a[0] is KEYS[0] else y.a[0]
                if k not in same:
                    same.append(k)

    def says(k, eqv):
        r = set()
        for s, x in cases:
            f = s.facts if k is None else assume(s.facts, eq(KEYS[0], k), eqv)
            if f is not None:
                r.add(truth(f, x))
        return r
    if says(None, None) == {False}:
        new = mk('map0')
    elif says(None, None) == {True}:
        new = v
    else:
        new = mk('mretain', v, mk('key', 'by', tuple(x for s, x in cases)))
        for k in same:
            if says(k, True) == {False} and says(k, False) == {True}:
                new = mk('mremove', v, k)
                break
    E.write(st, p, new)
    return ret(st, UNIT)


def target(E, st, p):
    while True:
        q = E.get(st, (p.a[0], p.a[1]), p.a[2])
        if q.op != 'ptr':
            return p
        p = q


@m('HashMap::get_mut', 'BTreeMap::get_mut')
def m_mapgetmut(E, c, st, a):
    p = target(E, st, a[0])
    v, k = V(E, st, p), D(E, st, a[1])
    g = map_get(v, k)
    out = []
    for n, s, x in split(st, g, 'Some', 'None'):
        out.append(('ret', s, NONE if n == 'None' else
                    some(mk('ptr', p.a[0], p.a[1], p.a[2] + (('k', k),)))))
    return out


@m('HashMap::entry', 'BTreeMap::entry')
def m_entry(E, c, st, a):
    p = target(E, st, a[0])
    return ret(st, adt('Entry', 'Entry', (p, D(E, st, a[1]))))


@m('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def m_or_insert(E, c, st, a):
    p, k = a[0].a[3]
    v = V(E, st, p)
    g = map_get(v, k)
    q = mk('ptr', p.a[0], p.a[1], p.a[2] + (('k', k),))
    out = []
    for n, s, x in split(st, g, 'Some', 'None'):
        if n == 'Some':
            out.append(('ret', s, q))
            continue

        def gg(s2, y):
            E.write(s2, p, mk('minsert', V(E, s2, p), k, y))
            return ret(s2, q)
        if c.key.endswith('with'):
            out += bind(call(E, c, s, a[1], []), gg)
        elif c.key.endswith('default'):
            out += gg(s, default_of(c.gargs[-1] if c.gargs else ''))
        else:
            out += gg(s, a[1])
    return out


# --------------------------------------------------------------------- EnumSet
SET0 = mk('set0')


def as_set(v):
    if v.op == 'adt' and not v.a[3]:
        return mk('set', SET0, (v,), ())
    if v.op == 'set':
        return v
    return mk('set', v, (), ())


def norm_set(b, plus, minus):
    plus = tuple(sorted(set(plus), key=lambda t: t.id))
    minus = tuple(sorted(set(minus) - set(plus), key=lambda t: t.id))
    if b is SET0:
        minus = ()
    if not plus and not minus and b is not SET0:
        return b
    return mk('set', b, plus, minus)


@m('EnumSet::empty', 'EnumSet::new')
def m_set0(E, c, st, a):
    return ret(st, norm_set(SET0, (), ()))


@m('EnumSet::all')
def m_setall(E, c, st, a):
    return ret(st, mk('setall'))


@m('EnumSet::only')
def m_setonly(E, c, st, a):
    return ret(st, as_set(D(E, st, a[0])))


@m('EnumSet::insert')
def m_setinsert(E, c, st, a):
    s0, x = as_set(V(E, st, a[0])), D(E, st, a[1])
    E.write(st, a[0], norm_set(s0.a[0], s0.a[1] + (x,), tuple(y for y in s0.a[2] if y is not x)))
    return ret(st, negate(set_in(s0, x)))


@m('EnumSet::remove')
def m_setremove(E, c, st, a):
    s0, x = as_set(V(E, st, a[0])), D(E, st, a[1])
    E.write(st, a[0], norm_set(s0.a[0], tuple(y for y in s0.a[1] if y is not x), s0.a[2] + (x,)))
    return ret(st, set_in(s0, x))


def set_in(s0, x):
    s0 = as_set(s0)
    if x in s0.a[1]:
        return TRUE
    cx = x.op == 'adt'
    if cx and all(y.op == 'adt' for y in s0.a[1] + s0.a[2]):
        if x in s0.a[2]:
            return FALSE
        if s0.a[0] is SET0:
            return FALSE
        if s0.a[0].op == 'setall':
            return TRUE
        return mk('setin', s0.a[0], x)
    if s0.a[0] is SET0 and not s0.a[1]:
        return FALSE
    return mk('setin', s0 if (s0.a[1] or s0.a[2]) else s0.a[0], x)


def set_len(s0):
    s0 = as_set(s0)
    if s0.a[0] is SET0 and all(y.op == 'adt' for y in s0.a[1]):
        return integer(len(s0.a[1]))
    t = mk('setlen', s0 if (s0.a[1] or s0.a[2]) else s0.a[0])
    UNSIGNED.add(t)
    return t


def set_empty(s0):
    s0 = as_set(s0)
    if s0.a[1]:
        return FALSE
    if s0.a[0] is SET0:
        return TRUE
    return mk('eqz', set_len(s0), 0)


@m('EnumSet::contains')
def m_setcontains(E, c, st, a):
    return ret(st, set_in(D(E, st, a[0]), D(E, st, a[1])))


@m('EnumSet::len')
def m_setlen(E, c, st, a):
    return ret(st, set_len(D(E, st, a[0])))


@m('EnumSet::is_empty')
def m_setempty(E, c, st, a):
    return ret(st, set_empty(D(E, st, a[0])))


@m('BitOr::bitor', 'EnumSet::union')
def m_setor(E, c, st, a):
    x, y = D(E, st, a[0]), D(E, st, a[1])
    x, y = as_set(x), as_set(y)
    for p, q in ((x, y), (y, x)):
        if q.a[0] is SET0:
            return ret(st, norm_set(p.a[0], p.a[1] + q.a[1],
                                    tuple(z for z in p.a[2] if z not in q.a[1])))
    return ret(st, mk('setor', x, y))


@m('Sub::sub', 'EnumSet::difference')
def m_setsub(E, c, st, a):
    x, y = D(E, st, a[0]), D(E, st, a[1])
    if 'EnumSet' in c.path or c.key.startswith('EnumSet'):
        x, y = as_set(x), as_set(y)
        if y.a[0] is SET0:
            return ret(st, norm_set(x.a[0], tuple(z for z in x.a[1] if z not in y.a[1]),
                                    x.a[2] + y.a[1]))
        return ret(st, mk('setsub', x, y))
    return ret(st, sub(x, y))


@m('BitAnd::bitand', 'BitXor::bitxor')
def m_bits(E, c, st, a):
    x, y = D(E, st, a[0]), D(E, st, a[1])
    if 'EnumSet' in c.path:
        return ret(st, mk('set' + c.key.split('::')[1], x, y))
    return ret(st, E.binop(st, 'BitXor' if 'Xor' in c.key else 'BitAnd', x, y, ''))


@m('BitOrAssign::bitor_assign', 'SubAssign::sub_assign')
def m_opassign(E, c, st, a):
    x, y = V(E, st, a[0]), D(E, st, a[1])
    n = c.key.split('Assign')[0]
    if 'EnumSet' in c.path:
        (_, st, v), = (m_setor if n == 'BitOr' else m_setsub)(E, c, st, [x, y])
    else:
        v = sub(x, y) if n == 'Sub' else E.binop(st, n, x, y, '')
    E.write(st, a[0], v)
    return ret(st, UNIT)


@m('Not::not')
def m_not(E, c, st, a):
    v = D(E, st, a[0])
    if 'EnumSet' in c.path:
        return ret(st, mk('setnot', v))
    return ret(st, negate(v))


# ------------------------------------------------------------ crypto and coding
@m('rand::thread_rng', 'rand::rng', 'SeedableRng::from_entropy')
def m_rng(E, c, st, a):
    if re.search(r'SmallRng|Xoshiro|Pcg|Isaac|mock', c.path + ' '.join(map(str, c.gargs or ())) + str(c.retty)):
        return E.opaque(c, st, c.key, a)
    return ret(st, mk('rng'))


def rand_value(E, c, st, n):
    from engine import Ev
    v = mk('rand', n, '%s@%d' % (c.site, st.n))
    st.n += 1
    st.facts = kill(st.facts, v)
    st.event(Ev('rand', 'rand', (integer(n) if isinstance(n, int) else UNIT,), v, st.facts, c.span,
                c.fr.stack + ((c.fr.name, c.span),)))
    return v


@m('Rng::gen', 'Rng::random', 'rand::random')
def m_gen(E, c, st, a):
    if a and V(E, st, a[0]).op not in ('rng', 'named', 'opaque', 'out', 'adt'):
        return E.opaque(c, st, c.key, a)
    if a and V(E, st, a[0]).op != 'rng':
        r = V(E, st, a[0])
        if not ('OsRng' in show(r) or 'ThreadRng' in show(r)):
            return E.opaque(c, st, c.key, a)
    t = c.gargs[-1] if c.gargs else ''
    mo = re.search(r'\[u8; (\d+)(?:_usize)?\]', t)
    return ret(st, rand_value(E, c, st, int(mo.group(1)) if mo else t))


@m('RngCore::fill_bytes', 'Rng::fill')
def m_fill_bytes(E, c, st, a):
    r = V(E, st, a[0])
    if r.op != 'rng' and 'OsRng' not in show(r):
        return E.opaque(c, st, c.key, a)
    v = V(E, st, a[1])
    n = length(v)
    E.write(st, a[1], rand_value(E, c, st, n.a[0] if n.op == 'int' else n))
    return ret(st, UNIT)


@m('base64::encode')
def m_b64(E, c, st, a):
    return ret(st, mk('b64', D(E, st, a[0])))


@m('base64::decode')
def m_unb64(E, c, st, a):
    v = D(E, st, a[0])
    if v.op == 'b64':
        return ret(st, ok(v.a[0]))
    return ret(st, term('base64::decode', v))


def typenum(t):
    if 'UTerm' not in t:
        return None
    n = 0
    for b in re.findall(r'\bB([01])\b', t):
        n = n * 2 + int(b)
    return n


@m('GenericArray::from_slice', 'GenericArray::clone_from_slice', 'GenericArray::from_mut_slice')
def m_garray(E, c, st, a):
    v = D(E, st, a[0])
    n = None
    for g in c.gargs:
        k = typenum(g)
        if k is not None:
            n = k
    if n is None:
        E.oblige(c.fr, st, 'array length', c.span, False, length(v))
        return ret(st, v)
    cond = eq(length(v), integer(n))
    t = truth(st.facts, cond)
    E.oblige(c.fr, st, 'array length', c.span, t is True, cond)
    out = []
    if t is not True:
        s = st.fork()
        f = assume(s.facts, cond, False)
        if f is not None:
            s.facts = f
            out.append(E.panic(c, s, 'array length', cond))
    f = assume(st.facts, cond, True)
    if f is not None:
        st.facts = f
        out.append(('ret', st, v))
    return out


@m('NewAead::new', 'KeyInit::new')
def m_cipher(E, c, st, a):
    return ret(st, mk('cipher', D(E, st, a[0]), alg(c)))


def alg(c):
    mo = re.search(r'AesGcm<[^>]*?(Aes\d+)', ' '.join([c.path] + list(c.gargs)))
    return mo.group(1) if mo else ''


@m('NewAead::new_from_slice', 'KeyInit::new_from_slice')
def m_cipher2(E, c, st, a):
    return ret(st, ok(mk('cipher', D(E, st, a[0]), alg(c))))


def aead_event(E, c, st, args, res):
    from engine import Ev
    st.event(Ev('crypto', c.key, args, res, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))


@m('Aead::encrypt')
def m_encrypt(E, c, st, a):
    ci, n, p = D(E, st, a[0]), D(E, st, a[1]), D(E, st, a[2])
    v = mk('enc', ci, n, p)
    aead_event(E, c, st, (ci, n, p), v)
    return ret(st, ok(v))


@m('Aead::decrypt')
def m_decrypt(E, c, st, a):
    ci, n, p = D(E, st, a[0]), D(E, st, a[1]), D(E, st, a[2])
    v = term('Aead::decrypt', ci, n, p)
    aead_event(E, c, st, (ci, n, p), v)
    return ret(st, v)


@m('Mac::new_from_slice')
def m_mac(E, c, st, a):
    return ret(st, ok(mk('mac', D(E, st, a[0]), EMPTY, hashname(c))))


def hashname(c):
    t = ' '.join([c.path] + list(c.gargs))
    for n in ('Sha256', 'Sha512', 'Sha1', 'Sha224', 'Sha384', 'Md5'):
        if n in t:
            return n
    return ''


@m('Mac::update')
def m_mac_update(E, c, st, a):
    v = V(E, st, a[0])
    if v.op != 'mac':
        return E.opaque(c, st, c.key, a)
    E.write(st, a[0], mk('mac', v.a[0], cat(v.a[1], D(E, st, a[1])), v.a[2] or hashname(c)))
    return ret(st, UNIT)


@m('Mac::chain_update')
def m_mac_chain(E, c, st, a):
    v = V(E, st, a[0])
    return ret(st, mk('mac', v.a[0], cat(v.a[1], D(E, st, a[1])), v.a[2]))


@m('Mac::finalize')
def m_mac_final(E, c, st, a):
    v = V(E, st, a[0])
    return ret(st, mk('hmac', v.a[0], v.a[1], v.a[2] or hashname(c)) if v.op == 'mac' else
               mk('hmac', v, EMPTY, ''))


@m('Params::new')
def m_params(E, c, st, a):
    vs = [V(E, st, x) for x in a]
    if all(v.op == 'int' for v in vs[:3]) and 0 < vs[0].a[0] < 64 and vs[1].a[0] > 0 and \
            vs[2].a[0] > 0 and vs[1].a[0] * vs[2].a[0] < 2**30 and \
            vs[0].a[0] < vs[1].a[0] * 16 and vs[1].a[0] * 128 * 2**vs[0].a[0] < 2**62:
        return ret(st, ok(mk('params', *vs)))
    t = term('Params::new', *vs)
    return ret(st, t)


@m('scrypt::scrypt')
def m_scrypt(E, c, st, a):
    pw, salt, pr = D(E, st, a[0]), D(E, st, a[1]), D(E, st, a[2])
    n = length(V(E, st, a[3]))
    out = []
    for b, s in branch(st, conj(le(integer(1), n), le(n, integer((2**32 - 1) * 32)))):
        if b:
            v = mk('scrypt', pw, salt, pr, n)
            E.write(s, a[3], v)
            aead_event(E, c, s, (pw, salt, pr, n), v)
            out.append(('ret', s, ok(UNIT)))
        else:
            out.append(('ret', s, err(mk('invalidlen', n))))
    return out


@m('serde_json::to_vec', 'serde_json::to_string', 'serde_json::to_value',
   'serde_json::to_string_pretty', 'serde_json::to_vec_pretty')
def m_to_json(E, c, st, a):
    return ret(st, term('serde_json::to', D(E, st, a[0])))


@m('serde_json::from_slice', 'serde_json::from_str', 'serde_json::from_value')
def m_from_json(E, c, st, a):
    return ret(st, term('serde_json::from', D(E, st, a[0]), mk('ty', (c.gargs or ['?'])[-1])))


# ------------------------------------------------------------------- StorageIO
def effect(E, c, st, name, args, res=None, extra=None):
    from engine import Ev
    st.event(Ev('effect', name, args, res, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),),
                extra))


@m('StorageIO::contains_key')
def m_io_contains(E, c, st, a):
    io, k = D(E, st, a[0]), D(E, st, a[1])
    r = io_has(io, k)
    from engine import Ev
    st.event(Ev('read', c.key, (io, k), r, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))
    return ret(st, r)


def io_has(io, k):
    while io.op in ('io.set', 'io.remove', 'io.clear', 'io.flush'):
        if io.op == 'io.clear':
            return FALSE
        if io.op == 'io.set':
            if io.a[1] is k:
                return TRUE
            if not (is_const(io.a[1]) and is_const(k)):
                break
        if io.op == 'io.remove':
            if io.a[1] is k:
                return FALSE
            if not (is_const(io.a[1]) and is_const(k)):
                break
        io = io.a[0]
    return term('StorageIO::contains_key', io, k)


@m('StorageIO::get')
def m_io_get(E, c, st, a):
    io, k = D(E, st, a[0]), D(E, st, a[1])
    io2 = io
    while io2.op in ('io.set', 'io.flush'):
        if io2.op == 'io.set':
            if io2.a[1] is k:
                r = ok(io2.a[2])
                break
            if not (is_const(io2.a[1]) and is_const(k)):
                r = None
                break
        io2 = io2.a[0]
    else:
        r = None
    if r is None:
        r = term('StorageIO::get', io2, k)
    from engine import Ev
    st.event(Ev('read', c.key, (io, k), r, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))
    return ret(st, r)


@m('StorageIO::keys')
def m_io_keys(E, c, st, a):
    io = D(E, st, a[0])
    from engine import Ev
    r = mk('keys', io)
    st.event(Ev('read', c.key, (io,), r, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))
    return ret(st, mk('it', r, (), 0))


@m('StorageIO::set')
def m_io_set(E, c, st, a):
    io, k, v = D(E, st, a[0]), D(E, st, a[1]), D(E, st, a[2])
    effect(E, c, st, c.key, (k, v), None, io)
    E.write(st, a[0], mk('io.set', io, k, v))
    return ret(st, UNIT)


@m('StorageIO::remove')
def m_io_remove(E, c, st, a):
    io, k = D(E, st, a[0]), D(E, st, a[1])
    has = io_has(io, k)
    out = []
    r = term('StorageIO::remove', io, k)
    for n, s, p in split(st, r, 'Ok', 'Err'):
        if n == 'Ok':
            effect(E, c, s, c.key, (k,), r, io)
            E.write(s, a[0], mk('io.remove', io, k))
            out.append(('ret', s, ok(UNIT)))
        else:
            effect(E, c, s, c.key + '!', (k,), r, io)
            out.append(('ret', s, err(p)))
    return out


@m('StorageIO::clear')
def m_io_clear(E, c, st, a):
    io = D(E, st, a[0])
    effect(E, c, st, c.key, (), None, io)
    E.write(st, a[0], mk('io.clear', io))
    return ret(st, UNIT)


@m('StorageIO::flush')
def m_io_flush(E, c, st, a):
    io = D(E, st, a[0])
    r = mk('call', c.key, (io,), '%d' % st.n)
    st.n += 1
    effect(E, c, st, c.key, (), r, io)
    E.write(st, a[0], mk('io.flush', io))
    return ret(st, r)


# ------------------------------------------------------------------------ other
@m('process::exit')
def m_exit(E, c, st, a):
    return [('exit', st, V(E, st, a[0]))]


@m('panicking::panic', 'panicking::panic_fmt', 'panicking::unreachable_display',
   'panicking::panic_display', 'rt::panic_fmt', 'panicking::panic_str', 'rt::begin_panic',
   'option::expect_failed', 'result::unwrap_failed', 'panicking::panic_explicit',
   'panicking::assert_failed', 'core::panicking')
def m_panic(E, c, st, a):
    E.oblige(c.fr, st, 'panic', c.span, False, UNIT)
    return [E.panic(c, st, 'panic', D(E, st, a[0]) if a else UNIT)]


@m('hint::unreachable_unchecked')
def m_unreach(E, c, st, a):
    return []


@m('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_call(E, c, st, a):
    f = a[0]
    args = a[1] if len(a) > 1 else UNIT
    args = V(E, st, args)
    return E.call_value(c, st, f, list(args.a[0]) if args.op == 'tuple' else [])


@m('Question::new')
def m_question(E, c, st, a):
    return ret(st, mk('question', D(E, st, a[0]), NONE))


@m('Question::default', 'Question::show_defaults', 'Question::until_acceptable', 'Question::tries')
def m_qdefault(E, c, st, a):
    v = V(E, st, a[0])
    if v.op == 'question' and c.key == 'Question::default':
        E.write(st, a[0], mk('question', v.a[0], some(D(E, st, a[1]))))
    return ret(st, a[0])
