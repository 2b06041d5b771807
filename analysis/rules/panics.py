"""C24: malformed data is reported, not a crash."""
import math
from terms import *
import terms as TM
import models as M
import lib as L
from lib import SELF, arg, Missing
from .common import *

EXTERNAL = ('StorageIO::get', 'Aead::decrypt', 'serde_json::from', 'base64::decode', 'str::from_utf8',
            'String::from_utf8', 'str::find', 'fs::read_to_string', 'fs::read')

HUGE = 'the length of a generated password in an entry is not bounded: scrypt refuses more than ' \
    '137438953440 bytes'


def c24(prog, rep):
    w = World(prog, rep)
    key_length(w, rep)
    f0 = {}
    for n in (w.R.key, w.R.hmac, w.R.primary):
        f0 = assume_variant(f0, field(SELF, n), 'Some')
    f0 = assume(f0, eq(length(w.R.KEY), integer(32)), True)
    todo = []
    for name, n in sorted(w.api.items()):
        b = prog.body(n)
        todo.append((n, f0 if b['argc'] and 'Passwords' in b['locals'][1]['ty'] else None))
    for b in prog.crates['pfp']['bodies']:
        if '{closure' in b['name'] or '__impl_' in b['name'] or b.get('virtual') or 'promoted' in b['name'] or not b['argc']:
            continue
        if b['name'] in w.api.values():
            continue
        st = b.get('self_ty') or ''
        if 'FileIO' in st and (b.get('trait') or '').endswith('StorageIO') or \
                b['pub'] and not b.get('trait') and '#storage_types::' in b['name']:
            todo.append((b['name'], None))
    for n, f in todo:
        ps = prog.paths(n, facts=f)
        engines = {p.E for p in ps}
        for p in ps:
            if n.split('::')[-1] in ('list', 'list_sites') and p.kind == 'ret':
                try:
                    prog.pull(p)
                except Exception as e:      # an eager listing has been followed already
                    pass
        for E in engines:
            for (fn, kind, span), (count, fails) in E.obligs.items():
                left = [x for x in fails if not lemma(w, E, kind, *x[:2])]
                if not left:
                    rep.ob('no panic', fn + ' ' + kind, True)
                    continue
                for what, facts, stack in left[:40]:
                    v, why = judge(w, E, n, kind, what, facts)
                    if v and why == HUGE:
                        # one finding wherever the derivation is written
                        rep.ob('no panic', 'scrypt', False, why, span)
                        continue
                    rep.ob('no panic', fn, False if v else None,
                           '%s may panic: %s (reached from %s): %s' % (kind, why, L.fname(n), show(what, 6))
                           if not v else '%s may panic: %s' % (kind, why), span)
            for fn, span, v, r, facts in E.slices:
                for i in r:
                    ok, why = boundary(E, v, i, facts)
                    rep.ob('text is cut between characters', fn, ok, why, span)
    rep.floor('no panic', 15)


def key_length(w, rep):
    """The class invariant: the key in use always has 32 bytes."""
    for name, n in sorted(w.api.items()):
        for p in w.prog.paths(n):
            after = p.self_after()
            if after is None or after is SELF:
                continue
            v = field(after, w.R.key)
            if v is NONE or v is field(SELF, w.R.key):
                continue
            x = vfield(v, 'Some')
            ln = length(x)
            rep.want('the key has 32 bytes', name, ln is integer(32) or x.op == 'scrypt' and
                     x.a[3] is integer(32), x, 'sets a key that may not have 32 bytes')


# ------------------------------------------------------------------------ lemmas
def lemma(w, E, kind, what, facts):
    c = what
    if c.op == 'ovf':
        base, a, b, ty = c.a
        if base == 'Sub':
            return nonneg(E, sub(a, b), facts) or subset(E, a, b)
        return False
    if kind in ('rem0', 'div0') and c.op == 'eqz':
        return nonzero(w, E, add(c.a[0], integer(-c.a[1])), facts)
    neg = False
    while c.op == 'not':
        neg = not neg
        c = c.a[0]
    if c.op == 'ge0':
        t = c.a[0] if not neg else sub(integer(-1), c.a[0])
        return nonneg(E, t, facts)
    if c.op == 'adt' and c.a[1] == 'Err' and c.a[3][0].op == 'invalidlen':
        return False
    return False


def nonneg(E, t, facts):
    c, d = lin(t)
    # sum of lower bounds
    lo = c
    for x, k in d.items():
        if k > 0:
            l = lower(E, x, facts)
            if l is None:
                return False
            lo += k * l
        else:
            u = ub(x)
            if u is None:
                return False
            lo += k * u
    return lo >= 0


def lower(E, x, facts):
    """A lower bound of x."""
    best = 0
    for k, v in facts.items():
        if isinstance(k, tuple):
            continue
        # rem(x, n) == r  gives x >= r
        if v is True and k.op == 'eqz' and k.a[0].op == 'rem' and k.a[0].a[0] is x:
            best = max(best, k.a[1])
    if x.op == 'len' and x.a[0].op == 'elem' and x.a[0].a[0].op == 'chunks':
        s, n = x.a[0].a[0].a[:2]
        if n.op == 'int':
            m, exact = multiple(E, s, facts)
            if m % n.a[0] == 0:
                best = max(best, n.a[0])
            else:
                best = max(best, 1)
    if x.op == 'len' and x.a[0].op == 'phi':
        # appended at least once per pass of a loop that counts its passes
        phi = x.a[0]
        ups = E.phiup.get(phi, ())
        if ups and all(appended(phi, v) >= 1 for v, f, r in ups):
            for i in counters(facts):
                if any(same_loop(i, f) for v, f, r in ups):
                    best = max(best, lower(E, i, facts))
    if x.op == 'div' and x.a[1].op == 'int' and x.a[1].a[0] > 0:
        l = big_lower(E, x.a[0], facts)
        if l is not None:
            best = max(best, l // x.a[1].a[0])
    return best


def big_lower(E, x, facts):
    """A lower bound of a length from index < length."""
    best = 0
    ls = [l for l in TM.inequalities(facts)] + \
        [sub(length(i.a[0]), add(i, integer(1))) for i in counters(facts) if i.a[0].op != 'it']
    xs = lin(x)
    for l in ls:
        cc, dd = lin(l)
        if all(dd.get(y) == m for y, m in xs[1].items()):
            rest = {y: m for y, m in dd.items() if y not in xs[1]}
            if len(rest) == 1:
                (y, m), = rest.items()
                if m == -1:
                    # x - xs0 + cc - y >= 0  =>  x >= y - cc + xs0
                    best = max(best, lower(E, y, facts) - cc + xs[0])
    return best


def counters(facts):
    r = []
    for k in facts:
        t = k[1] if isinstance(k, tuple) else k
        for y in subterms(t):
            if y.op == 'index' and y not in r:
                r.append(y)
    return r


def same_loop(i, facts):
    for k in facts:
        t = k[1] if isinstance(k, tuple) else k
        if i.id in deps(t) or t is i:
            return True
    return False


def appended(phi, v):
    """How many items the update appends (at least)."""
    ps = parts(v)
    if not ps or ps[0] is not phi:
        return -1
    return sum(1 for p in ps[1:] if p.op in ('item', 'elt'))


def exactly(phi, v):
    ps = parts(v)
    if not ps or ps[0] is not phi:
        return None
    if all(p.op in ('item', 'elt') for p in ps[1:]):
        return len(ps) - 1
    return None


def multiple(E, s, facts, depth=0):
    """(m, exact): len(s) is a multiple of m; exact if nothing better can be said
    because the rest of the length is up to the data."""
    if depth > 5:
        return 1, False
    m, exact = 1, False
    for k, v in facts.items():
        if not isinstance(k, tuple) and v is True and k.op == 'eqz' and k.a[0].op == 'rem' and \
                k.a[1] == 0 and k.a[0].a[0] is length(s) and k.a[0].a[1].op == 'int':
            m = k.a[0].a[1].a[0]
    if s.op == 'slice':
        c, d = lin(sub(s.a[2], s.a[1]))
        g = c
        d = dict(d)
        for y in list(d):
            # x - rem(x, n) is a multiple of n
            if y.op == 'rem' and y.a[1].op == 'int' and d[y] < 0:
                cx, dx = lin(y.a[0])
                k = -d[y]
                if all(d.get(z, 0) >= k * kk for z, kk in dx.items()):
                    g = math.gcd(g - k * cx, k * y.a[1].a[0])
                    for z, kk in dx.items():
                        d[z] -= k * kk
                    d[y] = 0
        for y, kk in d.items():
            g = math.gcd(g, kk)
        return max(m, abs(g) or 1), True
    if s.op == 'phi':
        ups = E.phiup.get(s, ())
        if not ups or not (s.a[2] is EMPTY or s.a[2] is string('')):
            return m, False
        ns = {exactly(s, v) for v, f, r in ups}
        if None in ns:
            return m, False
        if len(ns) > 1:
            # filtered: any length
            return m, True
        n, = ns
        its = set()
        for v, f, r in ups:
            for y in L.value_terms(v):
                if y.op == 'elem' and str(y.a[1]).startswith(r.fn + '#'):
                    its.add(y.a[0])
        best = None
        for it in its:
            if it.op == 'chunks' and it.a[1].op == 'int':
                mm, ex = multiple(E, it.a[0], facts, depth + 1)
                if mm % it.a[1].a[0] == 0:
                    best = (n * mm // it.a[1].a[0], ex)
                    break
            elif it.op in ('slice', 'phi', 'param', 'call', 'vf', 'cat'):
                mm, ex = multiple(E, it, facts, depth + 1)
                best = best or (n * mm, ex)
        if best:
            return max(best[0], m), best[1]
        return max(m, n), False
    if s.op in ('param', 'vf', 'call', 'f'):
        return m, True
    return m, exact


def ub(t):
    """Upper bound of a value made of bytes by bit operations."""
    if t.op == 'int':
        return t.a[0]
    if t.op == 'bitand':
        xs = [ub(x) for x in t.a if isinstance(x, T)]
        xs = [x for x in xs if x is not None]
        return min(xs) if xs else None
    if t.op in ('bitor', 'bitxor'):
        xs = [ub(x) for x in t.a if isinstance(x, T)]
        if None in xs:
            return None
        return (1 << max(x.bit_length() for x in xs)) - 1
    if t.op == 'shl' and t.a[1].op == 'int':
        x = ub(t.a[0])
        return None if x is None else x << t.a[1].a[0]
    if t.op == 'shr' and t.a[1].op == 'int':
        x = ub(t.a[0])
        return None if x is None else x >> t.a[1].a[0]
    if t.op in ('idx', 'elem', 'item'):
        return 255
    if t.op == 'cast':
        x = ub(t.a[2])
        return x if x is not None else 255 if t.a[0] == 'u8' or t.a[1] == 'u8' else None
    if t.op == 'rem' and t.a[1].op == 'int':
        return t.a[1].a[0] - 1
    c, d = lin(t)
    if d and not (len(d) == 1 and t in d):
        tot = c
        for x, k in d.items():
            u = ub(x)
            if k < 0 or u is None:
                return None
            tot += k * u
        return tot
    return None


# sets that only receive members of another set
def plain_set(t):
    while t.op == 'set' and not t.a[1] and not t.a[2]:
        t = t.a[0]
    return t


def subset(E, a, b):
    """setlen(A) >= setlen(B) because B only ever receives members of A."""
    if a.op != 'setlen' or b.op != 'setlen':
        return False
    return within(E, b.a[0], a.a[0])


def within(E, B, A, depth=0):
    """B is a subset of A."""
    B, A = plain_set(B), plain_set(A)
    if B is A or B.op == 'set0' or depth > 4:
        return B is A or B.op == 'set0'
    if B.op == 'setsub':
        return within(E, B.a[0], A, depth + 1)
    if B.op == 'phi':
        ups = E.phiup.get(B, ())
        if not ups or not within(E, B.a[2], A, depth + 1):
            return False
        for v, f, r in ups:
            x = plain_set(v)
            while x is not B:
                if x.op != 'set' or not all(member(E, m, A, f, depth + 1) for m in x.a[1]):
                    return False
                x = plain_set(x.a[0])
        return True
    if B.op == 'set':
        return within(E, B.a[0], A, depth + 1) and not B.a[1]
    return False


def member(E, m, A, f, depth=0):
    return any(v is True and not isinstance(k, tuple) and k.op == 'setin' and k.a[1] is m and
               within(E, k.a[0], A, depth + 1) for k, v in f.items())


def populated(E, A, facts):
    """The set has a member."""
    A = plain_set(A)
    if any(v is True and not isinstance(k, tuple) and k.op == 'setin' and
           within(E, k.a[0], A) for k, v in facts.items()):
        return True
    n = mk('setlen', A)
    if truth(facts, eq(n, integer(0))) is False or prove(facts, sub(n, integer(1))):
        return True
    if A.op == 'setsub':
        C, S = plain_set(A.a[0]), plain_set(A.a[1])
        return prove(facts, sub(sub(mk('setlen', C), mk('setlen', S)), integer(1)))
    return False


def nonzero(w, E, x, facts):
    """A sum over the members of a non-empty set of non-empty tables."""
    return prove(facts, sub(x, integer(1))) or any(populated(E, A, facts) for A in counted(w, E, x))


def counted(w, E, x):
    """The sets over all members of which x is such a sum."""
    res = []
    if x.op != 'phi' or 'acc' not in str(x.a[1]) or x.a[2] is not integer(0):
        return res
    ups = E.phiup.get(x, ())
    rows = {}
    for v, f, r in ups:
        c, d = lin(v)
        if d != {x: 1} or c < 0:
            return res
        for k, y in f.items():
            if not isinstance(k, tuple) and k.op == 'setin' and k.a[1].op == 'adt':
                rows.setdefault(plain_set(k.a[0]), set()).add((k.a[1], c > 0, y))
    for A, rs in rows.items():
        tys = {m.a[0] for m, c, y in rs}
        if len(tys) != 1 or any(c != y for m, c, y in rs):
            continue
        vs = [a for cr in w.prog.crates.values() for a in cr['adts'] if a['path'] == list(tys)[0]]
        if vs and {z['n'] for z in vs[0]['vs']} == {m.a[1] for m, c, y in rs if y}:
            res.append(A)
    return res


# ------------------------------------------------------------------------- verdict
def external(t):
    return [x for x in subterms(t) if x.op == 'param' and x.a[0] != 'arg1' or
            x.op == 'call' and x.a[0] in EXTERNAL]


def has_phi(t):
    return any(x.op in ('phi', 'chunks', 'index', 'choice', 'setlen') for x in subterms(t))


FREE = ('StorageIO::get', 'Aead::decrypt', 'fs::read_to_string', 'fs::read')


def open_phi(t):
    """has_phi, but whatever goes into a call that returns data, the data is arbitrary."""
    if t.op == 'call' and t.a[0] in FREE:
        return False
    if t.op == 'utf8error':
        t = t.a[0]
        while t.op == 'slice':
            t = t.a[0]
        return open_phi(t)
    if t.op in ('phi', 'chunks', 'index', 'choice', 'setlen'):
        return True
    return any(open_phi(x) for x in kids(t))


def judge(w, E, fn, kind, what, facts):
    """(violated, why): only what is understood and open to the data is a violation."""
    if not L.closed(what):
        return False, 'not understood'
    k = kind.split('::')[-1]
    if what.op == 'adt' and what.a[1] == 'Err' and what.a[3] and what.a[3][0].op == 'invalidlen':
        n = what.a[3][0].a[0]
        if truth(facts, empty_int(n)) is False or prove(facts, sub(n, integer(1))):
            return True, HUGE
        return True, 'no bytes may be requested'
    if k in ('unwrap', 'expect', 'unwrap_err', 'index') or kind == 'HashMap index':
        if open_phi(what) and not direct(what):
            return False, 'depends on the history of a loop'
        if external(what):
            return True, 'unwraps a failure that the data decides'
        return False, 'not known to fail'
    if kind == 'panic':
        if any(not L.closed(x[1] if isinstance(x, tuple) else x) for x in facts):
            return False, 'reached under conditions that are not understood'
        ext = any(external(x[1] if isinstance(x, tuple) else x) for x in facts)
        return ext, 'an explicit panic that the data can reach' if ext else 'explicit panic'
    if what.op == 'ovf':
        base, a, b, ty = what.a
        if ty in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32') and base in ('Add', 'Mul') and \
                any(x.op in ('phi', 'index', 'len') for x in subterms(a)):
            return True, 'a counter of type %s overflows for enough data' % ty
        d = sub(a, b) if base == 'Sub' else None
        if d is not None and not has_phi(d) and external(d):
            return True, 'the difference is negative for some data'
        if d is not None and too_many(E, d, facts):
            return True, 'the difference is negative for enough data'
        if d is not None and descends(E, d, facts):
            return True, 'counts down below zero for some data'
        if d is not None and empties(E, d, facts):
            return True, 'the difference is negative if there is no data'
        return False, 'arithmetic not understood'
    if kind in ('rem0', 'div0'):
        if what.op == 'eqz' and any(
                external(A) and not has_phi(A) and L.closed(A) for A in
                counted(w, E, add(what.a[0], integer(-what.a[1])))):
            return True, 'divides by the size of a set from the data that may be empty'
        return (not has_phi(what) and bool(external(what))), 'divides by a value from the data'
    c = what
    neg = False
    while c.op == 'not':
        neg, c = not neg, c.a[0]
    # rows that may be shorter than what is taken from them
    for x in subterms(c):
        if x.op == 'len' and x.a[0].op == 'elem' and x.a[0].a[0].op == 'chunks' and \
                x.a[0].a[0].a[1].op == 'int':
            m, exact = multiple(E, x.a[0].a[0].a[0], facts)
            if exact and m % x.a[0].a[0].a[1].a[0]:
                return True, 'the last chunk may be shorter'
            return False, 'the length of the chunks is not known'
    if has_phi(c):
        if empties(E, c.a[0] if c.op == 'ge0' else None, facts):
            return True, 'there may be no data'
        n = shortfall(E, what, facts)
        if n is not None:
            return True, 'does not hold for %d bytes of data' % n
        return False, 'depends on the history of a loop'
    if external(c):
        return True, 'the data decides whether %s holds' % show(what, 5)
    return False, 'not known to fail'


def shortfall(E, c, facts):
    """A length of the data, possible under the facts, for which c does not hold (a
    condition on the length of a list that a loop over the data fills)."""
    phis = {y.a[0] for y in subterms(c) if y.op == 'len' and y.a[0].op == 'phi'}
    if len(phis) != 1:
        return None
    phi, = phis
    got = lengths(E, phi, facts)
    if got is None:
        return None
    src, pairs = got
    lens = [length(phi), length(src)]
    for k, v in facts.items():
        # other conditions on how often some loop went round
        if not isinstance(k, tuple) and k.op in ('ge0', 'eqz', 'eq') and has_phi(k) and \
                not find(k, lambda y: y in lens or y.op in ('idx', 'idxend')) and \
                not (k.op == 'ge0' and k.a[0].op == 'phi') and not divides(k):
            return None
    for n, l in pairs:
        env = {lens[1]: n, lens[0]: l, mk('empty', phi): l == 0, mk('empty', src): n == 0}
        vals = {k: value_of(k, env) for k in facts if not isinstance(k, tuple)}
        if all(x is None or x == facts[k] for k, x in vals.items()) and value_of(c, env) is False:
            return n
    return None


def divides(k):
    """x is a multiple of n."""
    return k.op == 'eqz' and k.a[1] == 0 and k.a[0].op == 'rem'


def lengths(E, phi, facts):
    """(the data that the loop which fills phi goes over, [(its length, length of phi)])."""
    ups = E.phiup.get(phi, ())
    if not ups or not (phi.a[2] is EMPTY or phi.a[2] is string('')):
        return None
    srcs, ways = set(), {}
    for v, f, r in ups:
        if v is phi:
            continue
        n = exactly(phi, v)
        its = {y for p in parts(v)[1:] for y in L.value_terms(p) if y.op == 'elem' and
               str(y.a[1]).startswith(r.fn + '#')} if n else ()
        if not n or len(its) != 1:
            return None
        el, = its
        srcs.add(el)
        conds = []
        for k, x in f.items():
            t = k[1] if isinstance(k, tuple) else k
            i = find(t, lambda y: y.op in ('elem', 'index') and y.a[1] == el.a[1])
            if not i:
                continue
            if isinstance(k, tuple) or any(y.op == 'elem' for y in i) or len(set(i)) != 1:
                return None
            conds.append((k, i[0], x))
        ways.setdefault(id(r), []).append((conds, n))
    if len(srcs) != 1:
        return None
    el, = srcs
    src = el.a[0]
    m, exact = multiple(E, src, facts)
    if not exact or src.op not in ('phi', 'slice', 'param', 'vf', 'call'):
        return None

    def grows(ws, i):
        for conds, n in ws:
            vals = [value_of(k, {q: i}) for k, q, x in conds]
            if None in vals:
                return None
            if all(v == x for v, (k, q, x) in zip(vals, conds)):
                return n
        return 0
    results = set()
    for ws in ways.values():
        l, res = 0, []
        for i in range(16 * m if m < 200 else 0):
            if i % m == 0:
                res.append((i, l))
            g = grows(ws, i)
            if g is None:
                return None
            l += g
        results.add(tuple(res))
    return (src, list(results.pop())) if len(results) == 1 else None


def too_many(E, d, facts):
    """Is d < 0 for the later elements of data that may have any length?"""
    c, dd = lin(d)
    if len(dd) != 1:
        return False
    (i, k), = dd.items()
    if i.op == 'div' and i.a[1].op == 'int':
        i = i.a[0]
    if k >= 0 or i.op != 'index' or any(i.id in deps(f[1] if isinstance(f, tuple) else f) and f.op == 'ge0'
                                        for f in facts if not isinstance(f, tuple)):
        return False
    src = i.a[0]
    while src.op in ('chunks', 'chunksx'):
        src = src.a[0]
    return any(multiple(E, x, facts)[1] for x in parts(src))


def descends(E, d, facts):
    """Is d a counter that goes down as long as the data says so?"""
    c, dd = lin(d)
    if c >= 0 or len(dd) != 1:
        return False
    q, k = next(iter(dd.items()))
    if q.op != 'phi' or k != 1 or not L.closed(q.a[2]) or not external(q.a[2]):
        return False

    def free(f):
        for x in f:
            t = x[1] if isinstance(x, tuple) else x
            if t.op == 'ge0' and (t.a[0] is d or lin(t.a[0])[1].get(q, 0) < 0):
                continue            # this very check; or not above something
            if q.id in deps(t) and not (t.op in ('eqz', 'eq', 'ge0') and only_inside(t, q)):
                return False
            if find(t, lambda y: y.op in ('elem', 'index', 'phi') and y is not q and
                    (y.a[0] is q.a[0] if y.op == 'phi' else False)):
                return False
        return True
    ups = [(v, f) for v, f, r in E.phiup.get(q, ()) if v is not q]
    return bool(ups) and free(facts) and all(
        lin(v)[1] == {q: 1} and lin(v)[0] < 0 and free(f) and
        any(q.id in deps(x[1] if isinstance(x, tuple) else x) for x in f) for v, f in ups)


def only_inside(t, q):
    """q is used in t only as the position of a byte."""
    if t is q:
        return False
    if t.op == 'idx':
        return L.closed(t) and q.id not in deps(t.a[0])
    return all(only_inside(x, q) for x in kids(t) if q.id in deps(x))


def empties(E, d, facts):
    """Is d < 0 when the texts and lists filled by loops stay empty?"""
    if d is None:
        return False
    c, dd = lin(d)
    for x, k in dd.items():
        if x.op == 'len' and x.a[0].op == 'phi' and x.a[0].a[2] in (EMPTY, string('')):
            # no fact may say that it is not empty
            for kk in facts:
                t = kk[1] if isinstance(kk, tuple) else kk
                if x.a[0].id in deps(t):
                    return False
            if k < 0:
                return False
        else:
            return False
    return c < 0


def empty_int(n):
    return eq(n, integer(0))


def direct(what):
    """unwrap of a library call's own result."""
    return what.op == 'call' and what.a[0] in EXTERNAL


def boundary(E, v, i, facts):
    """Is byte i of the text v between two characters?"""
    if i is integer(0) or i is length(v):
        return True, ''
    for t in (i,):
        c, d = lin(t)
        fs = [x for x in d if x.op == 'vf' and x.a[0].op == 'call' and
              x.a[0].a[0] in ('str::find', 'str::rfind')]
        if len(fs) == 1 and len(d) == 1 and d[fs[0]] == 1:
            pat = fs[0].a[0].a[1][1]
            if fs[0].a[0].a[1][0] is v and (c == 0 or pat.op in ('str', 'char') and
                                            integer(c) is length(pat)):
                return True, ''
    if i.op == 'int':
        for k, x in facts.items():
            if not isinstance(k, tuple) and x is True and k.op == 'call' and \
                    k.a[0] == 'str::starts_with' and k.a[1][0] is v and \
                    length(k.a[1][1]) is i:
                return True, ''
        if L.closed(v) and v.op in ('param', 'vf', 'elem', 'f') :
            return False, 'cuts a text in the middle of a character if it has others than ASCII: ' + \
                show(v, 4)
    return None, 'where the text is cut is not understood: ' + show(i, 5)


RULES = {'C24': c24}
