"""Recovery codes: C22 (both sides agree on layout and encoding), C23 (only
complete and verified codes are accepted)."""
from terms import *
import lib as L
from lib import SELF, arg, Missing
from .common import *
from .state import salt_bytes, stored_salt


def plain(t):
    """Fully understood, and not the result of a loop."""
    return L.closed(t) and not find(t, lambda x: x.op == 'phi')


def judge(rep, rule, where, good, value, msg):
    """good: True, False or None (not understood); a value that is not plain is not judged."""
    if good is False and value is not None and not plain(value):
        good = None
    rep.ob(rule, where, good, msg + (': ' + show(value, 6) if value is not None and good is False else ''))


def const_bytes(t):
    if t.op == 'bytes':
        return bytes.fromhex(t.a[0])
    if t.op == 'str':
        return t.a[0].encode('utf-8')
    if t.op == 'array' and all(x.op == 'int' for x in t.a[0]):
        return bytes(x.a[0] & 255 for x in t.a[0])
    return None


def updates(E, q):
    """[(value, facts)] a loop gives to the phi, without duplicates."""
    r = []
    for v, f, rec in E.phiup.get(q, ()):
        r.append((v, f))
    return r


def starts_empty(q):
    return q.a[2] is EMPTY or q.a[2] is string('')


def escapes(prog, fn):
    """What is known on the paths that end in an error or a panic."""
    return [p.facts for p in prog.paths(fn) if p.kind == 'panic' or p.result == 'Err']


def value_under(t, leaf, n):
    """t if leaf is n, for sums and comparisons; None if there is anything else in it."""
    if t is leaf:
        return n
    if t.op == 'int':
        return t.a[0]
    if t.op == 'cast':
        return value_under(t.a[2], leaf, n)
    if t.op == 'lin':
        r = t.a[0]
        for x, k in t.a[1]:
            v = value_under(x, leaf, n)
            if v is None:
                return None
            r += k * v
        return r
    if t.op == 'bitand':
        a, b = (value_under(x, leaf, n) for x in t.a)
        return None if a is None or b is None else a & b
    if t.op in ('div', 'rem') and t.a[1].op == 'int' and t.a[1].a[0] > 0:
        a = value_under(t.a[0], leaf, n)
        return None if a is None else a // t.a[1].a[0] if t.op == 'div' else a % t.a[1].a[0]
    return None


def holds(k, leaf, n):
    """Is the condition k true if leaf is n?  None: not known."""
    if isinstance(k, tuple):
        return None
    if k.op == 'eqz':
        v = value_under(k.a[0], leaf, n)
        return None if v is None else v == k.a[1]
    if k.op == 'ge0':
        v = value_under(k.a[0], leaf, n)
        return None if v is None else v >= 0
    if k.op == 'eq':
        a, b = (value_under(x, leaf, n) for x in k.a)
        return None if a is None or b is None else a == b
    return None


# ------------------------------------------------------------------ bits
def bits(t, width=None):
    """Where every bit of an integer comes from: 0, 1, (leaf, bit) or None.
    With width 8 everything is computed in eight bits, otherwise in as many as
    it takes; callers want both to agree."""
    W = width or 64

    def leaf(x):
        return [(x, i) for i in range(8)] + [0] * (W - 8)

    def shl(b, n):
        return ([0] * n + b)[:W]

    def shr(b, n):
        return b[n:] + [0] * min(n, W)

    def join(a, b):
        r = []
        for x, y in zip(a, b):
            r.append(y if x == 0 else x if y == 0 else x if x == y and x is not None else
                     1 if 1 in (x, y) else None)
        return r

    def ev(t):
        op = t.op
        if op == 'int':
            return [(t.a[0] >> i) & 1 for i in range(W)]
        if op == 'str' and len(t.a[0]) == 1:
            return [(ord(t.a[0]) >> i) & 1 for i in range(W)]
        if op in ('idx', 'elem'):
            return leaf(t)
        if op in ('shl', 'shr') and t.a[1].op == 'int':
            b = ev(t.a[0])
            return (shl if op == 'shl' else shr)(b, t.a[1].a[0])
        if op == 'bitor':
            return join(ev(t.a[0]), ev(t.a[1]))
        if op == 'bitxor':
            a, b = ev(t.a[0]), ev(t.a[1])
            return [y if x == 0 else x if y == 0 else None for x, y in zip(a, b)]
        if op == 'bitand':
            a, b = ev(t.a[0]), ev(t.a[1])
            return [0 if 0 in (x, y) else y if x == 1 else x if y == 1 else
                    x if x == y and x is not None else None for x, y in zip(a, b)]
        if op == 'cast':
            b = ev(t.a[2])
            n = {'u8': 8, 'u16': 16, 'u32': 32}.get(t.a[0], 64)
            return (b[:n] + [0] * W)[:W] if t.a[0] != 'char' else b
        if op == 'rem' and t.a[1].op == 'int' and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0:
            n = t.a[1].a[0].bit_length() - 1
            return (ev(t.a[0])[:n] + [0] * W)[:W]
        if op == 'div' and t.a[1].op == 'int' and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0:
            return shr(ev(t.a[0]), t.a[1].a[0].bit_length() - 1)
        if op == 'lin':
            r = [(t.a[0] >> i) & 1 for i in range(W)]
            for x, k in t.a[1]:
                if k <= 0 or k & (k - 1):
                    return [None] * W
                b = shl(ev(x), k.bit_length() - 1)
                r = [y if z == 0 else z if y == 0 else None for z, y in zip(r, b)]
            return r
        return [None] * W
    return ev(t)


def bits8(t):
    a = bits(t, 8)
    b = bits(t)[:8]
    return [x if x == y else None for x, y in zip(a, b)]


class Coder:
    """A loop that turns every chunk of its input into some bytes."""
    def __init__(self, src, size, items, rest):
        self.src = src
        self.size = size
        self.items = items
        self.rest = rest


def coder(E, q, esc):
    """The Coder that fills q, or None."""
    if q.op != 'phi' or not starts_empty(q) or uncovered(E, q, esc):
        return None
    best = None
    for v, f in updates(E, q):
        ps = parts(v)
        if not ps or ps[0] is not q or len(ps) < 2 or any(x.op not in ('item', 'str') for x in ps[1:]):
            return None
        items = []
        for x in ps[1:]:
            items += [x.a[0]] if x.op == 'item' else [integer(ord(c)) for c in x.a[0]]
        chunks = {y.a[0] for x in items for y in subterms(x) if y.op == 'elem' and
                  y.a[0].op in ('chunks', 'chunksx')}
        if len(chunks) != 1:
            return None
        c = chunks.pop()
        if c.a[1].op != 'int':
            return None
        new = Coder(c.a[0], c.a[1].a[0], items, c.op)
        if best is None:
            best = new
        elif best.items != new.items or best.size != new.size:
            return None
    return best


def source_bit(b):
    """(number in the chunk, bit) of a bit's source."""
    if isinstance(b, tuple):
        x, i = b
        if x.op == 'idx' and x.a[1].op == 'int':
            return x.a[1].a[0], i
    return None


def pearson(E, q):
    """(table, first index, bytes hashed) if q is a Pearson hash; None if it is not
    recognised; the third is None if bytes are left out."""
    if q.op != 'phi' or q.a[2].op != 'idx':
        return None
    T = const_bytes(q.a[2].a[0])
    if T is None or len(T) != 256:
        return None
    src = set()
    skip = False
    for v, f in updates(E, q):
        if v is q:
            skip = True
            continue
        if v.op != 'idx' or const_bytes(v.a[0]) is None:
            return None
        x = v.a[1]
        if x.op != 'bitxor' or q not in x.a:
            return None
        y = x.a[1] if x.a[0] is q else x.a[0]
        if y.op != 'elem':
            return None
        if const_bytes(v.a[0]) != T:
            return None
        src.add(y.a[0])
    if len(src) != 1:
        return None
    return T, q.a[2].a[1], (None if skip else src.pop())


def affine(t, line, n):
    """The value mod 256 of t for line number n, or None."""
    if t is line:
        return n
    if t.op == 'int':
        return t.a[0]
    if t.op == 'cast':
        v = affine(t.a[2], line, n)
        return None if v is None else v % 256 if t.a[0] == 'u8' else v
    if t.op in ('wsub', 'wadd') or t.op == 'bitxor':
        a, b = affine(t.a[0], line, n), affine(t.a[1], line, n)
        if a is None or b is None:
            return None
        return a - b if t.op == 'wsub' else a + b if t.op == 'wadd' else a ^ b
    if t.op == 'bitnot':
        a = affine(t.a[0], line, n)
        return None if a is None else -1 - a
    if t.op == 'rem' and t.a[1].op == 'int':
        a = affine(t.a[0], line, n)
        return None if a is None else a % t.a[1].a[0]
    if t.op == 'bitand' and any(x.op == 'int' for x in t.a):
        a, b = affine(t.a[0], line, n), affine(t.a[1], line, n)
        return None if a is None or b is None else a & b
    if t.op == 'lin':
        r = t.a[0]
        for x, k in t.a[1]:
            a = affine(x, line, n)
            if a is None:
                return None
            r += k * a
        return r
    return None


def table_of(t, line):
    """The virtual byte for every line, or None."""
    r = [affine(t, line, n) for n in range(256)]
    return None if None in r else [x % 256 for x in r]


def formatted(E, q):
    """(source of the characters, set of inserted characters, cleaned) of a formatted code."""
    if q.op != 'phi' or not starts_empty(q):
        return None
    src, punct, alpha, bad = set(), set(), set(), []
    for v, f in updates(E, q):
        ok = [(k.a, x) for k, x in f.items() if not isinstance(k, tuple) and
              k.op == 'call' and k.a[0].endswith('::contains')]
        if v is q:
            # left out: only what is not in the alphabet
            if not any(x is False for a, x in ok):
                bad.append('characters are left out')
            continue
        ps = parts(v)
        if ps[0] is not q or len(ps) < 2 or ps[1].op != 'item':
            return None
        x = ps[1].a[0]
        while x.op == 'cast':
            x = x.a[2]
        if x.op == 'upper':
            x = x.a[0]
        if x.op != 'elem':
            return None
        src.add(x.a[0])
        for y in ps[2:]:
            if y.op != 'str':
                return None
            punct |= set(y.a[0])
        for a, z in ok:
            if z is True and const_bytes(a[1][0]) is not None:
                alpha.add(const_bytes(a[1][0]))
    if len(src) != 1 or not alpha:
        return None
    return src.pop(), punct, alpha, bad


def b64part(t):
    """N or C if t is the decoded first or second half of b64(N) '_' b64(C)."""
    if not (t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'base64::decode'):
        return None
    s = t.a[0].a[1][0]
    if s.op == 'b64':
        return s.a[0]
    if s.op != 'slice':
        return None
    x, a, b = s.a
    ps = parts(x)
    if len(ps) != 3 or ps[0].op != 'b64' or ps[2].op != 'b64' or ps[1] is not string('_'):
        return None

    def pos(y):
        return y.op == 'vf' and y.a[1] == 'Some' and y.a[0].op == 'call' and \
            y.a[0].a[0] == 'str::find' and y.a[0].a[1][0] is x and y.a[0].a[1][1] is string('_')
    if a is integer(0) and pos(b):
        return ps[0].a[0]
    if pos(sub(a, integer(1))) and b is length(x):
        return ps[2].a[0]
    return None


# ------------------------------------------------------------------ generate
class Gen:
    """generate(): how the code is made, on one path."""


def take_apart_code(prog, p, rep, where):
    """From the returned text back to the bytes; None if not understood."""
    E = p.E
    x = vfield(p.val, 'Ok')
    g = Gen()
    while x.op == 'droplast':
        y = x.a[0]
        last = [k.a[1] for k, v in p.facts.items() if not isinstance(k, tuple) and v is True and
                k.op == 'eqz' and k.a[0].op == 'idxend' and k.a[0].a[0] is y and k.a[0].a[1] == 1]
        g.dropped = last
        x = y
        if y.op != 'phi':
            break
        F = formatted(E, y)
        if F is None:
            return None
        al = b''.join(F[2])
        rep.ob('only punctuation is removed', where,
               bool(last) and all(c not in al for c in last) if last else False,
               'the last character of the code is dropped whatever it is')
    F = formatted(E, x)
    if F is None:
        return None
    g.src, g.punct, g.alpha, bad = F
    rep.ob('only punctuation is removed', where, not bad, 'characters of the code are left out')
    rep.ob('what is inserted is ignored when decoding', where,
           all(ord(c) not in a for c in g.punct for a in g.alpha),
           'inserts characters that are part of the alphabet')
    g.enc = coder(E, g.src, escapes(prog, p.fn))
    if g.enc is None:
        return None
    g.out = g.enc.src
    return g


def layout(prog, p, g, rep, where):
    """The blocks and checksums of the bytes that are encoded."""
    E = p.E
    o = g.out
    if o.op != 'phi' or not starts_empty(o):
        return None
    g.virt = {}
    g.tables = set()
    g.input = None
    g.block = None
    for v, f in updates(E, o):
        ps = parts(v)
        if ps[0] is not o or len(ps) not in (2, 3):
            return None
        if ps[1].op == 'elem' and ps[1].a[0].op in ('chunks', 'chunksx'):
            # a block at a time
            c = ps[1].a[0]
            src, n, line = c.a[0], c.a[1], mk('index', c, ps[1].a[1])
            pos = None
            if len(ps) == 2:
                rep.ob('every block has a checksum', where, False, 'blocks without a checksum')
                continue
        elif ps[1].op == 'item' and ps[1].a[0].op == 'elem':
            # a byte at a time
            src = ps[1].a[0].a[0]
            conds = [(k, x) for k, x in f.items() if not isinstance(k, tuple) and k.op == 'eqz' and
                     k.a[0].op == 'rem' and k.a[0].a[0].op == 'index' and k.a[0].a[0].a[0] is src]
            if len(ps) == 2:
                if not any(x is False for k, x in conds):
                    rep.ob('every block has a checksum', where, None if not conds else False,
                           'blocks without a checksum')
                if g.input is None:
                    g.input = src
                elif g.input is not src:
                    return None
                continue
            if not conds or conds[0][1] is not True:
                return None
            k = conds[0][0]
            n = k.a[0].a[1]
            if n.op == 'int':
                rep.ob('every block has a checksum', where, k.a[1] == n.a[0] - 1,
                       'the checksum does not follow the last byte of its block')
            pos = k.a[0].a[0]
            line = div(pos, n)
        else:
            return None
        if g.input is None:
            g.input = src
        elif g.input is not src:
            return None
        if n.op != 'int' or ps[2].op != 'item':
            return None
        g.block = n.a[0]
        h = pearson(E, ps[2].a[0])
        if h is None:
            judge(rep, 'the checksum covers the whole block', where, False if plain(ps[2].a[0]) else None,
                  None, 'the last byte of a line is not a checksum')
            return None
        T, virt, hashed = h
        g.tables.add(T)
        before = cat(o, ps[1])
        whole = hashed is not None and (hashed is ps[1] or hashed.op == 'slice' and
                                        hashed.a[0] is before and hashed.a[2] is length(before) and
                                        sub(hashed.a[2], hashed.a[1]) is (n if pos is not None else length(ps[1])))
        judge(rep, 'the checksum covers the whole block', where,
              whole if hashed is None or whole or hashed.op in ('slice', 'phi') or hashed is o else None, None,
              'the checksum does not cover the %s bytes of its block' % n.a[0])
        # the last block?
        last = None
        tot = div(length(src), n)
        for kk, x in f.items():
            if isinstance(kk, tuple) or kk.op not in ('eqz', 'eq'):
                continue
            if kk.op == 'eqz' and kk.a[0].op == 'lin':
                z = sub(kk.a[0], integer(kk.a[1]))
                if pos is not None and any(
                        y is sub(sub(length(src), pos), integer(1)) for y in (z, scale(z, -1))):
                    last = x
                    continue
                c, d = lin(z)
                if d == {tot: 1, line: -1} and c == -1 or d == {tot: -1, line: 1} and c == 1:
                    last = x
                elif line in d and tot in d:
                    rep.ob('the last block is marked', where, False, 'the wrong block is marked as last')
                    last = x
        if last is None:
            g.virt.setdefault(None, set()).add(virt)
        g.virt.setdefault(last, set()).add(virt)
        g.line = line
    return g if g.input is not None and g.block is not None else None


def c22(prog, rep):
    gen = prog.func('recovery_codes', 'generate')
    dec = prog.func('recovery_codes', 'decode')
    if gen is None or dec is None:
        raise Missing('recovery_codes::generate, decode')
    G = D = None
    rules = ('the checksum covers the whole block', 'the last block is marked',
             'decoding takes the same pieces from the same places', 'encoder and decoder are inverse',
             'the checksum table is a permutation', 'the alphabet', 'characters are looked up exactly')
    for p in prog.paths(gen):
        if p.result != 'Ok':
            continue
        g = take_apart_code(prog, p, rep, gen)
        g2 = g and layout(prog, p, g, rep, gen)
        if g2:
            g2.p = p
            pieces(prog, p, g2, rep, gen)
            G = G or g2
        elif g and G is None:
            rep.ob('generate is understood', gen, None, 'blocks')
            g.p = p
            G = g
        else:
            rep.ob('generate is understood', gen, None)
    for p in prog.paths(dec):
        if p.result != 'Ok':
            continue
        d = take_apart_decode(prog, p, rep, dec)
        if d is None:
            rep.ob('decode is understood', dec, None)
        elif D is None or not D.full and d.full:
            D = d
    interface(prog, rep)
    for r in rules:
        rep.ob(r, 'both sides', None if not (G and D) else True)
    if G:
        if getattr(G, 'tables', None):
            for T in G.tables:
                rep.ob('the checksum table is a permutation', gen, len(set(T)) == 256,
                       'different bytes can have the same effect on the checksum')
        al = G.alpha
        for a in al:
            rep.ob('the alphabet', gen, len(a) == 32 and len(set(a)) == 32,
                   'does not have 32 distinct characters')
            rep.ob('the alphabet', gen, a.upper() == a and not set(a) & set(b'01IO'),
                   'contains characters that are easily confused')
            rep.ob('the alphabet', gen, all(a.upper().count(bytes([c]).upper()) == 1 for c in a),
                   'contains characters that differ in case only')
        encoder(G, rep, gen)
    if D:
        decoder(D, rep, dec)
    if G and D:
        inverse(G, D, rep)
        compare(prog, G, D, rep, dec)


def interface(prog, rep):
    """What Passwords passes on: the stored password, salt and key, the primary password."""
    w = World(prog, rep)
    R = w.R
    rule = 'the code is made of the stored salt, under the key that belongs to it'
    for p in w.paths('get_recovery_code'):
        if p.result != 'Ok':
            continue
        n = prog.api()['get_recovery_code']
        g = take_apart_code(prog, p, Quiet(), n)
        g = g and layout(prog, p, g, Quiet(), n)
        if not g:
            rep.ob(rule, n, None)
            continue
        ps = parts(g.input)
        if len(ps) == 4:
            s = ps[1]
            judge(rep, rule, n, stored_salt(w, s), s, 'the salt is not the stored one')
            c = b64part(ps[3]) or ps[3]
            if c.op == 'enc':
                key = c.a[0].a[0] if c.a[0].op == 'cipher' else c.a[0]
                judge(rep, rule, n, key is R.KEY, key, 'the key is not the one of the storage')
    for p in w.paths('decode_recovery_code'):
        if p.result != 'Ok':
            continue
        n = prog.api()['decode_recovery_code']
        d = take_apart_decode(prog, p, Quiet(), n)
        if d is None:
            rep.ob(rule, n, None)
        else:
            judge(rep, rule, n, d.pw is R.PP, d.pw, 'another primary password is used')


def pieces(prog, p, g, rep, where):
    """version, salt, nonce and ciphertext, in this order."""
    E = p.E
    ps = parts(g.input)
    g.pieces = {}
    off = integer(0)
    for x in ps:
        n = length(x)
        if x.op == 'str' and len(x.a[0]) == 1 or x.op == 'item':
            v = x.a[0] if x.op == 'str' else x.a[0]
            c = ord(v) if isinstance(v, str) else v.a[0] if v.op == 'int' else \
                ord(v.a[0]) if v.op == 'str' else None
            kind = 'version'
            g.version = c
        elif x is arg(2):
            kind = 'salt'
            n = known_len(p.facts, x) or n
        else:
            y = x if x.op in ('rand', 'enc') else b64part(x)
            if y is None:
                rep.ob('the code contains version, salt, nonce and ciphertext', where, None, show(x, 4))
                return
            if y.op == 'rand':
                kind = 'nonce'
                n = known_len(p.facts, x) or n
                g.nonce = y
            elif y.op == 'enc':
                kind = 'ciphertext'
                g.ct = y
            else:
                rep.ob('the code contains version, salt, nonce and ciphertext', where, None, show(y, 4))
                return
        g.pieces[kind] = (off, n)
        off = add(off, n)
    rep.ob('the code contains version, salt, nonce and ciphertext', where,
           list(g.pieces) == ['version', 'salt', 'nonce', 'ciphertext'] and len(ps) == 4,
           'contains ' + ', '.join(g.pieces))
    if 'salt' in g.pieces and g.pieces['salt'][1].op != 'int':
        rep.ob('a salt of another length is refused', where, False,
               'the length of the salt is not checked: it is not where the decoder looks for it')
    else:
        rep.ob('a salt of another length is refused', where, True)
    if 'ciphertext' in g.pieces and 'nonce' in g.pieces:
        c = g.ct
        tot = add(g.pieces['ciphertext'][0], add(length(c.a[2]), integer(16)))
        r = divisible(p.facts, tot, g.block) or divisible(p.facts, off, g.block)
        judge(rep, 'the code consists of complete blocks', where, r, tot if r is False else None,
              'the length of what is encoded is not a multiple of %d' % g.block)
        good = c.a[1] is g.nonce
        rep.ob('the nonce is the one of the ciphertext', where, good, 'another nonce')
        key = c.a[0]
        judge(rep, 'encrypted under the given key', where, bool(find(key, lambda x: x is arg(3))), key,
              'the key is not the encryption key given')
        pl = c.a[2]
        base = pl
        if pl.op == 'resize':
            base = pl.a[0]
            z = pl.a[2] if len(pl.a) > 2 else None
            rep.ob('padded with zero bytes', where,
                   z is None or z is integer(0) or z is string('\0') or z.op == 'char' and z.a[0] == '\0',
                   'the padding is not what the decoder strips')
        elif pl.op == 'cat' and pl.a[0] is arg(1):
            base = arg(1)
        judge(rep, 'the password is what is encrypted', where, base is arg(1), base,
              'something else than the password is encrypted')


def divisible(facts, t, n):
    """Is t a multiple of n?  None: not known."""
    def red(t):
        c, d = lin(t)
        r = integer(c)
        for x, k in d.items():
            if x.op == 'rem' and x.a[1].op == 'int' and x.a[1].a[0] == n:
                r = add(r, scale(red(x.a[0]), k))
            elif x.op == 'rem' and x.a[1].op == 'int' and x.a[1].a[0] % n == 0:
                r = add(r, scale(red(x.a[0]), k))
            else:
                r = add(r, scale(x, k % n))
        c, d = lin(r)
        return unlin(c % n, {x: k % n for x, k in d.items()})
    t = red(t)
    if t is integer(0):
        return True
    zs = []
    for k, v in facts.items():
        if not isinstance(k, tuple) and k.op == 'eqz' and v is True:
            if k.a[0].op == 'rem' and k.a[0].a[1] is integer(n):
                zs.append(red(sub(k.a[0].a[0], integer(k.a[1]))))
            else:
                zs.append(red(sub(k.a[0], integer(k.a[1]))))
    for z in zs:
        for y in [integer(0)] + zs:
            for s1 in (1, -1):
                for s2 in (1, -1):
                    if red(add(add(t, z, s1), y, s2)) is integer(0):
                        return True
    return False


def known_len(facts, x):
    for k, v in facts.items():
        if not isinstance(k, tuple) and v is True and k.op == 'eqz' and k.a[0] is length(x):
            return integer(k.a[1])
    n = length(x)
    return n if n.op == 'int' else None


def encoder(G, rep, where):
    e = G.enc
    rule = 'encoder and decoder are inverse'
    G.encmap = None
    if e.rest != 'chunks' and e.rest != 'chunksx':
        rep.ob(rule, 'encoder', None)
        return
    m = []
    for it in e.items:
        if it.op != 'idx' or const_bytes(it.a[0]) is None:
            rep.ob(rule, 'encoder', None, show(it, 4))
            return
        a = const_bytes(it.a[0])
        rep.ob('the alphabet', where, a in G.alpha, 'the encoder uses another alphabet')
        b = bits8(it.a[1])
        if None in b:
            rep.ob(rule, 'encoder', None, show(it, 6))
            return
        rep.ob(rule, 'encoder', b[5:] == [0, 0, 0], 'an index of more than five bits')
        m.append([source_bit(x) if x not in (0, 1) else x for x in b[:5]])
    G.encmap = m


def decoder(D, rep, where):
    rule = 'encoder and decoder are inverse'
    D.decmap = None
    d = getattr(D, 'dec', None)
    if d is None:
        rep.ob(rule, 'decoder', None)
        return
    m = []
    for it in d.items:
        b = bits8(it)
        # the upper bits of a looked up character are zero: they are checked to be below 32
        b = [0 if isinstance(x, tuple) and x[1] >= 5 and D.checked else x for x in b]
        # evaluate again with that knowledge
        if None in b:
            b = masked(it, D.checked)
        if None in b:
            rep.ob(rule, 'decoder', None, show(it, 6))
            return
        m.append([source_bit(x) if x not in (0, 1) else x for x in b])
    D.decmap = m


def masked(t, five):
    """bits8 with the knowledge that every leaf is below 32."""
    def sub5(t):
        if t.op in ('idx', 'elem'):
            return mk('bitand', t, integer(31))
        if t.op == 'lin':
            r = integer(t.a[0])
            for x, k in t.a[1]:
                r = add(r, mk('shl', sub5(x), integer(k.bit_length() - 1)) if k > 0 else x)
            return r
        if t.op in ('shl', 'shr', 'bitor', 'bitxor', 'bitand', 'rem', 'div'):
            return mk(t.op, *[sub5(x) for x in t.a])
        if t.op == 'cast':
            return mk('cast', t.a[0], t.a[1], sub5(t.a[2]))
        return t
    return bits8(sub5(t)) if five else bits8(t)


def inverse(G, D, rep):
    rule = 'encoder and decoder are inverse'
    e, d = G.encmap, D.decmap
    if e is None or d is None or any(x is None for r in e + d for x in r):
        rep.ob(rule, 'both', None)
        return
    rep.ob(rule, 'both', G.enc.size == len(d) and D.dec.size == len(e),
           '%d bytes become %d characters, %d characters become %d bytes' % (
               G.enc.size, len(e), D.dec.size, len(d)))
    wrong = []
    for k, row in enumerate(d):
        for b, s in enumerate(row):
            if s in (0, 1) and not isinstance(s, tuple):
                wrong.append('bit %d of byte %d is always %d' % (b, k, s))
                continue
            j, c = s
            if j >= len(e) or c >= 5 or e[j][c] != (k, b):
                wrong.append('bit %d of byte %d is taken from where another bit is stored' % (b, k))
    rep.ob(rule, 'both', not wrong, '; '.join(wrong[:3]))


# -------------------------------------------------------------------- decode
class Dec:
    pass


def take_apart_decode(prog, p, rep, where):
    E = p.E
    d = Dec()
    d.full = False
    d.p = p
    x = vfield(p.val, 'Ok')
    cs = list({y for y in L.value_terms(x) if y.op == 'call' and y.a[0] == 'Aead::decrypt'})
    if len(cs) != 1:
        return None
    d.call = cs[0]
    key, nonce, ct = cs[0].a[1]
    d.nonce = b64part(nonce) if nonce.op == 'vf' else nonce
    d.ct = b64part(ct) if ct.op == 'vf' else ct
    sc = [y for y in L.value_terms(key) if y.op == 'scrypt']
    d.salt = salt_bytes(E, sc[0].a[1]) if len(sc) == 1 else None
    d.pw = sc[0].a[0] if len(sc) == 1 else None
    if d.nonce is None or d.ct is None or not d.salt:
        return None

    def base(t):
        return t.a[0] if t.op == 'slice' else t
    d.W = base(d.ct)
    d.D = None
    d.block = None
    d.checked = False
    w = d.W
    if w.op == 'phi' and starts_empty(w) and by_chunks(prog, p, d, rep, where):
        pass
    elif w.op == 'phi' and starts_empty(w):
        src = set()
        ok = True
        size = {y.a[1].a[0] for v, f in updates(E, w) for k in f for y in
                subterms(k[1] if isinstance(k, tuple) else k) if y.op == 'rem' and
                y.a[0].op == 'index' and y.a[1].op == 'int'}
        n = size.pop() if len(size) == 1 else None
        kept = {True: set(), False: set()}
        used = set()
        for v, f in updates(E, w):
            poss = set(range(n or 0))
            for k, y in f.items():
                for z in find(k[1] if isinstance(k, tuple) else k,
                              lambda z: z.op == 'rem' and z.a[0].op == 'index' and z.a[1] is integer(n)) \
                        if n else ():
                    r = [holds(k, z, i) for i in range(n)]
                    if None not in r:
                        used.add(k)
                        poss &= {i for i in range(n) if r[i] is y}
            ps = parts(v)
            if v is w:
                kept[False] |= poss
            elif ps[0] is w and len(ps) == 2 and ps[1].op == 'item' and ps[1].a[0].op == 'elem':
                src.add(ps[1].a[0].a[0])
                kept[True] |= poss
            else:
                ok = False
        if ok and n:
            d.block = (n, max(kept[False])) if len(kept[False]) == 1 else (n, None)
            rep.ob('the checksums are left out', where, kept[True] == set(range(n - 1)) and
                   kept[False] <= {n - 1}, 'other bytes are left out')
            d.block = (n, n - 1) if kept[True] == set(range(n - 1)) else d.block
            rest = [k for k, x in uncovered(E, w, escapes(prog, p.fn)) if k not in used]
            rep.ob('the checksums are left out', where, not rest, 'other bytes are left out')
        if ok and len(src) == 1:
            d.D = src.pop()
    if d.D is None:
        return d
    esc = escapes(prog, p.fn)
    d.dec = coder(E, d.D, esc)
    if d.dec is None:
        return d
    lookup(d, rep, where, esc)
    d.full = True
    return d


def by_chunks(prog, p, d, rep, where):
    """Every line without its end is appended."""
    found = set()
    for v, f in updates(p.E, d.W):
        ps = parts(v)
        if ps[0] is not d.W or len(ps) != 2:
            return False
        x = ps[1]
        if x.op == 'item' and x.a[0].op == 'elem':
            x = x.a[0].a[0]
        if x.op != 'slice' or x.a[0].op != 'elem' or x.a[0].a[0].op not in ('chunks', 'chunksx'):
            return False
        c = x.a[0].a[0]
        found.add((c.a[0], c.a[1], x.a[1], x.a[2]))
    if len(found) != 1:
        return False
    src, n, a, b = found.pop()
    if n.op != 'int' or a.op != 'int' or b.op != 'int':
        return False
    d.D = src
    d.block = (n.a[0], b.a[0] if a.a[0] == 0 and b.a[0] == n.a[0] - 1 else None)
    rep.ob('the checksums are left out', where, d.block[1] is not None and
           not uncovered(p.E, d.W, escapes(prog, p.fn)), 'other bytes are left out')
    return True


def lookup(d, rep, where, esc):
    """The characters are looked up in a table that inverts the alphabet."""
    E = d.p.E
    q = d.dec.src
    rule = 'characters are looked up exactly'
    d.table = d.chars = None
    if q.op != 'phi' or not starts_empty(q):
        rep.ob(rule, where, None)
        return
    src = set()
    tabs = set()
    for v, f in updates(E, q):
        ps = parts(v)
        if ps[0] is not q or len(ps) != 2 or ps[1].op != 'item' or ps[1].a[0].op != 'idx':
            rep.ob(rule, where, None if v is not q else False, 'characters are left out')
            return
        x = ps[1].a[0]
        T = const_bytes(x.a[0])
        if T is None or x.a[1].op != 'elem':
            rep.ob(rule, where, None)
            return
        tabs.add(T)
        src.add(x.a[1].a[0])
    if len(tabs) != 1:
        rep.ob(rule, where, None)
        return
    d.table = tabs.pop()
    d.chars = src

    rep.ob(rule, where, not uncovered(E, q, esc), 'characters are left out')

    # an invalid character is never accepted
    def label(f):
        """Can the character of the pass be an invalid one?  None: nothing is known."""
        r = None
        leaves = {x for k in f if not isinstance(k, tuple) for x in subterms(k)
                  if x.op == 'idx' and const_bytes(x.a[0]) == d.table and x.a[1].op == 'elem' or
                  x.op == 'elem' and x.a[0] is q}
        for x in leaves:
            vals = set(d.table)
            known = False
            for k, v in f.items():
                if not isinstance(k, tuple) and x.id in deps(k):
                    hs = {n: holds(k, x, n) for n in vals}
                    if None not in hs.values():
                        known = True
                        vals = {n for n in vals if hs[n] is v}
            if known:
                r = bool(r) or any(n >= 32 for n in vals)
        return r
    seen = []

    def step(s, f, site):
        seen.append(1)
        return s if label(f) is False else 'bad'
    st = automaton(d.p.events, d.p.facts, {'good'}, step,
                   lambda rec: any(label(fresh(rec, k, b)) is not None for k, k2, e, b in rec.trans))
    d.checked = bool(seen) and 'bad' not in st
    if seen:
        rep.ob(rule, where, 'bad' not in st, 'invalid characters are accepted')


def fresh(rec, k, b):
    """What a pass of a loop found out."""
    h = rec.heads[k].facts
    return {x: v for x, v in b.facts.items() if h.get(x) != v}


def automaton(events, facts, states, step, match):
    """States an automaton that reads the passes of the matching loops can be in at
    the end of the path."""
    for e in events:
        if e.kind == 'loop':
            rec, key = e.extra
            if not match(rec):
                continue
            S = {rec.entry: set(states)}
            while True:
                ch = False
                for k, k2, evs, b in rec.trans:
                    for s in list(S.get(k, ())):
                        n = step(s, fresh(rec, k, b), rec)
                        if n not in S.setdefault(k2, set()):
                            S[k2].add(n)
                            ch = True
                if not ch:
                    break
            states = S.get(key, set())
        elif e.kind == 'alt':
            new = set()
            for l in e.extra:
                new |= automaton(l, facts, states, step, match)
            states = new
    return states


def compare(prog, G, D, rep, where):
    rule = 'decoding takes the same pieces from the same places'
    if not getattr(G, 'pieces', None):
        rep.ob(rule, where, None)
        return
    w = D.W
    for kind, t in (('salt', D.salt), ('nonce', D.nonce), ('ciphertext', D.ct)):
        if kind not in G.pieces:
            continue
        off, n = G.pieces[kind]
        if off.op != 'int':
            rep.ob(rule, kind, None)
            continue
        if t.op != 'slice' or t.a[0] is not w:
            judge(rep, rule, kind, False, t, 'the %s is not taken from the code' % kind)
            continue
        a, b = t.a[1], t.a[2]
        if kind == 'ciphertext':
            good = a is off and b is length(w)
        else:
            good = a is off and n.op == 'int' and b is add(off, n)
        rep.ob(rule, kind, good if a.op == 'int' else None,
               'the %s is taken from %s to %s, but it is at %s' % (kind, show(a, 3), show(b, 3), show(off, 2)))
    if D.block is not None and G.block is not None and D.full:
        n, at = D.block
        rep.ob('blocks have the same size on both sides', where, n == G.block + 1 and at == G.block,
               'blocks of %s bytes with the checksum at %s are read, blocks of %s bytes are written' % (
                   n, at, G.block))
    else:
        rep.ob('blocks have the same size on both sides', where, None)
    if D.full and D.table is not None:
        for a in G.alpha:
            rep.ob('characters are looked up exactly', where,
                   len(D.table) == 256 and all(D.table[c] == i for i, c in enumerate(a)) and
                   all(D.table[c] >= 32 for c in range(256) if c not in a),
                   'the table is not the inverse of the alphabet')
    # the checksums
    marks = [(h, c, at, line) for e, rec, key in line_loops(D.p) for k, k2, evs, b in rec.trans
             for h, c, at, line, v in checks(D.p.E, fresh(rec, k, b))]
    for f in [D.p.facts] + escapes(prog, D.p.fn):
        marks += [(h, c, at, line) for h, c, at, line, v in checks(D.p.E, f)]
    kinds = line_kinds(G)
    found = set()
    for h, chunk, at, line in marks if kinds else ():
        rep.ob('the checksum covers the whole block', where, sound(h, chunk, at),
               'the checksum of a line is not compared with that of all its other bytes')
        vt = table_of(h[1], line)
        rep.ob('the checksum is computed the same way', where,
               None if vt is None else vkey(h, line) in kinds,
               'the checksum a line is expected to have is not one that is written')
        if vt is not None:
            found.add(kinds.get(vkey(h, line)))
            rep.ob('the checksum depends on the line number', where, len(set(vt)) == 256,
                   'different lines have the same checksum')
    rep.ob('the checksum is computed the same way', where, None if not kinds or not marks else
           {'L', 'N'} <= found, 'the checksum of %s line is never accepted' %
           ('a last' if 'L' not in found else 'any but the last'))
    a = [table_of(v, G.line) for v in G.virt.get(True, ())]
    b = [table_of(v, G.line) for v in G.virt.get(False, ())]
    for x in a:
        for y in b:
            rep.ob('the last block is marked', where,
                   None if x is None or y is None else all(m != n for m, n in zip(x, y)),
                   'the checksum of the last line is the same as that of any other line')


def checks(E, facts):
    """[(pearson, chunk, position, index term, truth)] of comparisons of a chunk's byte
    with a checksum."""
    r = []
    for k, v in facts.items():
        if isinstance(k, tuple) or k.op != 'eq':
            continue
        for x, y in (k.a, k.a[::-1]):
            if x.op == 'idx' and x.a[0].op == 'elem' and x.a[0].a[0].op in ('chunks', 'chunksx'):
                h = pearson(E, y)
                if h is not None:
                    c = x.a[0]
                    r.append((h, c, x.a[1], mk('index', c.a[0], c.a[1]), v))
    return r


def line_kinds(G):
    """{a checksum as it is written: L for the last line, N for others}; None if not known."""
    if not getattr(G, 'virt', None) or None in G.virt or len(G.tables) != 1:
        return None
    T = next(iter(G.tables))
    r = {}
    for last in (False, True):
        for v in G.virt.get(last, ()):
            t = table_of(v, G.line)
            if t is None:
                return None
            r[T, tuple(t)] = 'L' if last else 'N'
    return r


def line_loops(p):
    """Loops that compare the checksums of lines, with their comparisons."""
    r = []
    for e in p.events:
        if e.kind == 'loop':
            rec, key = e.extra
            if any(checks(p.E, fresh(rec, k, b)) for k, k2, evs, b in rec.trans):
                r.append((e, rec, key))
    return r


# ------------------------------------------------------------------------ C23
def c23(prog, rep):
    dec = prog.func('recovery_codes', 'decode')
    if dec is None:
        raise Missing('recovery_codes::decode')
    ps = prog.paths(dec)
    D = None
    kinds = written(prog)
    for p in ps:
        if p.result == 'Ok':
            d = take_apart_decode(prog, p, Quiet(), dec)
            if d is not None and d.full:
                D = d
                d.kinds = kinds
                accepted(prog, p, d, rep, dec)
            else:
                rep.ob('an accepted code is understood', dec, None)
    for r in ('every line is verified', 'the last line is marked', 'nothing follows the last line',
              'the version is supported', 'the ciphertext is authenticated',
              'the result is the decrypted text without padding', 'every error has its own report'):
        rep.ob(r, 'overall', None if D is None else True)
    if D is None:
        return
    for p in ps:
        if p.result == 'Err':
            refused(prog, p, D, rep, dec)


class Quiet:
    def ob(self, *a, **k):
        pass


def written(prog):
    """The checksums generate() writes."""
    gen = prog.func('recovery_codes', 'generate')
    for p in prog.paths(gen) if gen else ():
        if p.result == 'Ok':
            g = take_apart_code(prog, p, Quiet(), gen)
            g = g and layout(prog, p, g, Quiet(), gen)
            k = g and line_kinds(g)
            if k:
                return k
    return None


def sets_of(p, kinds):
    """{the comparisons that mark the last line}, {those of other lines}; as pairs of
    table and virtual bytes.  A comparison that generate() does not agree with marks the
    last line if the code can be accepted after it."""
    last, other = set(), set()
    for e, rec, k in line_loops(p):
        for k1, k2, evs, b in rec.trans:
            for h, c, at, line, v in checks(p.E, fresh(rec, k1, b)):
                if v is True:
                    x = vkey(h, line)
                    y = (kinds or {}).get(x) or ('L' if k2 == k else 'N')
                    (last if y == 'L' else other).add(x)
    for h, c, at, line, v in checks(p.E, p.facts):
        x = vkey(h, line)
        if v is True and x not in last | other:
            (last if (kinds or {}).get(x, 'L') == 'L' else other).add(x)
    return last, other


def vkey(h, line):
    t = table_of(h[1], line)
    return (h[0], tuple(t) if t else h[1].id)


def run_lines(p, last, other):
    """What the lines can have been, with the one that was left early."""
    st, step = read_lines(p, last, other)
    if any(v is True for h, c, at, line, v in checks(p.E, p.facts)):
        st = {step(s, p.facts, None) for s in st}
    return st


def read_lines(p, last, other):
    """What the lines read so far can have been: N none is last, L the last one is marked
    as last, X something follows it, B an unverified line."""
    def step(s, f, rec):
        cs = checks(p.E, f)
        hit = [vkey(h, line) for h, c, at, line, v in cs if v is True and
               sound(h, c, at)]
        if s in ('X', 'B'):
            return s
        if s == 'L':
            return 'X'
        if any(x in last for x in hit):
            return 'L'
        if any(x in other for x in hit):
            return 'N'
        return 'B'
    return automaton(p.events, p.facts, {'N'}, step,
                     lambda rec: any(checks(p.E, fresh(rec, k, b)) for k, k2, e, b in rec.trans)), step


def sound(h, c, at):
    """The comparison is one of the line's last byte with the checksum of all others."""
    T, virt, src = h
    n = c.a[0].a[1]
    return src is not None and src.op == 'slice' and src.a[0] is c and src.a[1] is integer(0) and \
        src.a[2] is at and n.op == 'int' and at.op == 'int' and at.a[0] == n.a[0] - 1


def accepted(prog, p, d, rep, where):
    E = p.E
    f = p.facts
    last, other = sets_of(p, d.kinds)
    if not last:
        rep.ob('every line is verified', where, None)
        return
    st = run_lines(p, last, other)
    rep.ob('every line is verified', where, 'B' not in st, 'a line whose checksum does not match is accepted')
    rep.ob('the last line is marked', where, 'N' not in st, 'a code whose last line is not marked is accepted')
    rep.ob('nothing follows the last line', where, 'X' not in st, 'lines after the last one are accepted')
    # all lines have been looked at
    done = [e for e, ff, l, m in p.walk() if e.kind == 'none' and e.name == 'exhausted' and
            find(e.args[0], lambda x: x.op in ('chunks', 'chunksx') and x.a[0] is d.D)]
    full = [e for e in done if e.args[0].a[0].op == 'chunks']
    if full:
        rep.ob('nothing follows the last line', where, True)
    elif done:
        rep.ob('every line is verified', where, False if done[0].args[0].a[0].op != 'chunksx' else None,
               'not all lines are looked at')
    else:
        rel = any(find(k[1] if isinstance(k, tuple) else k, lambda x: x.op == 'index' and
                       x.a[0].op == 'chunks') and not checks(E, {k: v})
                  for k, v in f.items() if not isinstance(k, tuple) and k.op in ('eqz', 'ge0', 'eq'))
        marked = [line for h, c, at, line, v in checks(E, f) if v is True]
        ended = any(x.op == 'index' and x.a[0].op in ('chunks', 'chunksx') and x.a[0].a[0] is d.D and
                    prove(f, sub(scale(add(x, integer(1)), x.a[0].a[1].a[0]), length(d.D)))
                    for x in marked)
        rep.ob('nothing follows the last line', where, True if ended else None if rel else False,
               'what follows the last line is not looked at')
    # all characters have been used
    for c in d.chars or ():
        t = c
        if t.op == 'slice':
            whole = t.a[0]
            k = None
            for kk, v in f.items():
                if not isinstance(kk, tuple) and kk.op == 'eqz' and v is True and kk.a[1] == 0 and \
                        kk.a[0].op == 'rem' and kk.a[0].a[0] is length(whole):
                    k = kk.a[0].a[1]
            n = scale(div(length(whole), k), k.a[0]) if k is not None and k.op == 'int' else None
            good = truth(f, empty(whole)) is True or t.a[1] is integer(0) and (
                t.a[2] is length(whole) or n is not None and t.a[2] is n)
            if good or others(d, p, c):
                rep.ob('nothing follows the last line', where, True if good else None)
            else:
                rep.ob('nothing follows the last line', where, False, 'an incomplete line is ignored')
    # the version
    v = None
    for k, x in f.items():
        if not isinstance(k, tuple) and k.op in ('eqz', 'eq') and x is True:
            for y in k.a:
                if hasattr(y, 'op') and y.op == 'idx' and y.a[0] is d.W and y.a[1] is integer(0):
                    v = k.a[1] if k.op == 'eqz' else 'const'
    rep.ob('the version is supported', where, v == 1, 'the version is not looked at')
    rep.ob('the ciphertext is authenticated', where, variant(f, d.call) == 'Ok',
           'not authenticated')
    judge(rep, 'the ciphertext is authenticated', where, d.pw is arg(2) if d.pw is not None else None, d.pw,
          'the key is not derived from the primary password')
    # the result
    x = vfield(p.val, 'Ok')
    plainx = vfield(d.call, 'Ok')
    rule = 'the result is the decrypted text without padding'
    if x.op == 'vf' and x.a[0].op == 'call' and x.a[0].a[0] in ('str::from_utf8', 'String::from_utf8'):
        x = x.a[0].a[1][0]
    if x is plainx:
        # nothing to strip: the last byte is known not to be zero, or there is none
        rep.ob(rule, where, end_known(E, f, plainx, length(plainx)), 'the padding is not removed')
    elif x.op == 'slice' and x.a[0] is plainx:
        if x.a[1] is not integer(0):
            rep.ob(rule, where, False if plain(x.a[1]) else None, 'the start is removed')
        else:
            e = x.a[2]
            if e.op == 'phi':
                ok = strips(E, e, plainx)
                rep.ob(rule, where, ok, 'other bytes than the padding are removed')
                rep.ob(rule, where, end_known(E, f, plainx, e), 'not all of the padding is removed')
            else:
                c, dd = lin(e)
                if dd == {length(plainx): 1} and c <= 0:
                    rep.ob(rule, where, all(zero_at(f, plainx, add(e, integer(i)), True) for i in range(-c)),
                           'other bytes than the padding are removed')
                    rep.ob(rule, where, end_known(E, f, plainx, e), 'not all of the padding is removed')
                else:
                    rep.ob(rule, where, False if plain(e) else None,
                           'other bytes than the padding are removed')
    else:
        judge(rep, rule, where, False if find(x, lambda y: y is d.call) else None, x, 'is something else')


def others(d, p, c):
    return len(d.chars) > 1


def strips(E, e, x):
    """Does e go down from the length of x only over zero bytes?"""
    if e.a[2] is not length(x):
        return None if not plain(e.a[2]) else False
    for v, f in updates(E, e):
        if v is e:
            continue
        if v is not sub(e, integer(1)):
            return None
        if not zero_at(f, x, v, True):
            # refuse only if nothing is known about the byte at all
            return False
    return True


def zero_at(f, x, i, val):
    t = mk('idx', x, i)
    for k, v in f.items():
        if not isinstance(k, tuple) and k.op == 'eqz' and k.a[0] is t and k.a[1] == 0:
            return v is val
    return False


def end_known(E, f, x, e):
    """At the end of the path the text that ends at e has no padding left."""
    cands = [e]
    for k, v in f.items():
        # e is what the loop left it at
        if not isinstance(k, tuple) and k.op == 'eqz' and v is True and k.a[0].op == 'lin':
            c, d = lin(k.a[0])
            if k.a[1] == 0 and c == 0 and set(d.values()) == {1, -1} and len(d) == 2 and e in d:
                cands += [y for y in d if y is not e]
    for y in cands:
        if zero_at(f, x, sub(y, integer(1)), False):
            return True
        if prove(f, scale(y, -1)):
            return True
    for y in cands:
        # the search stops at a position that is known to be small, and not only at the start
        for n in range(1, 4):
            at1 = assume(f, eq(y, integer(n)), True) if prove(f, sub(integer(n), y)) else None
            if at1 is not None and all(L.closed(k[1] if isinstance(k, tuple) else k) for k in at1):
                return False
    return False if any(find(k[1] if isinstance(k, tuple) else k, lambda y: y.op == 'idx' and y.a[0] is x)
                        for k in f) or e is length(x) and not any(
        x.id in deps(q) for q in E.phiup) else None


def refused(prog, p, D, rep, where):
    E, f = p.E, p.facts
    err = p.error
    rule = 'every error has its own report'
    ev = vfield(p.val, 'Err')
    last, other = sets_of(D.p, D.kinds)
    st = run_lines(p, last, other)
    loops = line_loops(p)
    now = checks(E, f)
    done = any(e.kind == 'none' and e.name == 'exhausted' for e, ff, l, m in p.walk())
    line = field(ev, 'line') if ev.op == 'adt' and 'line' in (ev.a[2] or ()) else None
    bad_now = bool(now) and all(v is False for h, c, at, l, v in now)
    full_now = {vkey(h, l) for h, c, at, l, v in now if v is False} >= (last | other)
    wrong_version = any(not isinstance(k, tuple) and k.op in ('eqz', 'eq') and x is False and any(
        hasattr(y, 'op') and y.op == 'idx' and is_w(y.a[0], E, D) and y.a[1] is integer(0) for y in k.a)
        for k, x in f.items())
    failed = any(isinstance(k, tuple) and k[1].op == 'call' and k[1].a[0] == 'Aead::decrypt' and
                 v == 'Err' for k, v in f.items())
    if err == 'RecoveryCodeChecksumMismatch':
        rep.ob(rule, where, bad_now and full_now if now else None,
               'a checksum mismatch is reported for a line whose checksum matches')
        if now and line is not None:
            rep.ob('the offending line is named', where, line is now[0][3] if plain(line) or
                   line.op in ('index', 'lin') else None, 'names another line')
        return
    if bad_now and full_now and 'L' not in st:
        rep.ob(rule, where, False, 'a wrong checksum is reported as ' + str(err))
    if err == 'RecoveryCodeExtraData':
        rep.ob(rule, where, (bool(st) and st <= {'L', 'X'}) if loops else None,
               'extra data is reported before the last line has been found')
        if line is not None:
            if line.op == 'index' and line.a[0].op == 'chunks':
                rep.ob('the offending line is named', where, st <= {'L'}, 'names another line')
            elif line.op == 'div':
                n = line.a[1]
                rep.ob('the offending line is named', where, any(
                    not isinstance(k, tuple) and k.op == 'eqz' and v is False and k.a[0].op == 'rem' and
                    k.a[0].a[0] is line.a[0] and k.a[0].a[1] is n for k, v in f.items()),
                    'names a line although all lines are complete')
            elif line.op == 'lin' and shifted(line, f):
                rep.ob('the offending line is named', where, False, 'names another line: ' + show(line, 4))
            elif line.op == 'phi' and replaced(E, line):
                rep.ob('the offending line is named', where, False,
                       'the last of the lines with extra data is named, not the first')
            else:
                rep.ob('the offending line is named', where,
                       False if line.op in ('int', 'lin') and not find(line, lambda x: x.op == 'phi') and
                       plain(line) else None, 'names another line: ' + show(line, 4))
        return
    if err == 'RecoveryCodeIncomplete':
        rep.ob(rule, where, (bool(st) and st <= {'N'}) if loops else None,
               'a code whose last line is marked is reported as incomplete')
        return
    if err == 'RecoveryCodeWrongVersion':
        rep.ob(rule, where, wrong_version, 'a wrong version is reported for a supported one')
        return
    if wrong_version:
        rep.ob(rule, where, False, 'a wrong version is reported as ' + str(err))
    if err == 'RecoveryCodeInsufficientData':
        short = any(not isinstance(k, tuple) and k.op == 'ge0' and v is False and
                    find(k, lambda y: y.op == 'len' and is_w(y.a[0], E, D)) for k, v in f.items()) or \
            any(not isinstance(k, tuple) and k.op == 'empty' and v is True for k, v in f.items())
        rep.ob(rule, where, short, 'insufficient data is reported for a code of sufficient length')
        return
    if err == 'DecryptionFailure':
        rep.ob(rule, where, failed, 'a decryption failure is reported without decrypting')
        return
    if failed:
        rep.ob(rule, where, False, 'a failed decryption is reported as ' + str(err))


def shifted(line, f):
    """The number of complete lines and something more or less."""
    return any(
        not isinstance(k, tuple) and k.op == 'eqz' and v is False and k.a[0].op == 'rem' and
        sub(line, d).op == 'int' and k.a[0].a == d.a
        for d in find(line, lambda x: x.op == 'div') for k, v in f.items())


def replaced(E, line):
    """A number of a line found earlier is replaced by a later one."""
    ups = E.phiup.get(line, ())
    if any(v is not line and v.op != 'index' for v, f, r in ups):
        return False
    for v, f, rec in ups:
        if v is line:
            continue
        for k, k2, evs, b in rec.trans:
            if b.facts is f and k == k2 and k != rec.trans[0][0] and \
                    all(L.closed(x[1] if isinstance(x, tuple) else x) for x in f):
                return True
    return False


def is_w(t, E, D):
    return t is D.W or t.op == 'phi' and D.W.op == 'phi' and t.a[1] == D.W.a[1]


RULES = {'C22': c22, 'C23': c23}
