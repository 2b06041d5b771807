"""Paths through the functions of the tree, and the vocabulary of the rules."""
import json
import os
import re
import sys
import time
from terms import *
import terms as TM
import engine as EN
from engine import Engine, Ev, hlist, C, Frame
import models as M
import extract as X
import cli as CLI

SELF = mk('param', 'arg1')


def arg(i):
    return mk('param', 'arg%d' % i)


class Path:
    """One way through a function: how it ends, what it knows, what it did."""

    def __init__(self, fn, kind, st, val, engine):
        self.fn = fn
        self.kind = kind
        self.st = st
        self.val = val
        self.facts = st.facts
        self.E = engine
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = hlist(self.st.hist)
        return self._ev

    @property
    def result(self):
        """'Ok', 'Err', 'Some', ... of the returned value."""
        if self.kind != 'ret':
            return self.kind
        return variant(self.facts, self.val) or 'value'

    @property
    def error(self):
        if self.kind == 'ret' and variant(self.facts, self.val) == 'Err':
            e = vfield(self.val, 'Err')
            return variant(self.facts, e)
        return None

    def self_after(self, i=1):
        return self.st.mem.get(('root', i))

    def walk(self, events=None, facts=None, loop=None, maybe=False):
        """(event, facts at the end of its path, loop, may be skipped)."""
        events = self.events if events is None else events
        facts = self.facts if facts is None else facts
        for e in events:
            if e.kind == 'loop':
                rec, key = e.extra
                first = first_passes(e)
                sure = first[0] if len(first) == 1 else None
                for t in rec.trans:
                    k, k2, evs, b = t
                    yield from self.walk(evs, b.facts, rec, maybe if t is sure else True)
            elif e.kind == 'alt':
                for l in e.extra:
                    yield from self.walk(l, facts, loop, True)
            else:
                yield e, facts, loop, maybe

    def all(self, kind=None, name=None):
        for e, f, l, m in self.walk():
            if (kind is None or e.kind == kind) and (name is None or e.name == name):
                yield e, f, l, m

    def where(self):
        return self.fn


def first_passes(e):
    """The first pass through a loop, one of these, if it is certainly made: the
    loop is left in another state than it was entered in."""
    rec, key = e.extra
    return [t for t in rec.trans if t[0] == rec.entry] if key != rec.entry else []


class Program:
    def __init__(self, crates):
        self.crates = crates
        self.cache = {}
        for d in crates.values():
            # local types of one function may share a name
            n = {}
            for b in d['bodies']:
                i = n[b['name']] = n.get(b['name'], -1) + 1
                if i:
                    b['name'] += '~%d' % i
        self.stats = {'functions': set(), 'paths': 0, 'calls': 0, 'loops': 0, 'blocks': 0,
                      'merges': 0, 'opaque': set()}

    def names(self, crate, pred):
        return [b['name'] for b in self.crates[crate]['bodies'] if pred(b)]

    def body(self, name):
        for d in self.crates.values():
            for b in d['bodies']:
                if b['name'] == name:
                    return b
        return None

    def engine(self, crate, anchors=None):
        return Engine(self.crates, crate, anchors)

    def paths(self, name, anchors=None, facts=None, crate=None, args=None, limit=None, trace=False):
        key = (name, anchors, repr(facts) if facts else None, args, trace)
        if key in self.cache:
            return self.cache[key]
        E = self.engine(crate or name.split('#')[0], anchors)
        if limit:
            E.ret_limit = limit
        E.trace = trace
        outs = E.analyze(name, facts=facts, args=args)
        self.absorb(E)
        r = [Path(name, k, s, v, E) for k, s, v in outs]
        self.stats['paths'] += len(r)
        self.cache[key] = r
        return r

    def absorb(self, E):
        for k in ('functions', 'opaque'):
            self.stats[k] |= E.stats[k]
        for k in ('calls', 'loops', 'blocks', 'merges'):
            self.stats[k] += E.stats[k]

    def pull(self, p, it=None):
        """Paths that produce one element of the iterator a path returns."""
        E = p.E
        v = it if it is not None else E.read(p.st, p.val)
        c = C()
        body = E.bodies[p.fn]
        c.fr = Frame(body, 0, (), E.cfg(body))
        c.site = p.fn + '#pull'
        c.span = body['sp']
        c.key = c.path = c.orig = 'pull'
        c.gargs = ()
        c.retty = ''
        E.cur = c
        st = p.st.fork()
        v = M.as_it(v)
        v = mk('it', v.a[0], v.a[1], '*')
        return [Path(p.fn, k, s, x, E) for k, s, x in M.pull(E, st, v, c.site)]

    # ----------------------------------------------------------- library API
    def api(self):
        """Public methods of Passwords."""
        r = {}
        for b in self.crates['pfp']['bodies']:
            if (b.get('self_ty') or '').startswith('passwords::Passwords<') and b['pub'] and \
                    '{closure' not in b['name'] and not b.get('trait') and b['kind'] == 'AssocFn':
                r[b['name'].split('::')[-1]] = b['name']
        return r

    def method(self, ty, name, crate='pfp'):
        """Body name of a method of a type (by its public name)."""
        for b in self.crates[crate]['bodies']:
            if '{closure' in b['name'] or b.get('virtual') or 'promoted' in b['name']:
                continue
            if b['name'].split('::')[-1] == name and \
                    re.search(r'(^|::)%s(<|$)' % ty, b.get('self_ty') or ''):
                return b['name']
        return None

    def impl(self, trait, ty, name, crate='pfp'):
        for b in self.crates[crate]['bodies']:
            if b.get('trait') and '{closure' not in b['name'] and \
                    b['name'].split('::')[-1] == name and \
                    re.search(r'(^|::)%s(<|$)' % trait, b['trait']) and \
                    re.search(r'(^|::)%s(<|$)' % ty, b.get('self_ty') or ''):
                return b['name']
        return None

    def func(self, mod, name, crate='pfp'):
        n = '%s#%s::%s' % (crate, mod, name) if mod else '%s#%s' % (crate, name)
        for b in self.crates[crate]['bodies']:
            if b['name'] == n:
                return n
        return None


class Missing(Exception):
    """Something the rules start from is no longer there."""


# ------------------------------------------------------------------------ roles
class Roles:
    """Which private fields hold the key, the HMAC secret, the primary password
    and the storage, found from what unlock() puts where."""

    def __init__(self, prog):
        self.prog = prog
        api = prog.api()
        if 'unlock' not in api:
            raise Missing('Passwords::unlock')
        self.key = self.hmac = self.primary = None
        self.unlock_written = set()
        for p in prog.paths(api['unlock']):
            if p.result != 'Ok':
                continue
            after = p.self_after()
            if after.op != 'upd':
                continue
            for n, v in after.a[1]:
                self.unlock_written.add(n)
                x = vfield(v, 'Some')
                if x.op == 'scrypt':
                    self.key = n
                elif x is arg(2):
                    self.primary = n
                elif find(x, lambda t: t.op == 'call' and t.a[0] == 'Aead::decrypt'):
                    self.hmac = n
        self.io = None
        for p in prog.paths(api['unlock']):
            for e, f, l, m in p.all('read'):
                self.io = e.args[0]
        self.complete = None not in (self.key, self.hmac, self.primary, self.io)

    def val(self, n, s=None):
        return vfield(field(s if s is not None else SELF, n), 'Some')

    @property
    def KEY(self):
        return self.val(self.key)

    @property
    def HM(self):
        return self.val(self.hmac)

    @property
    def PP(self):
        return self.val(self.primary)

    def locked_facts(self):
        f = {}
        for n in (self.key, self.hmac, self.primary):
            f = assume_variant(f, field(SELF, n), 'None')
        return f


def getter(prog, ty, name):
    """Field path that an accessor returns: a function value -> term."""
    n = prog.method(ty, name)
    if n is None:
        raise Missing('%s::%s' % (ty, name))
    return n


class Records:
    """Accessors of the public record types as term constructors."""

    def __init__(self, prog):
        self.prog = prog
        self.F = {}
        for ty, names in (('Site', ('name', 'alias')), ('PasswordId', ('site', 'name', 'revision')),
                          ('GeneratedPassword', ('id', 'length', 'charset', 'notes')),
                          ('StoredPassword', ('id', 'password', 'notes'))):
            for n in names:
                b = prog.method(ty, n)
                if b is None:
                    raise Missing('%s::%s' % (ty, n))
                vals = {p.val for p in prog.paths(b) if p.kind == 'ret'}
                self.F[ty, n] = self.common(vals)

    def common(self, vals):
        # an accessor that maps Some(x) to Some(x) is the field itself
        vs = set()
        for v in vals:
            if v.op == 'adt' and v.a[1] == 'Some' and v.a[3][0].op == 'vf':
                v = v.a[3][0].a[0]
            if v.op == 'adt' and v.a[1] == 'None':
                continue
            vs.add(v)
        return vs.pop() if len(vs) == 1 else None

    def get(self, ty, n, x):
        t = self.F[ty, n]
        if t is None:
            return None
        return subst(t, SELF, x)


def subst(t, a, b):
    """t with the field chain rooted at a moved to b."""
    if t is a:
        return b
    if t.op == 'f':
        return field(subst(t.a[0], a, b), t.a[1])
    if t.op == 'vf':
        return vfield(subst(t.a[0], a, b), t.a[1], t.a[2])
    return t


# ------------------------------------------------------------ shape of the data
OPAQUE_OPS = {'undef', 'unk', 'opaque', 'out', 'default', 'upd2', 'agg', 'un', 'bin', 'fmt'}


def closed(t):
    """Is the value fully understood?  (No result of code the models do not
    describe is in it.)"""
    for x in value_terms(t):
        if x.op in OPAQUE_OPS or x.op == 'call' and x.a[2] is not None:
            return False
    return True


def value_terms(t, E=None, seen=None):
    """Subterms that make up a value; loop contexts are not part of it."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'loopctx':
            continue
        seen.add(x.id)
        yield x
        st.extend(kids(x))
        if x.op == 'phi' and E is not None:
            st.extend(v for v, f, r in E.phiup.get(x, ()))


class Keys:
    """Storage keys, taken apart."""

    def __init__(self, hm):
        self.hm = hm

    def digest(self, t, hm=None):
        """text of b64(hmac(secret, text))"""
        if t.op == 'b64' and t.a[0].op == 'hmac' and t.a[0].a[0] in (hm or self.hm):
            return t.a[0]
        return None

    def parse(self, k):
        """('fixed', text) | ('site', S) | ('password', S, data) | None"""
        ps = parts(k)
        if len(ps) == 1 and ps[0].op == 'str':
            return ('fixed', ps[0].a[0])
        if not ps or ps[0].op != 'str':
            return None
        pre = ps[0].a[0]
        if len(ps) == 2:
            d = self.digest(ps[1])
            if d is not None:
                return ('site', pre, d.a[1], d)
        if len(ps) == 4 and ps[2].op == 'str':
            d, d2 = self.digest(ps[1]), self.digest(ps[3])
            if d is not None and d2 is not None:
                return ('password', pre, d.a[1], ps[2].a[0], d2.a[1], d, d2)
        return None


def split_nul(t):
    """Pieces of a text separated by NUL."""
    out = [[]]
    for p in parts(t):
        if p.op == 'item' and p.a[0].op == 'str' and p.a[0].a[0] == '\0':
            out.append([])
        elif p.op == 'str' and '\0' in p.a[0]:
            xs = p.a[0].split('\0')
            if xs[0]:
                out[-1].append(string(xs[0]))
            for x in xs[1:]:
                out.append([string(x)] if x else [])
        else:
            out[-1].append(p)
    return [cat(*x) for x in out]


def parse_cipher(v):
    """(nonce, enc term) of a stored ciphertext b64(nonce) '_' b64(ciphertext)."""
    ps = parts(v)
    if len(ps) == 3 and ps[0].op == 'b64' and ps[1].op == 'str' and ps[2].op == 'b64' and \
            ps[2].a[0].op == 'enc':
        return ps[0].a[0], ps[1].a[0], ps[2].a[0]
    return None


def norm_site(facts, t, x):
    """Is t the name x without one leading 'www.'?"""
    w = mk('call', 'str::starts_with', (x, string('www.')), None)
    k = truth(facts, w)
    if t is x:
        return k is False
    if t is M.slice_(x, integer(4), length(x)):
        return k is True
    return False


def normal_forms(x):
    return x, M.slice_(x, integer(4), length(x))


def load_of(t):
    """(io, key) if t is the parsed, decrypted content of a storage entry:
    Ok(from(Ok(decrypt(cipher, nonce, ciphertext))))."""
    if t.op == 'vf' and t.a[1] == 'Ok':
        t = t.a[0]
    if not (t.op == 'call' and t.a[0] == 'serde_json::from'):
        return None
    d = t.a[1][0]
    if not (d.op == 'vf' and d.a[1] == 'Ok' and d.a[0].op == 'call' and
            d.a[0].a[0] == 'Aead::decrypt'):
        return None
    return decrypt_source(d.a[0])


def decrypt_source(d):
    """(io, key of the entry, cipher) of a decryption of a complete stored value."""
    ci, nonce, ct = d.a[1]

    def b64of(x):
        if x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call' and x.a[0].a[0] == 'base64::decode':
            return x.a[0].a[1][0]
        return None
    n, c2 = b64of(nonce), b64of(ct)
    if n is None or c2 is None:
        return None
    if n.op == 'b64' and c2.op == 'b64':
        return None
    if n.op == 'slice' and c2.op == 'slice' and n.a[0] is c2.a[0]:
        src = n.a[0]
        i = n.a[2]
        if n.a[1] is integer(0) and i.op == 'vf' and i.a[0].op == 'call' and \
                i.a[0].a[0] == 'str::find' and i.a[0].a[1][0] is src and \
                c2.a[1] is add(i, length(i.a[0].a[1][1])) and c2.a[2] is length(src):
            if src.op == 'vf' and src.a[1] == 'Ok' and src.a[0].op == 'call' and \
                    src.a[0].a[0] == 'StorageIO::get':
                return src.a[0].a[1][0], src.a[0].a[1][1], ci, i.a[0].a[1][1]
    return None


def base_io(io):
    while io.op.startswith('io.'):
        io = io.a[0]
    return io


# ---------------------------------------------------------------------- reports
def clean(s):
    s = re.sub(r'[\w:<>#, ]*#(\d+)[@*]?\d*\b', '', s)
    return s


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}
        self.violations = []
        self.undecided = []
        self.samples = []
        self.instances = {}
        self.t0 = time.time()

    def ob(self, rule, where, ok, msg='', span=None):
        """One obligation: ok is True, False or None (not decided)."""
        r = self.rules.setdefault(rule, {'instances': 0, 'hold': 0, 'undecided': 0, 'violated': 0})
        r['instances'] += 1
        self.instances.setdefault(rule, set()).add(where)
        if ok is True:
            r['hold'] += 1
        elif ok is None:
            r['undecided'] += 1
            if len(self.undecided) < 20:
                self.undecided.append({'rule': rule, 'where': where, 'detail': msg[:300]})
        else:
            r['violated'] += 1
            key = '%s: %s: %s' % (rule, fname(where), keytext(msg))
            if all(v['key'] != key for v in self.violations):
                self.violations.append({'key': key, 'rule': rule, 'where': where, 'detail': msg,
                                        'span': span or ''})
        return ok

    def want(self, rule, where, cond, value, msg, span=None):
        """cond must hold for the value; a value that is not fully understood
        is not judged."""
        if cond:
            return self.ob(rule, where, True)
        if value is not None and not closed(value):
            return self.ob(rule, where, None, msg + ': ' + show(value, 6))
        return self.ob(rule, where, False, msg + (': ' + show(value, 7) if value is not None else ''),
                       span)

    def floor(self, rule, n):
        have = len(self.instances.get(rule, ()))
        if have < n:
            self.ob('coverage', rule, False,
                    'rule "%s" applies to fewer places than it must (%d instead of at least %d)'
                    % (rule, have, n))


def fname(w):
    return re.sub(r'^\w+#', '', w)


def keytext(m):
    m = m.split(': ')[0] if len(m) > 160 else m
    return re.sub(r'\S+#\S*', '', m)
