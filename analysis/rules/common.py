"""What the library rules share: writes to the storage, taken apart."""
from terms import *
import terms as TM
import models as M
import lib as L
from lib import SELF, arg, Missing


class Write:
    """One StorageIO::set, remove or clear, taken apart."""

    def __init__(self, w, path, ev, facts, loop, maybe):
        self.path = path
        self.ev = ev
        self.facts = facts
        self.loop = loop
        self.maybe = maybe
        self.name = ev.name.split('::')[-1]
        self.keyterm = ev.args[0] if ev.args else None
        self.key = w.keys(path).parse(self.keyterm) if ev.args else None
        self.value = ev.args[1] if len(ev.args) > 1 else None
        self.cipher = L.parse_cipher(self.value) if self.value is not None else None

    @property
    def kind(self):
        return self.key[0] if self.key else None

    @property
    def plain(self):
        """The plaintext of the stored ciphertext."""
        return self.cipher[2].a[2] if self.cipher else None

    @property
    def record(self):
        """The value whose JSON text is encrypted."""
        t = self.plain
        if t is not None and t.op == 'vf' and t.a[1] == 'Ok':
            t = t.a[0]
        if t is not None and t.op == 'call' and t.a[0] == 'serde_json::to':
            return t.a[1][0]
        return None

    @property
    def span(self):
        return self.ev.span


class World:
    """The library, as the rules see it."""

    def __init__(self, prog, rep):
        self.prog = prog
        self.rep = rep
        self.api = prog.api()
        self.R = L.Roles(prog)
        if not self.R.complete:
            raise Missing('fields of Passwords that hold the key, the HMAC secret and the primary password')
        self.rec = L.Records(prog)
        self._writes = {}

    def need(self, *names):
        for n in names:
            if n not in self.api:
                raise Missing('Passwords::' + n)

    def paths(self, name, **kw):
        self.need(name)
        return self.prog.paths(self.api[name], **kw)

    def keys(self, path):
        return L.Keys(self.hm_terms(path))

    def hm_terms(self, path):
        r = {self.R.HM}
        for e, f, l, m in path.all('rand'):
            if e.args and e.args[0] is integer(32):
                r.add(e.res)
        return r

    def writes(self, p, names=('set', 'remove', 'clear')):
        if p not in self._writes:
            self._writes[p] = [Write(self, p, e, f, l, m) for e, f, l, m in p.all('effect')]
        return [w for w in self._writes[p] if w.name in names]

    def outcomes(self, p):
        """('Ok' | 'Err' | 'panic' | 'value' ..., facts) for the ways the path ends."""
        return outcomes(self.prog, p)

    def is_mut(self, name):
        b = self.prog.body(self.api[name])
        return b['argc'] > 0 and b['locals'][1]['ty'].startswith('&mut')

    # ------------------------------------------------------------- site names
    def site_key_of(self, hm_names, s):
        pass

    def site_loads(self, p, facts, n):
        """Loads of the site entry of n on the path: (read event, record term)."""
        ks = self.keys(p)
        for e, f, l, m in p.walk():
            if e.kind == 'read' and e.name == 'StorageIO::get':
                k = ks.parse(e.args[1])
                if k and k[0] == 'site' and k[2] is n:
                    yield e

    def alias_of(self, p, t):
        """n if t is the alias in the record loaded from the site entry of n."""
        if not (t.op == 'vf' and t.a[1] == 'Some'):
            return None
        rec = self.record_with('Site', 'alias', t.a[0])
        if rec is None:
            return None
        return self.loaded_site(p, rec)

    def record_with(self, ty, fieldname, t):
        """x if t is that field of x."""
        ft = self.rec.F[ty, fieldname]
        if ft is None or ft.op != 'f' or ft.a[0] is not SELF:
            return None
        if t.op == 'f' and t.a[1] == ft.a[1]:
            return t.a[0]
        return None

    def loaded_site(self, p, rec):
        """n if rec is the record loaded from the site entry of n."""
        s = L.load_of(rec)
        if s is None:
            return None
        k = self.keys(p).parse(s[1])
        if k and k[0] == 'site':
            return k[2]
        return None

    def no_alias(self, p, facts, n):
        """Was the site entry of n looked up and found to have no alias (or to be
        missing or unreadable)?"""
        for e in self.site_loads(p, facts, n):
            g = e.res
            if variant(facts, g) == 'Err':
                return True
            content = vfield(g, 'Ok')
            found = False
            for k, v in facts.items():
                t = k[1] if isinstance(k, tuple) else k
                if content.id not in deps(t):
                    continue
                if isinstance(k, tuple):
                    if v == 'Some' and self.record_with('Site', 'alias', t) is not None:
                        return False
                    if v in ('Err', 'None') and not find(t, lambda x: x.op == 'hmac' and
                                                         content.id in deps(x)):
                        found = True
                elif v is False and t.op in ('eqz', 'eq', 'ge0', 'call'):
                    # wrong length, separator not found
                    found = True
            if found:
                return True
        return False

    def normalized(self, facts, t, x):
        return L.norm_site(facts, t, x)

    def resolved(self, p, facts, t, x):
        """Is t the site that x stands for: x without www., redirected by its alias?"""
        n = self.alias_of(p, t)
        if n is not None and L.norm_site(facts, n, x):
            return True
        if L.norm_site(facts, t, x):
            return self.no_alias(p, facts, t)
        return False


def outcomes(prog, p):
    if p.kind != 'ret':
        yield p.kind, p.facts
        return
    v = variant(p.facts, p.val)
    if v in ('Ok', 'Err'):
        yield v, p.facts
        return
    b = prog.body(p.fn)
    ty = b['locals'][0]['ty'] if b else ''
    if 'Result<' in ty.split('::')[-1] or ty.startswith('std::result::Result<') or \
            ty.startswith('core::result::Result<'):
        for n in ('Ok', 'Err'):
            f = assume_variant(p.facts, p.val, n)
            if f is not None:
                yield n, f
        return
    yield v or 'value', p.facts


# ---------------------------------------------------------------- dirty dataflow
def run_events(events, facts, state, step):
    """Forward dataflow of a set-valued state over a path's history.
    step(event, facts, state) -> state; states are frozensets."""
    for e in events:
        if e.kind == 'loop':
            rec, key = e.extra
            cur = state
            while True:
                new = cur
                for k, k2, evs, b in rec.trans:
                    new = new | run_events(evs, b.facts, cur, step)
                if new == cur:
                    break
                cur = new
            state = cur
        elif e.kind == 'alt':
            new = frozenset()
            for l in e.extra:
                new = new | run_events(l, facts, state, step)
            state = new
        else:
            state = step(e, facts, state)
    return state


def certain(events, pred):
    """Does an event for which pred holds occur on every way through?"""
    for e in events:
        if e.kind == 'loop':
            first = L.first_passes(e)
            if first and all(certain(t[2], pred) for t in first):
                return True
            continue
        if e.kind == 'alt':
            if e.extra and all(certain(l, pred) for l in e.extra):
                return True
        elif pred(e):
            return True
    return False


def is_result(ty):
    return ty.startswith('std::result::Result<') or ty.startswith('core::result::Result<') or \
        ty.startswith('Result<')


def alts(v):
    """The alternatives a merged value stands for."""
    if v.op == 'choice':
        for x in v.a[0]:
            yield from alts(x)
    elif v.op == 'adt' and len(v.a[3]) == 1 and v.a[3][0].op == 'choice':
        for x in alts(v.a[3][0]):
            yield mk('adt', v.a[0], v.a[1], v.a[2], (x,))
    else:
        yield v


def uncovered(E, q, panics=()):
    """Conditions on the element of a pass that every recorded pass of the loop that
    fills q satisfies, although the other passes go on: those leave the element out."""
    vals = {}
    ups = [(v, f) for v, f, r in E.phiup.get(q, ())]
    sites = set()
    for v, f in ups:
        for x in subterms(v):
            if x.op in ('elem', 'index'):
                sites.add(x.a[1])
    for v, f in ups:
        for k, x in f.items():
            t = k[1] if isinstance(k, tuple) else k
            if find(t, lambda y: y.op in ('elem', 'index') and y.a[1] in sites):
                vals.setdefault(k, set()).add(x)
    r = []
    for k, xs in vals.items():
        if len(xs) != 1:
            continue
        x = next(iter(xs))
        if any(k in pf and pf[k] != x for pf in panics):
            continue
        t = k[1] if isinstance(k, tuple) else k
        if t.op == 'ge0' and prove({}, t.a[0]):
            continue
        r.append((k, x))
    return r


# ------------------------------------------------------- terms on given values
def value_of(t, env):
    """What a term is for given values of its parts (text or int); None: not known."""
    if t in env:
        return env[t]
    op = t.op
    if op == 'int':
        return t.a[0]
    if op == 'str':
        return t.a[0]
    if op == 'const' and t.a[1] in (True, False):
        return t.a[1]
    if op == 'cat':
        xs = [value_of(x, env) for x in t.a]
        return ''.join(xs) if all(isinstance(x, str) for x in xs) else None
    if op in ('lower', 'upper', 'disp', 'len', 'empty', 'not'):
        x = value_of(t.a[0], env)
        if x is None:
            return None
        if op == 'disp':
            return str(x)
        if op == 'not':
            return not x
        if not isinstance(x, str):
            return None
        return x.lower() if op == 'lower' else x.upper() if op == 'upper' else \
            len(x.encode()) if op == 'len' else not x
    if op == 'cast':
        x = value_of(t.a[2], env)
        n = {'u8': 8, 'u16': 16, 'u32': 32}.get(t.a[0])
        return x & (1 << n) - 1 if isinstance(x, int) and n else x
    if op == 'lin':
        r = t.a[0]
        for x, k in t.a[1]:
            v = value_of(x, env)
            if not isinstance(v, int):
                return None
            r += k * v
        return r
    if op in ('eqz', 'eq', 'ge0'):
        a = value_of(t.a[0], env)
        b = t.a[1] if op == 'eqz' else value_of(t.a[1], env) if op == 'eq' else 0
        return None if a is None or b is None else a == b if op != 'ge0' else a >= b
    if op in ('rem', 'div', 'bitand', 'bitor', 'shr', 'shl'):
        a, b = (value_of(x, env) for x in t.a)
        if not isinstance(a, int) or not isinstance(b, int) or op in ('rem', 'div') and b <= 0:
            return None
        return {'rem': lambda: a % b, 'div': lambda: a // b, 'bitand': lambda: a & b,
                'bitor': lambda: a | b, 'shr': lambda: a >> b, 'shl': lambda: a << b}[op]()
    if op == 'call':
        xs = [value_of(x, env) for x in t.a[1]]
        if None in xs or not xs or not all(isinstance(x, str) for x in xs):
            return None
        n = t.a[0]
        F = {'str::starts_with': str.startswith, 'str::ends_with': str.endswith,
             'str::contains': lambda a, b: b in a, 'str::trim': str.strip,
             'str::trim_start': str.lstrip, 'str::trim_end': str.rstrip,
             'str::eq_ignore_ascii_case': lambda a, b: a.lower() == b.lower()}
        return F[n](*xs) if n in F else None
    return None
