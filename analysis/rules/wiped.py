"""Plaintext copies of secrets live in wiping containers (C17)."""
import re
import engine
import lib as L
from lib import arg
from terms import *
from rules.cmd import Cli, NAMES
from rules.shown import secret_of
from rules.leaks import typed, kind

# Containers on the heap that nothing wipes.
PLAIN = re.compile(r"^(std::(string::String|vec::Vec<(u8|char|u16|u32|std::string::String)>|ffi::(OsString|CString)|"
                   r"(boxed::Box|rc::Rc|sync::Arc)<(str|\[u8\])>|vec::IntoIter<(u8|char)>|string::FromUtf8Error))$")
STOP = {'len', 'empty', 'isutf8', 'eq', 'eqz', 'ge0', 'lt', 'utf8error', 'setin', 'hmac', 'hash', 'sha256', 'enc',
        'cipher', 'ovf', 'loopctx', 'closure', 'exists', 'params', 'cap', 'ty', 'keys', 'fn'}
THROUGH = re.compile(r'^(str|String|char|\[T\]|Vec|u8|slice|Cow|Iterator|Index|AsRef|ToString|fmt|Arguments|'
                     r'Option|Result|format|base64|PathBuf|Path|OsString|serde_json|Serialize|From|Into)::|^b64|^join$')
# Functions that put what they are given into what they return.
KEEPS = re.compile(r'^(Secret|Option|Result|Some|Ok|Err|Wrapping|ControlFlow|Poll|FromResidual|Try)::|'
                   r'::(from_utf8|into_bytes|into_boxed_\w+|into_string|into|from|try_into|try_from|into_iter|'
                   r'into_inner|replace|swap|unwrap\w*|expect|branch|from_residual|from_output|into_vec|add|'
                   r'from_utf8_unchecked|map|filter|chain|zip|enumerate|rev|map_err|by_ref|get_or_insert\w*|insert|'
                   r'push|call|call_once|call_mut|with_exposed_secret|zeroize)$|^closure')
DROPS = re.compile(r'^(mem::drop|mem::forget|mem::take|base64::(en|de)code|fs::write|Aead::\w+|from_slice|str::from_utf8|'
                   r'HashMap::remove|String::clear|Iterator::(collect|fold|for_each|count|last|any|all)|'
                   r'IntoIterator::collect|serde_json::.*|Write::\w+|Command::\w+|io::\w+)')
GROWS = re.compile(r'^(String|Vec|Extend|Write|VecDeque)::(push|push_str|insert|insert_str|extend\w*|append|resize\w*|'
                   r'write_str|write_char|write_fmt|write_all|write|reserve\w*|splice|replace_range)$|^Add::add$|'
                   r'^AddAssign::add_assign$')
FIXED = re.compile(r'::(with_capacity|with_capacity_in|from_elem|from_fn)$')
EXACT = re.compile(r'::(new|default|to_vec|to_owned|to_string|clone|from|into|into_vec|collect|from_utf8|decode|encode|'
                   r'into_bytes|repeat|concat|join|replace|into_owned|deserialize|unwrap\w*|branch|from_iter)$')


def root(t):
    names = []
    while t.op in ('vf', 'f', 'upd', 'idx', 'elem', 'item', 'elt'):
        if t.op == 'upd':
            t = t.a[0]
            continue
        if t.op == 'f':
            names.append(t.a[1])
        if t.op == 'vf' and len(t.a) > 2:
            names.append(t.a[2])
        if t.op == 'vf' and t.a[1] in ('Ok', 'Some') and t.a[0].op == 'call':
            return t.a[0], names
        t = t.a[0]
    return t, names


class Ctx:
    def __init__(self, own=(), entries=()):
        self.own = set(own)             # values that are secrets
        self.entries = set(entries)     # values with secret fields
        self.more = set()               # what is encrypted, or wrapped

    def secret(self, x):
        if x in self.own or x in self.more:
            return 'secret'
        if x.op == 'scrypt':
            return 'derived key'
        s = secret_of(x)
        if s:
            return s
        if typed(x):
            return 'typed input'
        if x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call':
            n = x.a[0].a[0]
            if n == 'Aead::decrypt':
                return 'decrypted data'
            if n.startswith('serde_json::from') and find(x, lambda z: z.op == 'call' and z.a[0] == 'Aead::decrypt'):
                return 'decrypted data'
            if n == 'Deserialize::deserialize' and 'deserialize' in self.own:
                return 'secret'
        return None

    def find(self, t, E=None):
        """The secrets that this value contains."""
        r, st, seen = [], [t], set()
        while st:
            x = st.pop()
            if x.id in seen or x.op in STOP:
                continue
            seen.add(x.id)
            if x.op in ('f', 'vf', 'upd'):
                y, names = root(x)
                e = y.op == 'call' and y.a[0].startswith('serde_json::from') or y in self.entries
                names = [z for z in names if z != '0']
                if e and names and not set(names) & {'password', 'notes'}:
                    continue
                if e and names and set(names) & {'password', 'notes'}:
                    r.append(('decrypted data', x))
                    continue
            s = self.secret(x)
            if s:
                r.append((s, x))
                continue
            if x.op == 'call' and not THROUGH.match(x.a[0]) or \
                    x.op == 'out' and x.a[0].op == 'call' and not THROUGH.match(x.a[0].a[0]) or \
                    x.op == 'vf' and x.a[1] == 'Err' and x.a[0].op == 'call':
                continue
            st.extend(kids(x))
            if x.op == 'phi' and E is not None:
                st.extend(v for v, f, rec in E.phiup.get(x, ()))
        return r


def split(ty):
    """Type arguments of a type."""
    i = ty.find('<')
    if i < 0 or not ty.endswith('>'):
        return []
    r, d, c = [], 0, ''
    for ch in ty[i + 1:-1]:
        d += (ch in '<([{') - (ch in '>)]}')
        if ch == ',' and d == 0:
            r.append(c.strip())
            c = ''
        else:
            c += ch
    return [x for x in r + [c.strip()] if x and not x.startswith("'")]


def leaves(E, crate, ty, v, depth=0):
    """The plain containers in a value of this type: (type, value)."""
    ty = ty.strip()
    if PLAIN.match(ty):
        return [(ty, v)]
    if depth > 4 or ty.startswith(('&', '*', 'secrecy::', 'fn')):
        return []
    r = []
    if ty.startswith('std::option::Option<'):
        if not (v.op == 'adt' and v.a[1] == 'None'):
            for x in split(ty)[:1]:
                r += leaves(E, crate, x, vfield(v, 'Some'), depth + 1)
        return r
    if ty.startswith('std::result::Result<'):
        a = split(ty)
        for n, x in zip(('Ok', 'Err'), a):
            if not (v.op == 'adt' and v.a[1] != n):
                r += leaves(E, crate, x, vfield(v, n), depth + 1)
        return r
    if ty.startswith('(') and ty.endswith(')'):
        for i, x in enumerate(split('<' + ty[1:-1] + '>')):
            r += leaves(E, crate, x, field(v, str(i)), depth + 1)
        return r
    n = re.sub(r'<.*>$', '', ty)
    a = E.adts.get(crate + '#' + n) or E.adts.get(re.sub(r'^pfp::', 'pfp#', n))
    if a is None:
        return r
    for vs in a['vs']:
        if a['enum'] and v.op == 'adt' and v.a[1] != vs['n']:
            continue
        for f in vs['f']:
            x = vfield(v, vs['n'], f['n']) if a['enum'] else field(v, f['n'])
            r += leaves(E, a['path'].split('#')[0], f['ty'], x, depth + 1)
    return r


class Watch:
    def __init__(self):
        self.items = []
        self.seen = set()

    def __call__(self, E, kind, fr, st, t, v, sp, fv):
        if kind == 'drop':
            ty = t
            if not ty or ty.startswith(('&', 'secrecy::')) or len(ty) < 3:
                return
            v = E.deep(st, v)
            if truth(st.facts, empty(v)) is True:
                return
            k = ('drop', fr.name, sp, ty, v.id)
            if k not in self.seen:
                self.seen.add(k)
                self.items.append(('drop', fr, sp, ty, v, E, None))
            return
        key = engine.key_of(fv.a[0], fv.a[1])
        local = E.resolve(fv.a[0], fv.a[1]) is not None
        for i, (a, x) in enumerate(zip(t['a'], v)):
            ty = (a.get('p') or {}).get('ty') or ''
            grow = i == 0 and GROWS.match(key) and (ty.startswith('&mut std::') or key == 'Add::add')
            if a['o'] != 'move' and not grow:
                continue
            if grow:
                x = E.deep(st, x)
                k = ('grow', fr.name, sp, ty, x.id, st.id if hasattr(st, 'id') else 0) + tuple(
                    y.id for y in v[1:])
                if k not in self.seen:
                    self.seen.add(k)
                    how = provenance(fr.body, a)
                    if isinstance(how, tuple):
                        how = 'fixed' if room(E, fr, st, key, x, v[1:], how[1]) else 'short'
                    self.items.append(('grow', fr, sp, key, x, E, how))
            elif not local and not ty.startswith('&') and (PLAIN.match(ty) or 'Secret<' in ty):
                x = E.deep(st, x)
                k = ('call', key, fr.name, sp, ty, x.id)
                if k not in self.seen:
                    self.seen.add(k)
                    self.items.append(('call', fr, sp, ty, x, E, key))


def room(E, fr, st, key, x, args, cap):
    """False if the buffer cannot hold what is added to it."""
    c = E.deep(st, E.operand(fr, st, cap))
    m = key.split('::')[-1]
    a = E.deep(st, args[0]) if args else None
    if a is None:
        return True
    if m.startswith('resize'):
        n = a
    elif m == 'push' and key.startswith('Vec'):
        n = add(length(x), integer(1))
    elif m in ('push_str', 'extend_from_slice'):
        n = add(length(x), length(a))
    elif m.startswith('reserve'):
        n = add(length(x), a)
    else:
        n = length(x)                   # has already grown
    d = sub(sub(n, c), integer(1))
    return truth(st.facts, ge0(d)) is not True and not boundless(st.facts, d)


def boundless(facts, d):
    """Whether d can be as large as the user makes the text it is the length of."""
    ts = lin(d)[1]
    free = [t for t, k in ts.items() if k > 0 and t.op == 'len' and root(t.a[0])[0].op == 'arg']
    return bool(free) and all(k > 0 or t.op == 'rem' for t, k in ts.items()) and \
        not any(f.op == 'ge0' and set(lin(f.a[0])[1]) & set(free) for f in facts if hasattr(f, 'op'))


def provenance(body, a, seen=()):
    """How the buffer was created: 'fixed', ('cap', operand), 'exact' or None."""
    p = a.get('p')
    if p is None:
        return None
    l, pj = p['l'], p['pj']
    if l in seen or l <= body['argc'] or any(x.get('p') not in ('deref',) for x in pj):
        return None
    r, caps = set(), []

    def up(o):
        x = provenance(body, o, seen + (l,))
        if isinstance(x, tuple):
            caps.append(x[1])
            x = 'fixed'
        r.add(x)
    for bb in body['bbs']:
        if bb.get('cleanup'):
            continue
        for s in bb['s']:
            if s['s'] != 'assign' or s['p']['l'] != l or s['p']['pj']:
                continue
            q = s['r']
            k = q.get('r')
            if k in ('ref', 'addr', 'rawptr') and q.get('p'):
                up({'p': q['p']})
            elif k in ('use', 'cast') and (q.get('o') or {}).get('p'):
                up(q['o'])
            elif k == 'use':
                r.add(None)
            else:
                r.add(None)
        t = bb['t']
        if t['t'] == 'call' and t.get('d') and t['d']['l'] == l and not t['d']['pj']:
            c = t['f'].get('c') or {}
            key = engine.key_of(c.get('path') or '?', c.get('orig') or c.get('path') or '?')
            if FIXED.search(key):
                n = t['a'][0].get('c') if t['a'] else None
                if n is None and key.endswith('::with_capacity') and t['a']:
                    caps.append(t['a'][0])
                r.add('exact' if n and n.get('k') == 'int' and int(n['v']) == 0 else 'fixed')
            elif key in ('Deref::deref', 'DerefMut::deref_mut', 'String::as_mut_vec', 'BorrowMut::borrow_mut'):
                up(t['a'][0])
            elif EXACT.search(key):
                r.add('exact')
            else:
                r.add(None)
    if r == {'fixed'} and len(caps) == 1:
        return ('cap', caps[0])
    return 'exact' if 'exact' in r else 'fixed' if r == {'fixed'} else None


# ------------------------------------------------------------------------- C17
SECRET = re.compile(r'\bSecret<')


def own_of(body, i):
    """Which parts of an argument are secret: (secret values, values with secret fields)."""
    ty = body['locals'][i]['ty']
    if re.search(r'\b(StoredPassword|GeneratedPassword|Password)\b', ty):
        return [], [arg(i)]
    if SECRET.search(ty):
        x = arg(i)
        return [x, vfield(x, 'Some')], []
    return [], []


def state_fields(prog):
    """The fields of Passwords that hold secrets."""
    for a in prog.crates['pfp']['adts']:
        if a['path'].endswith('::Passwords'):
            return [f['n'] for f in a['vs'][0]['f'] if 'Secret<' in f['ty'] or
                    f['n'] in ('key', 'hmac_secret', 'primary_password')], a
    raise L.Missing('Passwords')


def c17(prog, rep):
    fields, adt_ = state_fields(prog)
    old = engine.Engine.watch
    try:
        for n, b in sorted(prog.api().items()):
            body = prog.body(b)
            own, entries = set(), set()
            for i in range(2, body['argc'] + 1):
                o, e = own_of(body, i)
                own |= set(o)
                entries |= set(e)
            for x in fields:
                y = mk('f', arg(1), x)
                own |= {y, vfield(y, 'Some')}
            one(prog, rep, n, b, Ctx(own, entries), adt_)
        for b in serializers(prog):
            body = prog.body(b)
            own = {'deserialize'}
            for i in range(1, body['argc'] + 1):
                own |= set(own_of(body, i)[0])
            one(prog, rep, L.fname(b), b, Ctx(own), None)
        w = Watch()
        engine.Engine.watch = w
        c = Cli(prog, rep)
        for cmd in sorted(NAMES):
            c.paths(cmd)
        c.main()
    finally:
        engine.Engine.watch = old
    judge(rep, 'commands', w, Ctx())
    rep.floor('owned copies are dropped wiped', 15)
    rep.floor('owned copies are passed on', 5)
    rep.floor('buffers do not move while they hold secrets', 3)
    rep.floor('secrets are returned and kept wrapped', 12)


def serializers(prog):
    return [b['name'] for b in prog.crates['pfp']['bodies'] if not b.get('trait') and '{' not in b['name'] and
            not b.get('virtual') and 'secret_serialization::' in b['name'] and 'promoted' not in b['name']]


def one(prog, rep, n, b, ctx, adt_):
    w = Watch()
    engine.Engine.watch = w
    ps = prog.paths(b)
    for p in ps:                        # run iterators, too
        if p.kind == 'ret' and p.result is None and re.search(r'Iterator', prog.body(b)['locals'][0]['ty']):
            try:
                prog.pull(p)
            except Exception:
                pass
    engine.Engine.watch = None
    judge(rep, n, w, ctx)
    R = 'secrets are returned and kept wrapped'
    rt = prog.body(b)['locals'][0]['ty']
    for p in ps:
        if p.kind != 'ret' or p.val is None:
            continue
        v = p.E.deep(p.st, p.val)
        for ty, x in leaves(p.E, 'pfp', rt, v):
            s = ctx.find(x, p.E)
            rep.ob(R, n, not s, '%s returns the %s as %s' % (n, kind(s), short(ty)))
        if adt_ is None or not re.match(r"&('\w+ )?mut .*Passwords<", prog.body(b)['locals'][1]['ty']):
            continue
        v = p.self_after()
        for f in adt_['vs'][0]['f']:
            for ty, x in leaves(p.E, 'pfp', f['ty'], field(v, f['n'])):
                s = ctx.find(x, p.E)
                rep.ob(R, n, not s, '%s keeps the %s as %s in %s' % (n, kind(s), short(ty), f['n']))
        rep.ob(R, n, True)


def short(ty):
    return re.sub(r'\w+::', '', ty)


def judge(rep, n, w, ctx):
    R, R2, R3 = 'owned copies are dropped wiped', 'owned copies are passed on', \
        'buffers do not move while they hold secrets'
    for kd, fr, sp, ty, v, E, x in w.items:
        if kd == 'call' and x.startswith('Secret::') and x.endswith('new'):
            if v.op == 'rand':
                ctx.more.add(v)
        for y in find(v, lambda z: z.op == 'enc'):
            if y.a[2].op not in ('str', 'cat'):
                ctx.more.add(y.a[2])
    for kd, fr, sp, ty, v, E, x in w.items:
        where = L.fname(fr.name)
        if kd == 'drop':
            for lt, y in leaves(E, fr.name.split('#')[0], ty, v):
                s = ctx.find(y, E)
                rep.ob(R, where, not s, '%s drops the %s in a plain %s' % (where, kind(s), short(lt)), sp)
        elif kd == 'call':
            if 'Secret<' in ty:
                if re.search(r'mem::forget|ManuallyDrop::new|Box::leak|into_raw', x):
                    rep.ob(R2, where, False, '%s prevents the %s from being wiped' % (x, short(ty)), sp)
                continue
            s = ctx.find(v, E)
            ok = True if not s or KEEPS.search(x) else False if DROPS.match(x) else None
            rep.ob(R2, where, ok, '%s passes the %s as %s to %s, which does not wipe it' % (
                where, kind(s), short(ty), x), sp)
        else:
            s = ctx.find(v, E)
            ok = True if not s or x == 'fixed' else False if x in ('exact', 'short') else None
            rep.ob(R3, where, ok, '%s grows a buffer that holds the %s but was not created with its capacity' % (
                where, kind(s)), sp)


RULES = {'C17': c17}
