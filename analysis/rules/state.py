"""Rules about the lock state and the derived keys: C03 C04 C08 C09."""
from terms import *
import models as M
import lib as L
from lib import SELF, arg, Missing
from .common import *

STATE_OPS = ('unlock', 'reset', 'lock', 'drop')


def leaves(after, path=()):
    """(field path, value) of everything assigned within self."""
    if after is None:
        return
    if after.op == 'upd':
        for n, v in after.a[1]:
            if v.op == 'upd':
                yield from leaves(v, path + (n,))
            else:
                yield path + (n,), v
    elif after is not SELF:
        yield path, after


def secret_sources(w, name, t, E):
    """Secret material within a value (what a storage handle contains is ciphertext)."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'loopctx' or x.op.startswith('io.'):
            continue
        seen.add(x.id)
        if x.op == 'scrypt' or x.op == 'call' and x.a[0] == 'Aead::decrypt' or \
                x.op == 'rand' and x.a[0] is not None and x.a[0] == 32:
            return x
        if x in (w.R.KEY, w.R.HM, w.R.PP):
            return x
        if x is arg(2) and name in ('unlock', 'reset', 'decode_recovery_code'):
            return x
        if x.op in ('enc', 'hmac'):
            continue
        st.extend(kids(x))
        if x.op == 'phi':
            st.extend(v for v, f, r in E.phiup.get(x, ()))
    return None


def drop_impl(w):
    n = w.prog.impl('Drop', 'Passwords', 'drop')
    return n


def methods(w):
    r = dict(w.api)
    d = drop_impl(w)
    if d:
        r['drop'] = d
    return r


# ------------------------------------------------------------------------- C03
def c03(prog, rep):
    w = World(prog, rep)
    w.need('unlocked', 'lock', 'get', 'list', 'list_sites')
    locked = w.R.locked_facts()
    rule = 'locked: refused without touching data'
    for name in sorted(w.api):
        b = prog.body(w.api[name])
        if name in ('reset', 'unlock', 'lock') or b['argc'] == 0 or \
                'Passwords' not in b['locals'][1]['ty']:
            continue
        uses = uses_data(w, name)
        for p in prog.paths(w.api[name], facts=locked):
            for e, f, l, m in p.walk():
                if e.kind == 'crypto':
                    rep.ob(rule, name, False, 'uses %s while locked' % e.name, e.span)
                elif e.kind == 'effect':
                    rep.ob(rule, name, False, 'changes the storage while locked (%s)' % e.name, e.span)
                elif e.kind == 'read' and uses:
                    k = w.keys(p).parse(e.args[1]) if len(e.args) > 1 else None
                    if k is None or k[0] != 'fixed':
                        rep.ob(rule, name, False, 'reads password data while locked (%s)' % e.name, e.span)
            for oc, f in w.outcomes(p):
                if name == 'unlocked':
                    rep.want('unlocked() tells the truth', name, truth(p.facts, p.val) is False, p.val,
                             'says unlocked while locked')
                elif not uses:
                    rep.ob(rule, name, True)
                elif oc == 'panic':
                    rep.ob(rule, name, True)
                elif oc == 'Ok' and vfield(p.val, 'Ok') is UNIT and not any(
                        e.kind in ('read', 'effect') for e, _, _, _ in p.walk()):
                    # asked to do nothing
                    done = any(v is True and k.op == 'eqz' and k.a[0].op == 'len' or v is True and
                               k is empty(arg(2)) for k, v in f.items() if not isinstance(k, tuple))
                    rep.ob(rule, name, done, 'reports success although the passwords are locked')
                elif oc == 'Err':
                    er = p.error
                    ok = er == 'PasswordsLocked'
                    if not ok and er is not None and name == 'get_recovery_code':
                        # reads the salt first
                        ok = from_fixed(w, p)
                    rep.ob(rule, name, ok, 'fails with %s instead of reporting that the passwords '
                           'are locked' % er)
                else:
                    rep.ob(rule, name, False, 'succeeds although the passwords are locked')
    rep.floor(rule, 14)
    # unlocked: all three present
    unlocked = {}
    for n in (w.R.key, w.R.hmac, w.R.primary):
        unlocked = assume_variant(unlocked, field(SELF, n), 'Some')
    for p in prog.paths(w.api['unlocked'], facts=unlocked):
        rep.want('unlocked() tells the truth', 'unlocked', truth(p.facts, p.val) is True, p.val,
                 'says locked while unlocked')
    # nothing is left behind by lock()
    rule = 'lock forgets everything'
    held = {(w.R.key,), (w.R.hmac,), (w.R.primary,)}
    for name, n in methods(w).items():
        for p in prog.paths(n):
            for path, v in leaves(p.self_after()):
                if v.op.startswith('io.'):
                    continue
                if secret_sources(w, name, v, p.E) is not None:
                    held.add(path)
    for p in prog.paths(w.api['lock']):
        if p.kind == 'panic':
            rep.ob(rule, 'lock', False, 'may panic instead of locking')
            continue
        after = p.self_after()
        for path in sorted(held):
            v = after if after is not None else SELF
            for x in path:
                v = field(v, x)
            rep.want(rule, 'lock', v is NONE or v.op in ('str', 'cat') and not v.a[0:1], v,
                     'keeps the field %s' % '.'.join(path))
    rep.floor(rule, 1)
    # dropped values wipe themselves
    adt = find_adt(prog, 'pfp', 'Passwords')
    for path in sorted(held):
        if len(path) == 1 and adt is not None:
            ty = field_type(adt, path[0])
            rep.ob('dropping forgets everything', path[0], bool(ty) and wiping(ty),
                   'the field %s of type %s is not wiped when the object is dropped' % (path[0], ty))
    rep.floor('dropping forgets everything', 3)


WIPING = ('secrecy::', 'zeroize::Zeroizing', 'SecretVec', 'SecretString', 'SecretBox', 'Secret<')


def wiping(ty):
    return any(x in ty for x in WIPING) and 'ManuallyDrop' not in ty and '&' not in ty and \
        'Rc<' not in ty and 'Arc<' not in ty


def find_adt(prog, crate, name):
    a = prog.crates[crate].get('adts')
    for x in (a.values() if isinstance(a, dict) else a or ()):
        if x['path'].split('::')[-1].split('#')[-1] == name:
            return x
    return None


def field_type(adt, n):
    for v in adt['vs']:
        for f in v['f']:
            if f['n'] == n:
                return f['ty']
    return None


def uses_data(w, name):
    for p in w.paths(name):
        for e, f, l, m in p.walk():
            if e.kind in ('effect', 'crypto'):
                return True
            if e.kind == 'read':
                k = w.keys(p).parse(e.args[1]) if len(e.args) > 1 else None
                if k is None or k[0] != 'fixed':
                    return True
        for n in (w.R.key, w.R.hmac, w.R.primary):
            if field(SELF, n).id in deps(p.val) and name not in ('unlocked',):
                return True
    return False


def from_fixed(w, p):
    """Is the failure one of reading a fixed entry?"""
    reads = [e for e, f, l, m in p.all('read')]
    return bool(reads)


# ------------------------------------------------------------------------- C04
def salt_bytes(E, t):
    """S if t is the text that has the code point of every byte of S, in order.
    False if t is understood and is something else, None if it is not understood."""
    if t.op == 'phi':
        ups = E.phiup.get(t)
        if not ups or not (t.a[2] is EMPTY or t.a[2] is string('')):
            return None
        src = set()
        for v, f, r in ups:
            if v is t:
                return False            # some bytes are left out
            ps = parts(v)
            if not ps or ps[0] is not t or len(ps) != 2 or ps[1].op != 'item':
                return None
            x = ps[1].a[0]
            if x.op == 'cast' and x.a[0] == 'char' and x.a[1] == 'u8' and x.a[2].op == 'elem':
                src.add(x.a[2].a[0])
            else:
                return False if L.closed(x) else None
        if uncovered(E, t):
            return False                # some bytes are left out
        if len(src) == 1:
            return src.pop()
        return None
    return False if L.closed(t) and t.op != 'cat' else None


def stored_salt(w, t):
    """Is t the complete decoded salt entry?"""
    if t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'base64::decode':
        s = t.a[0].a[1][0]
        if s.op == 'vf' and s.a[1] == 'Ok' and s.a[0].op == 'call' and s.a[0].a[0] == 'StorageIO::get':
            k = L.Keys(()).parse(s.a[0].a[1][1])
            return k is not None and k[0] == 'fixed' and k[1] in fixed_plain(w)
    return False


def fixed_plain(w):
    """Fixed entries that reset writes in the clear: the salt."""
    if getattr(w, '_fp', None) is None:
        w._fp = set()
        for p in w.paths('reset'):
            for x in w.writes(p, ('set',)):
                if x.key and x.key[0] == 'fixed' and x.cipher is None:
                    w._fp.add(x.key[1])
    return w._fp


def c04(prog, rep):
    w = World(prog, rep)
    w.need('unlock', 'reset', 'lock')
    roles = (w.R.key, w.R.hmac, w.R.primary)
    rule = 'nothing else changes the lock state'
    for name, n in sorted(methods(w).items()):
        if name in STATE_OPS:
            continue
        for p in prog.paths(n):
            ch = [path for path, v in leaves(p.self_after()) if path and path[0] in roles]
            rep.ob(rule, name, not ch, 'changes the field %s' % '.'.join(ch[0] if ch else ()))
            whole = p.self_after()
            if whole is not None and whole is not SELF and whole.op not in ('upd',):
                rep.ob(rule, name, None, 'self is replaced: ' + show(whole, 4))
    rep.floor(rule, 12)
    for p in w.paths('unlock'):
        for oc, f in w.outcomes(p):
            after = p.self_after()
            vals = {n: field(after, n) for n in roles} if after is not None else {}
            if oc == 'Err':
                ch = [n for n in roles if vals.get(n) is not None and vals[n] is not field(SELF, n)]
                rep.ob('a failed unlock changes nothing', 'unlock', not ch,
                       'fails after having changed the field %s' % (ch and ch[0]))
            elif oc == 'Ok':
                state_matches(w, rep, p, f, vals, None)
                rep.ob('a failed unlock changes nothing', 'unlock', True)
    rep.floor('the state after unlocking belongs together', 1)
    for p in w.paths('reset'):
        for oc, f in w.outcomes(p):
            after = p.self_after()
            vals = {n: field(after, n) for n in roles} if after is not None else {}
            if oc == 'Ok':
                state_matches(w, rep, p, f, vals, p)
            elif oc == 'Err':
                same = all(vals.get(n) is None or vals[n] is field(SELF, n) for n in roles)
                none = all(vals.get(n) is NONE for n in roles)
                changed = [e for e, _, _, _ in p.all('effect')]
                ok = none or same and not changed
                rep.ob('a failed reset leaves no secrets that do not belong to the storage', 'reset', ok,
                       'fails with the storage in memory changed and the old or mixed secrets still '
                       'in use' if same else 'fails with some of the secrets replaced')
            elif oc not in ('panic', 'exit'):
                rep.ob('the state after unlocking belongs together', 'reset', None, 'neither Ok nor Err')
    rep.floor('a failed reset leaves no secrets that do not belong to the storage', 1)


def state_matches(w, rep, p, f, vals, reset):
    rule = 'the state after unlocking belongs together'
    fn = 'reset' if reset else 'unlock'
    get = lambda n: vfield(vals[n], 'Some') if n in vals else None
    k, h, pp = get(w.R.key), get(w.R.hmac), get(w.R.primary)
    for n, v in ((w.R.key, k), (w.R.hmac, h), (w.R.primary, pp)):
        if v is None or vals[n] is field(SELF, n):
            rep.ob(rule, fn, False, 'succeeds without setting the field %s' % n)
            return
    rep.want(rule, fn, pp is arg(2), pp, 'the primary password kept is not the one given')
    if k.op != 'scrypt':
        rep.want(rule, fn, False, k, 'the key is not derived from the password')
        return
    rep.want(rule, fn, k.a[0] is arg(2), k.a[0], 'the key is not derived from the given password')
    s = salt_bytes(p.E, k.a[1])
    if reset:
        # what is stored has to open with what is kept
        salt = secret = None
        for x in w.writes(p, ('set',)):
            if x.key and x.key[0] == 'fixed':
                if x.cipher is None:
                    salt = x
                else:
                    secret = x
        if salt is None or secret is None:
            rep.ob(rule, fn, False, 'the salt or the HMAC secret is not stored')
            return
        v = salt.value
        b = v.a[0] if v.op == 'b64' else None
        if s is not None:
            rep.want(rule, fn, s is not False and s is b, k.a[1],
                     'the key is not derived from the salt that is stored', salt.span)
        else:
            rep.ob(rule, fn, None, 'salt: ' + show(k.a[1], 5))
        rep.want(rule, fn, secret.cipher[2].a[0].op == 'cipher' and secret.cipher[2].a[0].a[0] is k,
                 secret.cipher[2].a[0], 'the HMAC secret is encrypted with something other than the '
                 'key', secret.span)
        t = secret.record
        rep.want(rule, fn, t is not None and t.op == 'b64' and t.a[0] is h, secret.plain,
                 'the HMAC secret stored is not the one kept', secret.span)
        return
    if s is None:
        rep.ob(rule, fn, None, 'salt: ' + show(k.a[1], 5))
    else:
        rep.want(rule, fn, s is not False and stored_salt(w, s), k.a[1],
                 'the key is not derived from the stored salt')
    ds = [x for x in L.value_terms(h) if x.op == 'call' and x.a[0] == 'Aead::decrypt']
    rep.want(rule, fn, bool(ds), h, 'the HMAC secret was not decrypted')
    for d in ds:
        src = L.decrypt_source(d)
        ci = d.a[1][0]
        rep.want(rule, fn, ci.op == 'cipher' and ci.a[0] is k, ci,
                 'the HMAC secret was not decrypted with the key that is kept')
        rep.ob(rule, fn, variant(f, d) == 'Ok', 'succeeds although the decryption may have failed')
        if src is not None:
            kk = w.keys(p).parse(src[1])
            rep.want(rule, fn, kk is not None and kk[0] == 'fixed' and kk[1] not in fixed_plain(w), src[1],
                     'the HMAC secret does not come from its entry')
        else:
            rep.want(rule, fn, False, d, 'decrypts something that is not a complete stored value')
    # exactly the decrypted, decoded text
    t = h
    if t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'base64::decode':
        t = t.a[0].a[1][0]
        rep.want(rule, fn, L.load_of(t) is not None, h, 'the HMAC secret is not the decrypted value')
    else:
        rep.want(rule, fn, False, h, 'the HMAC secret is not the decoded value')


# ------------------------------------------------------------------------- C08
PARAMS = None


def scrypts(w):
    for name, n in sorted(methods(w).items()):
        for p in w.prog.paths(n):
            seen = set()
            for e, f, l, m in p.all('crypto'):
                if e.name == 'scrypt::scrypt' and e.args not in seen:
                    seen.add(e.args)
                    yield name, p, e


def c08(prog, rep):
    w = World(prog, rep)
    rule = 'scrypt gets the exact password'
    cost = 'scrypt runs with N=2^15, r=8, p=1'
    stored = 'the key uses the complete salt'
    for name, p, e in scrypts(w):
        pw, salt, par, n = e.args[:4]
        if name in ('unlock', 'reset'):
            ok = pw is arg(2)
        else:
            ok = pw is w.R.PP
        rep.want(rule, name, ok, pw, 'the password is not used unmodified', e.span)
        rep.want(cost, name, par.op == 'params' and [x.a[0] if x.op == 'int' else None for x in par.a]
                 == [15, 8, 1], par, 'scrypt runs with another cost', e.span)
        if name == 'get':
            ln = w.record_with('GeneratedPassword', 'length', n)
            if ln is None and n.op == 'cast':
                ln = w.record_with('GeneratedPassword', 'length', n.a[2])
            rep.want('length of the derived bytes', name, ln is not None, n,
                     'the number of bytes derived is not the length of the password', e.span)
            continue
        rep.want('length of the derived bytes', name, n is integer(32), n,
                 'the key does not have 32 bytes', e.span)
        s = salt_bytes(p.E, salt)
        if s is None:
            rep.ob(stored, name, None, 'salt: ' + show(salt, 5))
            continue
        if name == 'reset':
            ok = s is not False and s.op == 'rand' and s.a[0] == 16
        elif name == 'decode_recovery_code':
            # the salt of the code; recovery codes have their own rules
            ok = s is not False and s.op == 'slice' and \
                sub(s.a[2], s.a[1]) is integer(16)
        else:
            ok = s is not False and stored_salt(w, s)
        rep.want(stored, name, ok, salt if s is False else s,
                 'the salt of the key is not the complete salt, byte by byte', e.span)
    # every key in use is such a derivation
    for name, n in sorted(methods(w).items()):
        for p in prog.paths(n):
            for path, v in leaves(p.self_after()):
                if path and path[0] == w.R.key and v is not NONE:
                    x = vfield(v, 'Some')
                    rep.want('the key is what scrypt returned', name, x.op == 'scrypt', x,
                             'the key is not the unmodified output of scrypt')
    rep.floor(rule, 4)
    rep.floor(stored, 3)
    rep.floor('the key is what scrypt returned', 2)


# ------------------------------------------------------------------------- C09
def c09(prog, rep):
    w = World(prog, rep)
    w.need('get')
    allowed = ('length', 'charset')
    n = 0
    for p in w.paths('get'):
        for e, f, l, m in p.all('crypto'):
            if e.name != 'scrypt::scrypt':
                continue
            pw, salt, par, ln = e.args[:4]
            rep.want('the primary password is the secret', 'get', pw is w.R.PP, pw,
                     'the password is derived from something other than the primary password', e.span)
            rec = None
            x = ln.a[2] if ln.op == 'cast' else ln
            rec = w.record_with('GeneratedPassword', 'length', x)
            if rec is None:
                rep.want('the requested length is derived', 'get', False, ln,
                         'the number of bytes is not the length in the entry', e.span)
                continue
            rep.ob('the requested length is derived', 'get', True)
            i = w.rec.get('GeneratedPassword', 'id', rec)
            want = [w.rec.get('PasswordId', x, i) for x in ('site', 'name', 'revision')]
            ps = L.split_nul(salt)
            rv = None
            for ff in (e.facts, f):
                k = truth(ff, empty(want[2]))
                rv = k if rv is None else rv
            rule = 'the salt is site NUL name [NUL revision]'
            if rv is True:
                ok = ps == want[:2]
            elif rv is False:
                ok = ps == want
            else:
                ok = False
            rep.want(rule, 'get', ok, salt, 'the salt of a generated password is not site, name and '
                     'revision (if there is one)' + ('' if rv is not None else
                                                     ', whether it is empty is not asked'), e.span)
    rep.floor('the salt is site NUL name [NUL revision]', 1)
    # what the result is made of
    rule = 'nothing else goes into the password'
    gen = 0
    for p in w.paths('get'):
        for oc, f in w.outcomes(p):
            if oc != 'Ok':
                continue
            for v in {vfield(x, 'Ok') for x in alts(p.val)}:
                gen += result_of(w, rep, p, f, v)
            conditions(w, rep, p, f)
    rep.ob('there are generated passwords', 'get', gen > 0, 'no password is derived')


def result_of(w, rep, p, f, v):
    rule = 'nothing else goes into the password'
    if not any(t.op == 'scrypt' for t in L.value_terms(v, p.E)):
        # a stored password is returned as it is
        rep.want('stored passwords are returned as they are', 'get', stored_value(w, v), v,
                 'the password returned is neither derived nor the one stored')
        return 0
    bad = None
    for t in sources(w, p, v):
        bad = bad or t
    rep.want(rule, 'get', bad is None, bad,
             'a generated password depends on something besides its parameters')
    return 1


def stored_value(w, v):
    r = w.record_with('StoredPassword', 'password', v)
    return r is not None and any(L.load_of(x) is not None for x in (r, r.a[0] if r.a else r)
                                 if isinstance(x, T))


def sources(w, p, v):
    """Subvalues of a generated password that are neither constants, nor the primary
    password, nor one of the five parameters in the entry."""
    E = p.E
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'loopctx':
            continue
        seen.add(x.id)
        if x is w.R.PP:
            continue
        if parameter(w, x):
            continue
        if x.op in ('rand', 'undef', 'param', 'keys') or x.op.startswith('io.') or \
                x.op == 'call' and (x.a[0].startswith('StorageIO::') or x.a[0].startswith('Aead::')):
            yield x
            continue
        if x.op == 'f' and x.a[0] is SELF:
            yield x
            continue
        if L.load_of(x) is not None or x.op == 'call' and x.a[0] == 'serde_json::from':
            yield x
            continue
        st.extend(kids(x))
        if x.op == 'phi':
            st.extend(u for u, f, r in E.phiup.get(x, ()))


def parameter(w, x):
    """Is x one of the parameters in a loaded generated password?"""
    if x.op != 'f':
        return False
    for fl in ('length', 'charset'):
        r = w.record_with('GeneratedPassword', fl, x)
        if r is not None and rooted(r):
            return True
    for fl in ('site', 'name', 'revision'):
        i = w.record_with('PasswordId', fl, x)
        if i is not None:
            r = w.record_with('GeneratedPassword', 'id', i)
            if r is not None and rooted(r):
                return True
    return False


def rooted(r):
    while r.op in ('vf', 'f'):
        if L.load_of(r) is not None:
            return True
        r = r.a[0]
    return L.load_of(r) is not None


def conditions(w, rep, p, f):
    """The choice between derivations depends on the parameters only."""
    for k, v in f.items():
        t = k[1] if isinstance(k, tuple) else k
        if t.op in ('eqz', 'ge0', 'eq') or t.op == 'call':
            for x in L.value_terms(t):
                if x.op == 'rand' or x.op == 'call' and x.a[0] in ('env::var', 'SystemTime::now',
                                                                  'Instant::now', 'env::args'):
                    rep.ob('nothing else goes into the password', 'get', False,
                           'the derivation depends on ' + show(x, 4))


RULES = {'C03': c03, 'C04': c04, 'C08': c08, 'C09': c09}
