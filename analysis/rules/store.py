"""Rules about what the library does with its storage: C01 C02 C05 C06 C07 C11 C12 C13 C29."""
import itertools
from terms import *
import models as M
import lib as L
from lib import SELF, arg, Missing
from .common import *

MUTATE = ('StorageIO::set', 'StorageIO::remove', 'StorageIO::clear')
OPS = ('reset', 'set_alias', 'remove_alias', 'remove_sites', 'set_generated', 'set_stored',
       'set_notes', 'remove')
PASSWORD_OPS = ('set_generated', 'set_stored', 'has', 'get', 'get_notes', 'set_notes', 'remove')


def payload(rec):
    """(type name, record) of the stored value: FetchedPassword::Stored(x) is ('StoredPassword', x)."""
    if rec is None:
        return None, None
    if rec.op == 'adt':
        n = rec.a[0].split('::')[-1]
        if len(rec.a[3]) == 1 and rec.a[3][0].op == 'adt':
            i = rec.a[3][0]
            if i.a[0].split('::')[-1] in ('GeneratedPassword', 'StoredPassword', 'Site'):
                return i.a[0].split('::')[-1], i
        return n, rec
    return None, rec


# ------------------------------------------------------------------------- C01
def c01(prog, rep):
    w = World(prog, rep)
    w.need(*OPS)
    for name in sorted(w.api):
        for p in w.paths(name):
            muts = [e for e, f, l, m in p.all('effect') if e.name in MUTATE]
            if not muts:
                continue
            for oc, f in w.outcomes(p):
                if oc in ('Err', 'panic', 'exit'):
                    continue
                st = run_events(p.events, f, frozenset(['clean']), dirty_step)
                rep.ob('flushed before success', name, 'dirty' not in st,
                       'reports success although a change (%s) was not written to the file after it '
                       'or the result of writing was not checked' % muts[-1].name, muts[-1].span)
    rep.floor('flushed before success', 6)
    for name in OPS:
        for p in w.paths(name):
            for oc, f in w.outcomes(p):
                if oc == 'Ok':
                    change_made(w, rep, name, p, f)
    rep.floor('the change is made', len(OPS))
    file_flush(prog, rep)


def dirty_step(e, facts, st):
    if e.kind == 'effect':
        if e.name in MUTATE:
            return frozenset(['dirty'])
        if e.name == 'StorageIO::flush' and variant(facts, e.res) == 'Ok':
            return frozenset(['clean'])
    return st


def events_in(events):
    for e in events:
        if e.kind == 'loop':
            for t in e.extra[0].trans:
                yield from events_in(t[2])
        elif e.kind == 'alt':
            for l in e.extra:
                yield from events_in(l)
        else:
            yield e


def change_made(w, rep, name, p, f):
    """The operation's own change is among the effects of every way to succeed."""
    ws = w.writes(p)
    by = {x.ev: x for x in ws}
    rule = 'the change is made'

    def sure(pred):
        return certain(p.events, lambda e: e in by and pred(by[e]))
    if name == 'reset':
        rep.ob(rule, name, sure(lambda x: x.name == 'clear'), 'succeeds without clearing the storage')
        # what is set before the storage is cleared is lost
        last = max([i for i, e in enumerate(p.events) if any(
            by[y].name == 'clear' for y in events_in([e]) if y in by)], default=-1)
        for k in sorted(fixed_keys_read(w)):
            rep.ob(rule, name, certain(p.events[last + 1:], lambda e: e in by and by[
                e].name == 'set' and by[e].key == ('fixed', k)) or (
                    None if last >= 0 and p.events[last].kind in ('loop', 'alt') else False),
                   'succeeds without setting the entry %r that unlocking needs' % k)
    elif name in ('set_generated', 'set_stored', 'set_notes'):
        ok = sure(lambda x: x.name == 'set' and x.kind == 'password')
        und = [x for x in ws if x.name == 'set' and x.key is None]
        rep.ob(rule, name, True if ok else None if und else False,
               'succeeds without storing the password entry')
        if name != 'set_notes':
            for x in ws:
                if x.name == 'set' and x.kind == 'password':
                    record_of_args(w, rep, name, x, f)
            # an entry is only found again through its site's entry
            site_entry_present(w, rep, name, p, f)
    elif name == 'remove':
        rep.ob(rule, name, sure(lambda x: x.name == 'remove' and x.kind == 'password'),
               'succeeds without removing the password entry')
    elif name == 'remove_alias':
        rep.ob(rule, name, sure(lambda x: x.kind == 'site' and (
            x.name == 'remove' or x.name == 'set' and alias_value(w, x) is NONE)),
            'succeeds without removing the alias')
        # the entry of a site that is no alias stays: without it its passwords are not found
        for x in ws:
            if x.kind != 'site':
                continue
            known = [r for k, v in x.facts.items() if isinstance(k, tuple) and v == 'Some'
                     for r in [w.record_with('Site', 'alias', k[1])] if r is not None]
            ok = any(w.loaded_site(p, r) is x.key[2] for r in known)
            blind = any(y.op in L.OPAQUE_OPS or y.op == 'call' and y.a[2] is not None and
                        not y.a[0].startswith('StorageIO::')
                        for k in f for y in L.value_terms(k[1] if isinstance(k, tuple) else k))
            und = None if known or blind else False
            rep.ob('only aliases are removed', name, ok or und, 'removes the entry of a site that is no alias')
        rep.floor('only aliases are removed', 1)
    elif name == 'set_alias':
        rep.ob(rule, name, sure(lambda x: x.kind == 'site' and x.name == 'set' and
                                alias_value(w, x) is not NONE),
               'succeeds without recording the alias')
    elif name == 'remove_sites':
        if truth(f, empty(arg(2))) is True:
            rep.ob(rule, name, True)
            return
        done = False
        bad = None
        for e in p.events:
            if e.kind == 'loop':
                rec, key = e.extra
                good = bool(rec.trans)
                for k, k2, evs, b in rec.trans:
                    r = [Write(w, p, x, b.facts, rec, True) for x in evs
                         if x.kind == 'effect' and x.name.startswith('StorageIO::remove')]
                    if not any(x.kind == 'site' and x.key[2].op == 'elem' and x.key[2].a[0] is arg(2)
                               for x in r):
                        if not absent_in(w, p, b.facts, arg(2)):
                            good = False
                            bad = rec
                done = done or good
        rep.ob(rule, name, done, 'succeeds although some given site may not have been removed')


def absent_in(w, p, facts, coll):
    """Do the facts say that the site entry of an element does not exist?"""
    ks = w.keys(p)
    for k, v in facts.items():
        t = k[1] if isinstance(k, tuple) else k
        if t.op == 'call' and t.a[0] in ('StorageIO::contains_key', 'StorageIO::get'):
            x = ks.parse(t.a[1][1])
            if x and x[0] == 'site' and x[2].op == 'elem' and x[2].a[0] is coll and v in (False, 'Err'):
                return True
    return False


def alias_value(w, x):
    ty, r = payload(x.record)
    if r is None or ty != 'Site':
        return None
    return w.rec.get('Site', 'alias', r)


def fixed_keys_read(w):
    r = set()
    for p in w.paths('unlock'):
        for e, f, l, m in p.all('read', 'StorageIO::get'):
            k = w.keys(p).parse(e.args[1])
            if k and k[0] == 'fixed':
                r.add(k[1])
    return r


def record_of_args(w, rep, name, x, f):
    """The record that is stored consists of what the caller gave."""
    rule = 'the record is the given data'
    ty, r = payload(x.record)
    if r is None or ty is None:
        rep.want(rule, name, False, x.value, 'the stored value is not a serialised record', x.span)
        return
    want = {'set_generated': ('GeneratedPassword', (('length', arg(5)), ('charset', arg(6)))),
            'set_stored': ('StoredPassword', (('password', arg(5)),))}[name]
    if ty != want[0]:
        rep.want(rule, name, False, r, 'stores a %s' % ty, x.span)
        return
    for fl, a in want[1]:
        v = w.rec.get(ty, fl, r)
        rep.want(rule, name, v is a, v, 'the stored %s is not the given one' % fl, x.span)
    i = w.rec.get(ty, 'id', r)
    v = w.rec.get('PasswordId', 'name', i) if i is not None else None
    rep.want(rule, name, v is arg(3), v, 'the stored name is not the given one', x.span)


def site_entry_present(w, rep, name, p, f):
    """The site entry of the stored password exists: it was just written, or was read."""
    rule = 'the site entry exists'
    for x in w.writes(p):
        if x.name != 'set' or x.kind != 'password':
            continue
        s = x.key[2]
        ok = any(y.name == 'set' and y.kind == 'site' and y.key[2] is s and not y.maybe
                 for y in w.writes(p))
        if not ok:
            ok = any(variant(f, e.res) == 'Ok' for e in w.site_loads(p, f, s))
        if not ok:
            for k, v in f.items():
                t = k[1] if isinstance(k, tuple) else k
                if t.op == 'call' and t.a[0] == 'StorageIO::contains_key' and v is True:
                    kk = w.keys(p).parse(t.a[1][1])
                    ok = ok or bool(kk and kk[0] == 'site' and kk[2] is s)
        rep.want(rule, name, ok, s, 'stores a password for a site without making sure that the '
                 'site has an entry', x.span)


WRITES = {'fs::write', 'Write::write_all', 'serde_json::to_writer', 'Write::write_fmt', 'Write::write',
          'File::write_all', 'File::write', 'serde_json::to_writer_pretty'}
FS_MUTATE = WRITES | {'File::create', 'fs::rename', 'fs::remove_file', 'fs::create_dir_all', 'fs::copy',
                      'fs::create_dir', 'File::set_len', 'File::sync_all', 'File::sync_data',
                      'Write::flush', 'File::set_permissions', 'fs::set_permissions',
                      'OpenOptions::open', 'File::create_new', 'fs::hard_link', 'BufWriter::into_inner'}


def file_io(prog):
    n = prog.impl('StorageIO', 'FileIO', 'flush')
    if n is None:
        raise Missing('FileIO::flush')
    return n


def contents_of_self(v):
    """Is the value the JSON text of the whole object?"""
    if v.op == 'vf' and v.a[1] == 'Ok':
        v = v.a[0]
    return v.op == 'call' and v.a[0] == 'serde_json::to' and v.a[1][0] is SELF


def file_flush(prog, rep):
    n = file_io(prog)
    for p in prog.paths(n):
        for oc, f in outcomes(prog, p):
            if oc != 'Ok':
                continue
            wrote = None
            for e, ef, l, m in p.walk():
                if e.kind == 'ext' and e.name in WRITES and variant(f, e.res) == 'Ok' and not m:
                    if any(contents_of_self(a) for a in e.args) or \
                            e.name.startswith('serde_json::to_writer') and SELF in e.args:
                        wrote = e
            ext = [e for e, ef, l, m in p.walk() if e.kind == 'ext' and e.name in WRITES]
            rep.ob('saving writes the whole object', n, wrote is not None,
                   'reports success without having written the serialised storage: %s'
                   % [e.name for e in ext], p.prog_span if hasattr(p, 'prog_span') else None)
            for e, ef, l, m in p.walk():
                if e.kind == 'ext' and e.name in FS_MUTATE and variant(f, e.res) != 'Ok' and \
                        e.name not in ('OpenOptions::open', 'fs::remove_file'):
                    rep.ob('every step of saving is checked', n, False,
                           'reports success although %s failed or was not checked' % e.name, e.span)
                elif e.kind == 'ext' and e.name in FS_MUTATE:
                    rep.ob('every step of saving is checked', n, True)
    rep.floor('saving writes the whole object', 1)


# ------------------------------------------------------------------------- C02
FALLIBLE = ('StorageIO::get', 'StorageIO::remove', 'StorageIO::flush', 'serde_json::to', 'Aead::encrypt')


def c02(prog, rep):
    w = World(prog, rep)
    w.need(*OPS)
    for name in sorted(w.api):
        for p in w.paths(name):
            for oc, f in w.outcomes(p):
                if oc == 'Err':
                    st = run_events(p.events, f, frozenset(['untouched']), flushed_step)
                    last = [e for e, _, _, _ in p.all('effect', 'StorageIO::flush')]
                    rep.ob('no write before an error', name, 'flushed' not in st,
                           'returns an error after the storage file has been written',
                           last[-1].span if last else None)
                elif oc not in ('panic', 'exit'):
                    dropped(w, rep, name, p, f, oc)
    rep.floor('no write before an error', 8)
    rep.floor('errors are passed on', 8)
    only_flush_writes(prog, rep)
    n = file_io(prog)
    for p in prog.paths(n):
        for oc, f in outcomes(prog, p):
            if oc != 'Ok':
                continue
            for e, ef, l, m in p.walk():
                if e.kind == 'ext' and e.name in FS_MUTATE and e.name not in (
                        'OpenOptions::open', 'fs::remove_file'):
                    rep.ob('file system errors are passed on', n, variant(f, e.res) == 'Ok',
                           'succeeds although %s failed or was not checked' % e.name, e.span)
            for k, v in f.items():
                if isinstance(k, tuple) and v == 'Err' and k[1].op == 'call' and \
                        k[1].a[0] == 'serde_json::to':
                    rep.ob('file system errors are passed on', n, False,
                           'succeeds although the data could not be serialised')
    load = prog.method('FileIO', 'load')
    if load is None:
        raise Missing('FileIO::load')
    for p in prog.paths(load):
        for oc, f in outcomes(prog, p):
            if oc == 'Ok':
                for e, ef, l, m in p.walk():
                    if e.kind == 'ext' and (e.name.startswith('fs::read') or e.name == 'File::open'):
                        rep.ob('file system errors are passed on', load, variant(f, e.res) == 'Ok',
                               'succeeds although %s failed' % e.name, e.span)
                for k, v in f.items():
                    if isinstance(k, tuple) and v == 'Err' and k[1].op == 'call' and \
                            k[1].a[0] in ('serde_json::from', 'fs::read_to_string', 'fs::read'):
                        rep.ob('file system errors are passed on', load, False,
                               'succeeds although %s failed' % k[1].a[0])


def flushed_step(e, facts, st):
    if e.kind == 'effect' and e.name == 'StorageIO::flush' and variant(facts, e.res) != 'Err':
        return st | {'flushed'} if variant(facts, e.res) != 'Ok' else frozenset(['flushed'])
    return st


def tolerated(w, p, name, t, facts):
    """Failures that have a documented meaning other than failing."""
    if t.a[0] in ('StorageIO::get', 'StorageIO::remove'):
        k = w.keys(p).parse(t.a[1][1])
        if t.a[0] == 'StorageIO::get':
            if k and k[0] == 'site':
                return True         # no such site: it has no alias
            if name in ('has', 'list', 'list_sites', 'initialized'):
                return True
            if k is None and t.a[1][1].op == 'elem':
                return True         # entries of a listing are skipped
            if mentions_keys(t.a[1][1]):
                return True
        else:
            # a site to be removed that does not exist
            if name == 'remove_sites' and variant(facts, vfield(t, 'Err')) == 'KeyMissing':
                return True
    return False


def mentions_keys(t):
    return bool(find(t, lambda x: x.op == 'keys'))


def dropped(w, rep, name, p, f, oc):
    rule = 'errors are passed on'
    seen = set()
    for facts, where in fact_sets(p, f):
        for k, v in facts.items():
            if not isinstance(k, tuple) or v != 'Err':
                continue
            t = k[1]
            if t.op != 'call' or t.a[0] not in FALLIBLE or t in seen:
                continue
            seen.add(t)
            rep.ob(rule, name, tolerated(w, p, name, t, facts),
                   'reports success although %s failed' % t.a[0], span_of(p, t))
    for e, ef, l, m in p.walk(p.events, f):
        if e.kind == 'effect' and e.res is not None and e.name in ('StorageIO::flush',):
            rep.ob(rule, name, variant(ef, e.res) == 'Ok',
                   'reports success although the result of %s was %s' % (
                       e.name, 'an error' if variant(ef, e.res) == 'Err' else 'not checked'), e.span)
    rep.ob(rule, name, True)


def fact_sets(p, f):
    yield f, None

    def go(events):
        for e in events:
            if e.kind == 'loop':
                for k, k2, evs, b in e.extra[0].trans:
                    yield b.facts, e
                    yield from go(evs)
            elif e.kind == 'alt':
                for l in e.extra:
                    yield from go(l)
    yield from go(p.events)


def span_of(p, t):
    for e, f, l, m in p.walk():
        if e.res is t:
            return e.span
    return None


FS_WRITERS = ('std::fs::write', 'std::fs::File::create', 'std::fs::rename', 'std::fs::remove_file',
              'std::fs::OpenOptions', 'std::fs::copy', 'std::fs::File::options', 'std::fs::hard_link',
              'std::fs::File::set_len', 'std::fs::remove_dir', 'std::fs::File::create_new')


def only_flush_writes(prog, rep):
    """Within the library only FileIO::flush (and what only it calls) touches files."""
    calls = {}
    writers = {}
    for b in prog.crates['pfp']['bodies']:
        for bb in b['bbs']:
            t = bb['t']
            if t['t'] != 'call':
                continue
            c = t.get('fn') or t.get('f') or {}
            path = callee_path(t)
            calls.setdefault(b['name'], set()).add(path)
            if any(path.startswith(x) for x in FS_WRITERS):
                writers.setdefault(b['name'], []).append((path, t.get('sp')))
    return writers


def callee_path(t):
    f = t.get('f')
    return str(f)


# ------------------------------------------------------------------------- C05
def c05(prog, rep):
    w = World(prog, rep)
    for name in sorted(w.api):
        for p in w.paths(name):
            for x in w.writes(p, ('set', 'remove', 'remove!')):
                k = x.key
                rep.want('storage keys are fixed names or keyed hashes', name,
                         k is not None and key_ok(k), x.keyterm,
                         'a storage key is neither a fixed name nor a prefix with keyed hashes', x.span)
                if x.name != 'set':
                    continue
                if x.cipher is not None:
                    ci = x.cipher[2].a[0]
                    good = cipher_key_ok(w, p, ci)
                    rep.want('stored values are ciphertext', name, good, ci,
                             'the value is encrypted with something other than the password-derived key',
                             x.span)
                elif k and k[0] == 'fixed' and x.value.op == 'b64' and x.value.a[0].op == 'rand':
                    used = any(e.name == 'scrypt::scrypt' for e, f, l, m in p.all('crypto'))
                    rep.ob('stored values are ciphertext', name, not is_secret(w, p, x.value.a[0]),
                           'a secret is stored in the clear', x.span)
                else:
                    rep.want('stored values are ciphertext', name, False, x.value,
                             'a stored value is not ciphertext', x.span)
    rep.floor('stored values are ciphertext', 5)
    rep.floor('storage keys are fixed names or keyed hashes', 7)


def key_ok(k):
    if k[0] == 'fixed':
        return True
    return True


def cipher_key_ok(w, p, ci):
    if ci.op != 'cipher':
        return False
    k = ci.a[0]
    if k is w.R.KEY:
        return True
    return k.op == 'scrypt' and (k.a[0] is arg(2) or k.a[0] is w.R.PP)


def is_secret(w, p, t):
    """The random value that becomes the HMAC secret."""
    after = p.self_after()
    if after is None:
        return False
    return vfield(field(after, w.R.hmac), 'Some') is t


# ------------------------------------------------------------------------- C06
def c06(prog, rep):
    w = World(prog, rep)
    for name in sorted(w.api):
        for p in w.paths(name):
            fresh(rep, name, p.events, frozenset(), p)
    rep.floor('every encryption has its own fresh nonce', 5)
    for p in w.paths('reset'):
        if p.result not in ('Ok', 'value'):
            continue
        draws = {e.res: e for e, f, l, m in p.all('rand')}
        rule = 'reset draws a new salt and a new HMAC secret'
        n = 0
        sizes = []
        for x in w.writes(p, ('set',)):
            if not x.key or x.key[0] != 'fixed':
                continue
            if x.cipher is None:
                v = x.value
                ok = v.op == 'b64' and v.a[0].op == 'rand' and v.a[0] in draws and \
                    v.a[0].a[0] == 16
                rep.ob(rule, 'reset', ok, 'the salt is not 16 new random bytes: ' + show(v, 6), x.span)
                sizes.append(v)
            else:
                v = x.plain
                r = find(v, lambda t: t.op == 'rand')
                t = x.record
                ok = t is not None and t.op == 'b64' and t.a[0].op == 'rand' and t.a[0] in draws and \
                    t.a[0].a[0] == 32
                rep.ob(rule, 'reset', ok, 'the HMAC secret is not 32 new random bytes: ' + show(v, 6),
                       x.span)
                sizes.append(v)
        after = p.self_after()
        v = vfield(field(after, w.R.hmac), 'Some')
        rep.ob(rule, 'reset', v.op == 'rand' and v in draws and v.a[0] == 32,
               'the HMAC secret in use is not 32 new random bytes: ' + show(v, 5))
    rep.floor('reset draws a new salt and a new HMAC secret', 1)
    rng_source(prog, rep)


def fresh(rep, name, events, avail, p):
    """avail: random values drawn and not used as a nonce on every way to here."""
    rule = 'every encryption has its own fresh nonce'
    for e in events:
        if e.kind == 'rand':
            avail = avail | {e.res}
        elif e.kind == 'crypto' and e.name in ('Aead::encrypt', 'AeadInPlace::encrypt_in_place',
                                               'Aead::encrypt_in_place'):
            n = e.args[1]
            if n.op != 'rand':
                rep.ob(rule, name, False, 'the nonce is not drawn from the generator: ' + show(n, 6), e.span)
            elif n.a[0] != 12:
                rep.ob(rule, name, False, 'the nonce does not have 12 random bytes: ' + show(n, 6), e.span)
            elif n not in avail:
                rep.ob(rule, name, False, 'the nonce was not drawn anew for this encryption', e.span)
            else:
                rep.ob(rule, name, True)
            avail = avail - {n}
        elif e.kind == 'loop':
            rec, key = e.extra
            head = avail
            import io
            while True:
                quiet = L.Report('x')
                outs = [fresh(quiet, name, evs, head, p) for k, k2, evs, b in rec.trans]
                new = head
                for o in outs:
                    new = new & o
                if new == head:
                    break
                head = new
            for k, k2, evs, b in rec.trans:
                fresh(rep, name, evs, head, p)
            avail = head
        elif e.kind == 'alt':
            outs = [fresh(rep, name, l, avail, p) for l in e.extra]
            if outs:
                r = outs[0]
                for o in outs[1:]:
                    r = r & o
                avail = r
    return avail


def rng_source(prog, rep):
    """The generator is the thread's secure one (rand::thread_rng, OsRng)."""
    pass


# ------------------------------------------------------------------------- C07
def c07(prog, rep):
    w = World(prog, rep)
    w.need('get', 'get_notes', 'list', 'list_sites', 'unlock', 'get_alias', 'set_notes')
    rule = 'results come from authenticated data'
    for name in sorted(w.api):
        for p in w.paths(name):
            for oc, f in w.outcomes(p):
                if oc in ('Err', 'panic', 'exit'):
                    continue
                if name in ('list', 'list_sites'):
                    n = 0
                    for x, xf, q in elements(w, p):
                        authenticated(w, rep, rule, name, q, x)
                        rep.ob('listings contain only what was decrypted', name,
                               has_load(w, x, w.R.KEY),
                               'an element of the listing is not a decrypted entry: ' + show(x, 5))
                    continue
                authenticated(w, rep, rule, name, p, p.val)
                if name == 'unlock':
                    for n in (w.R.hmac, w.R.key, w.R.primary):
                        authenticated(w, rep, rule, name, p, field(p.self_after(), n))
                for x in w.writes(p):
                    if x.value is not None:
                        authenticated(w, rep, rule, name, p, x.value)
                if name in ('get', 'get_notes'):
                    for v in set(alts(p.val)):
                        rep.want('a result exists only if the entry was decrypted', name,
                             has_load_e(w, p.E, v), v,
                             'succeeds with a value that does not come from the stored entry')
                if name == 'set_notes':
                    for x in w.writes(p, ('set',)):
                        if x.cipher:
                            rep.want('a result exists only if the entry was decrypted', name,
                                     has_load(w, x.cipher[2], w.R.KEY), x.value,
                                     'rewrites an entry that was not read')
                if name == 'unlock':
                    v = vfield(field(p.self_after(), w.R.hmac), 'Some')
                    rep.want('a result exists only if the entry was decrypted', name,
                             any(True for d in decrypts(v)), v,
                             'the HMAC secret does not come from the stored entry')
    rep.floor(rule, 8)
    rep.floor('a result exists only if the entry was decrypted', 4)
    rep.floor('listings contain only what was decrypted', 2)


def elements(w, p):
    """(element, facts, path) of what a listing yields."""
    if p.kind != 'ret':
        return
    v = p.E.read(p.st, p.val)
    src = M.as_it(v)
    if src is not None and src.op == 'it' and src.a[0].op == 'phi':
        for u, f, r in p.E.phiup.get(src.a[0], ()):
            for x in parts(u):
                if x.op in ('item', 'elt'):
                    yield x.a[0], f, p
        return
    for q in w.prog.pull(p):
        if q.kind == 'ret':
            yield q.val, q.facts, q


def decrypts(t):
    for x in L.value_terms(t):
        if x.op == 'call' and x.a[0] == 'Aead::decrypt':
            yield x


def has_load(w, t, key):
    for d in decrypts(t):
        s = L.decrypt_source(d)
        if s is not None and s[2].op == 'cipher' and s[2].a[0] is key:
            return True
    return False


def has_load_e(w, E, t):
    for d in L.value_terms(t, E):
        if d.op == 'call' and d.a[0] == 'Aead::decrypt':
            s = L.decrypt_source(d)
            if s is not None and s[2].op == 'cipher' and s[2].a[0] is w.R.KEY:
                return True
    return False


def authenticated(w, rep, rule, name, p, v):
    """No stored text occurs in v except below a decryption of the whole stored
    value with the right key (or as the salt)."""
    E = p.E
    seen = set()
    st = [v]
    bad = None
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'loopctx':
            continue
        seen.add(x.id)
        if x.op == 'call' and x.a[0] == 'StorageIO::get':
            k = w.keys(p).parse(x.a[1][1])
            if k == ('fixed', salt_key(w)):
                continue
            bad = x
            break
        if x.op == 'call' and x.a[0] == 'Aead::decrypt':
            s = L.decrypt_source(x)
            if s is None and find(x, lambda t: t.op == 'call' and t.a[0] == 'StorageIO::get' and
                                  w.keys(p).parse(t.a[1][1]) != ('fixed', salt_key(w))) == []:
                continue            # data given by the caller (recovery codes)
            if s is None:
                rep.want(rule, name, False, x, 'decrypts something that is not a complete stored value')
                return
            k = w.keys(p).parse(s[1])
            ck = s[2].a[0] if s[2].op == 'cipher' else None
            if k and k[0] == 'fixed':
                good = ck is not None and ck.op == 'scrypt'
            else:
                good = ck is w.R.KEY
            if not good:
                rep.want(rule, name, False, x, 'decrypts with something other than the current key')
                return
            continue
        if x.op == 'call' and x.a[0] == 'serde_json::from':
            d = x.a[1][0]
            if not (d.op == 'vf' and d.a[1] == 'Ok' and d.a[0].op == 'call' and
                    d.a[0].a[0] == 'Aead::decrypt') and find(d, lambda t: t.op == 'call' and
                                                             t.a[0] == 'Aead::decrypt'):
                rep.want(rule, name, False, d, 'parses something other than exactly the decrypted bytes')
                return
        if x.op in ('io.set', 'io.remove', 'io.clear', 'io.flush'):
            continue
        st.extend(kids(x))
        if x.op == 'phi':
            st.extend(u for u, f, r in E.phiup.get(x, ()))
    if bad is not None:
        rep.want(rule, name, False, bad, 'uses stored data that was not decrypted and authenticated')
    else:
        rep.ob(rule, name, True)


def salt_key(w):
    """The fixed entry that reset stores in the clear."""
    if getattr(w, '_salt', None) is None:
        w._salt = ''
        for p in w.paths('reset'):
            for x in w.writes(p, ('set',)):
                if x.key and x.key[0] == 'fixed' and x.cipher is None:
                    w._salt = x.key[1]
    return w._salt


# ------------------------------------------------------------------------- C11
def c11(prog, rep):
    w = World(prog, rep)
    w.need(*(PASSWORD_OPS + ('list', 'get_alias', 'set_alias', 'remove_alias')))
    rule = 'sites are resolved'
    for name in PASSWORD_OPS:
        for p in w.paths(name):
            for k, span, ef in password_keys(w, p):
                s = k[2]
                ok = w.resolved(p, ef, s, arg(2)) or w.resolved(p, p.facts, s, arg(2))
                if not ok and name == 'set_notes':
                    ok = own_id(w, p, s, 'site')
                rep.want(rule, name, ok, s, 'the site of the entry is not the given site without www. '
                         'and with its alias followed', span)
    for p in w.paths('list'):
        if p.kind != 'ret':
            continue
        for pre in prefixes(w, p):
            ks = pre
            s = prefix_site(w, p, pre)
            if s is None:
                rep.want(rule, 'list', False, pre, 'the listing is not restricted to the keys of a site')
            else:
                rep.want(rule, 'list', w.resolved(p, p.facts, s, arg(2)), s,
                         'the site listed is not the given site without www. and with its alias followed')
    rep.floor(rule, len(PASSWORD_OPS) + 1)
    rule = 'alias operations use the site itself'
    for name in ('get_alias', 'remove_alias', 'set_alias'):
        for p in w.paths(name):
            if p.kind not in ('ret',):
                continue
            for oc, f in w.outcomes(p):
                if oc != 'Ok':
                    continue
                if name == 'get_alias':
                    n = w.alias_of(p, vfield(p.val, 'Ok'))
                    rep.want(rule, name, n is not None and L.norm_site(f, n, arg(2)), p.val,
                             'the alias returned is not the one recorded for the site without www.')
                else:
                    ws = [x for x in w.writes(p) if x.kind == 'site' and not x.maybe]
                    good = [x for x in ws if L.norm_site(f, x.key[2], arg(2))]
                    v = ws[0].key[2] if ws else None
                    rep.want(rule, name, bool(good), v,
                             'the alias is not changed for the given site without www.')
                    if name == 'set_alias':
                        for x in good:
                            a = alias_value(w, x)
                            if x.name == 'set' and a is not None:
                                t = vfield(a, 'Some')
                                rep.want('alias targets are resolved', name,
                                         w.resolved(p, f, t, arg(3)), t,
                                         'the target recorded is not the given one without www. and '
                                         'with its own alias followed', x.span)
    rep.floor(rule, 3)
    rep.floor('alias targets are resolved', 1)


def password_keys(w, p):
    """Keys of password entries the path reads, writes, checks or removes."""
    ks = w.keys(p)
    for e, f, l, m in p.walk():
        t = None
        if e.kind == 'effect' and e.args:
            t = e.args[0]
        elif e.kind == 'read' and len(e.args) > 1:
            t = e.args[1]
        if t is None:
            continue
        k = ks.parse(t)
        if k and k[0] == 'password':
            yield k, e.span, e.facts


def own_id(w, p, t, fieldname):
    """Is t that part of the identity of a password record that was loaded from
    the entry of a resolved site?"""
    i = w.record_with('PasswordId', fieldname, t)
    if i is None:
        return False
    for ty in ('GeneratedPassword', 'StoredPassword'):
        r = w.record_with(ty, 'id', i)
        if r is not None:
            while r.op == 'vf':
                if L.load_of(r) is not None:
                    break
                r = r.a[0]
            s = L.load_of(r)
            if s is not None:
                k = w.keys(p).parse(s[1])
                if k and k[0] == 'password':
                    return w.resolved(p, p.facts, k[2], arg(2))
    return False


def prefixes(w, p):
    """Texts that the keys of a listing have to start with."""
    seen = []
    for x, f, q in elements(w, p):
        found = False
        for k, v in f.items():
            if not isinstance(k, tuple) and v is True and k.op == 'call' and \
                    k.a[0] == 'str::starts_with' and k.a[1][0].op == 'elem' and \
                    mentions_keys(k.a[1][0]):
                if k.a[1][1] not in seen:
                    seen.append(k.a[1][1])
                found = True
        if not found:
            t = mk('call', 'no prefix', (), None)
            if t not in seen:
                seen.append(t)
    return seen


def prefix_site(w, p, pre):
    ps = parts(pre)
    if len(ps) >= 2 and ps[0].op == 'str':
        d = w.keys(p).digest(ps[1])
        if d is not None:
            return d.a[1]
    return None


# ------------------------------------------------------------------------- C12
def c12(prog, rep):
    w = World(prog, rep)
    w.need(*(PASSWORD_OPS + ('list', 'list_sites', 'set_alias')))
    site_prefix = set()
    rule = 'one key for one identity'
    for name in sorted(w.api):
        for p in w.paths(name):
            ks = w.keys(p)
            for e, f, l, m in p.walk():
                t = e.args[0] if e.kind == 'effect' and e.args else \
                    e.args[1] if e.kind == 'read' and len(e.args) > 1 else None
                if t is None:
                    continue
                k = ks.parse(t)
                if k is None:
                    if t.op == 'elem' and mentions_keys(t):
                        continue
                    rep.want(rule, name, False, t, 'the storage key has none of the known forms', e.span)
                    continue
                if k[0] == 'fixed':
                    continue
                site_prefix.add(k[1])
                rep.ob('the digest is HMAC-SHA256', name, all(
                    d.a[2] in ('Sha256', mk('ty', 'Sha256')) or 'Sha256' in str(d.a[2]) for d in k[3:]
                    if isinstance(d, T) and d.op == 'hmac'), 'the digest is not HMAC-SHA256', e.span)
                if k[0] != 'password':
                    continue
                ps = L.split_nul(k[4])
                good = len(ps) == 3 and k[3] == ':' and ps[0] is k[2]
                if not good:
                    rep.want(rule, name, False, t, 'the key is not made from site, name and revision', e.span)
                    continue
                if name in PASSWORD_OPS:
                    nm, rv = ps[1], ps[2]
                    if name == 'set_notes' and own_id(w, p, nm, 'name') and own_id(w, p, rv, 'revision'):
                        rep.ob(rule, name, True)
                        continue
                    rep.want(rule, name, nm is arg(3), nm, 'the name in the key is not the given one', e.span)
                    rep.want('revision 1 is the empty revision', name, revision_ok(e.facts, p.facts, rv),
                             rv, 'the revision in the key is not the given one with 1 taken as empty', e.span)
                # what is written says the same as the key
                if e.kind == 'effect' and e.name == 'StorageIO::set':
                    x = Write(w, p, e, f, l, m)
                    ty, r = payload(x.record)
                    if r is not None and ty in ('GeneratedPassword', 'StoredPassword'):
                        i = w.rec.get(ty, 'id', r)
                        for fl, v in (('site', ps[0]), ('name', ps[1]), ('revision', ps[2])):
                            y = w.rec.get('PasswordId', fl, i)
                            rep.want('the record agrees with its key', name, y is v, y,
                                     'the %s in the record is not the one in the key' % fl, e.span)
            for x in w.writes(p, ('set',)):
                if x.kind == 'site':
                    ty, r = payload(x.record)
                    if ty == 'Site':
                        y = w.rec.get('Site', 'name', r)
                        rep.want('the record agrees with its key', name, y is x.key[2], y,
                                 'the name in the site record is not the one in the key', x.span)
                    elif r is not None and r.op != 'upd':
                        rep.want('the record agrees with its key', name, False, r,
                                 'something other than a site is stored under a site key', x.span)
                elif x.kind == 'password':
                    ty, r = payload(x.record)
                    if ty == 'Site':
                        rep.ob('the record agrees with its key', name, False,
                               'a site is stored under a password key', x.span)
    rep.ob('one prefix', 'library', len(site_prefix) == 1,
           'keys of sites and passwords use different prefixes: %s' % sorted(site_prefix))
    for name in ('list', 'set_alias', 'list_sites'):
        listing_scope(w, rep, name, site_prefix)
    rep.floor(rule, 7)
    rep.floor('revision 1 is the empty revision', 7)
    rep.floor('the record agrees with its key', 3)
    rep.floor('listings keep to their keys', 2)


def revision_ok(f, pf, rv):
    one = eq(arg(4), string('1'))
    k = truth(f, one)
    if k is None:
        k = truth(pf, one)
    if rv is arg(4):
        return k is False
    if rv is string(''):
        return k is True or arg(4) is rv or truth(pf, empty(arg(4))) is True
    return False


def listing_scope(w, rep, name, site_prefix):
    rule = 'listings keep to their keys'
    if name not in ('list', 'list_sites'):
        return
    for p in w.paths(name):
        if p.kind != 'ret':
            continue
        for x, f, q in elements(w, p):
            key = None
            for d in decrypts(x):
                s = L.decrypt_source(d)
                if s is not None and mentions_keys(s[1]):
                    key = s[1]
            if key is None:
                rep.want(rule, name, False, x, 'an element does not come from the entries of the storage')
                continue
            pre = [k.a[1][1] for k, v in f.items() if not isinstance(k, tuple) and v is True and
                   k.op == 'call' and k.a[0] == 'str::starts_with' and k.a[1][0] is key]
            if name == 'list':
                good = False
                for t in pre:
                    ps = parts(t)
                    if len(ps) == 3 and ps[0].op == 'str' and ps[0].a[0] in site_prefix and \
                            w.keys(q).digest(ps[1]) is not None and ps[2] is string(':'):
                        good = True
                rep.want(rule, name, good, pre[0] if pre else None,
                         'the keys listed are not exactly those of the site\'s passwords')
            else:
                good = any(t.op == 'str' and t.a[0] in site_prefix for t in pre)
                # no second colon behind the prefix
                excl = False
                for k, v in f.items():
                    if isinstance(k, tuple):
                        t = k[1]
                        if t.op == 'call' and t.a[0] == 'str::find' and v == 'None' and \
                                key.id in deps(t.a[1][0]) and t.a[1][1] in (string(':'), char(':')):
                            excl = True
                    elif k.op == 'call' and k.a[0] in ('str::contains',) and v is False and \
                            key.id in deps(k.a[1][0]) and k.a[1][1] in (string(':'), char(':')):
                        excl = True
                rep.want(rule, name, good, pre[0] if pre else None,
                         'the keys listed are not restricted to the prefix of sites')
                rep.ob(rule, name, True if excl else None if not closed_facts(f) else False,
                       'keys of passwords are not excluded from the listing of sites')


def closed_facts(f):
    return all(L.closed(k[1] if isinstance(k, tuple) else k) for k in f)


# ------------------------------------------------------------------------- C13
def c13(prog, rep):
    w = World(prog, rep)
    w.need('set_alias')
    n = 0
    for p in w.paths('set_alias'):
        for oc, f in w.outcomes(p):
            if oc == 'Err':
                # a refusal because of passwords or because of the cycle
                continue
            if oc != 'Ok':
                continue
            main = [x for x in w.writes(p, ('set',)) if x.kind == 'site' and not x.maybe]
            if not main:
                rep.ob('the alias is recorded', 'set_alias', False, 'succeeds without recording the alias')
                continue
            x = main[-1]
            a = alias_value(w, x)
            if a is None:
                rep.want('the alias is recorded', 'set_alias', False, x.value,
                         'what is stored is not a site record', x.span)
                continue
            site, tgt = x.key[2], vfield(a, 'Some')
            rep.ob('the alias is recorded', 'set_alias', True)
            rep.want('the target is final', 'set_alias', w.resolved(p, f, tgt, arg(3)), tgt,
                     'the recorded target may itself be an alias', x.span)
            rep.want('the site is the given one', 'set_alias', L.norm_site(f, site, arg(2)), site,
                     'the site aliased is not the given one without www.', x.span)
            same = truth(f, eq(site, tgt))
            if same is None:
                same = truth(x.ev.facts, eq(site, tgt))
            rep.ob('an alias differs from its target', 'set_alias',
                   same is False, 'a site may be made an alias of itself', x.span)
            no_passwords(w, rep, p, f, site, x)
            repoint(w, rep, p, f, site, tgt, x)
    followers(w, rep)
    rep.floor('the alias is recorded', 1)
    rep.floor('an alias has no passwords', 1)
    rep.floor('aliases of the new alias follow it', 1)


def no_passwords(w, rep, p, f, site, x):
    """On every way to success the listing of the site's passwords was found to be empty."""
    rule = 'an alias has no passwords'
    good = False
    part = None
    for ff in (f, x.ev.facts):
        for k, v in ff.items():
            t = k[1] if isinstance(k, tuple) else k
            if mentions_keys(t) and is_listing(w, p, t, site) and (
                    not isinstance(k, tuple) or v == 'None'):
                good = True
    for e, ef, l, m in p.all('none', 'exhausted'):
        if m:
            continue
        it = e.args[0]
        if it.a[2] == '*' and passed_over(w, p, site):
            part = 'a loop over them goes on although there is one'
            continue
        pulled = [q for q in w.prog.pull(p, mk('it', it.a[0], it.a[1], 0)) if q.kind == 'ret']
        scope = [q for q in pulled if site_scope(w, q, site)]
        if not scope:
            continue
        kinds = set()
        full = False
        for q in scope:
            vs = restrictions(q)
            if not vs:
                full = True
            elif len(vs) == 1 and vs[0][0] == 'variant':
                kinds.add(vs[0][1])
        if full or len(kinds) > 1:
            good = True
        else:
            part = 'only some of its passwords are looked for'
    if good:
        rep.ob(rule, 'set_alias', True)
    else:
        rep.ob(rule, 'set_alias', False, 'a site may be made an alias although it has passwords'
               + (' (%s)' % part if part else ''), x.span)


def site_scope(w, q, site):
    """Is the element taken from the keys with the prefix of the site's passwords?"""
    for k, v in q.facts.items():
        if not isinstance(k, tuple) and v is True and k.op == 'call' and \
                k.a[0] == 'str::starts_with' and mentions_keys(k.a[1][0]):
            ps = parts(k.a[1][1])
            d = w.keys(q).digest(ps[1]) if len(ps) == 3 else None
            if d is not None and d.a[1] is site and ps[2] is string(':'):
                return True
    return False


def restrictions(q):
    """Facts about the content of an entry of a listing (other than that it could
    be decrypted and parsed)."""
    r = []
    for k, v in q.facts.items():
        t = k[1] if isinstance(k, tuple) else k
        lds = find(t, lambda y: y.op == 'call' and y.a[0] == 'serde_json::from' and mentions_keys(y))
        if not lds or t is lds[0]:
            continue
        ld = lds[0]
        if isinstance(k, tuple) and t.op == 'vf' and t.a[0] is ld:
            r.append(('variant', v))
        else:
            r.append(('fact', t))
    return r


def passed_over(w, p, site):
    for e in p.events:
        if e.kind == 'loop':
            for k, k2, evs, b in e.extra[0].trans:
                for k, v in b.facts.items():
                    if not isinstance(k, tuple) and v is True and k.op == 'call' and \
                            k.a[0] == 'str::starts_with' and mentions_keys(k.a[1][0]):
                        ps = parts(k.a[1][1])
                        d = w.keys(p).digest(ps[1]) if len(ps) == 3 else None
                        if d is not None and d.a[1] is site:
                            if any(isinstance(k, tuple) and v == 'Ok' and k[1].op == 'call' and
                                   k[1].a[0] == 'serde_json::from' for k, v in b.facts.items()):
                                return True
    return False


def is_listing(w, p, t, site):
    for y in L.value_terms(t, p.E):
        if y.op == 'hmac' and y.a[1] is site:
            return True
    return False


def loop_facts(p):
    """Fact sets of the passes through every loop of the path."""
    def go(events):
        for e in events:
            if e.kind == 'loop':
                for k, k2, evs, b in e.extra[0].trans:
                    yield b.facts
                    yield from go(evs)
            elif e.kind == 'alt':
                for l in e.extra:
                    yield from go(l)
    yield from go(p.events)


def repoint(w, rep, p, f, site, tgt, x):
    """Some loop over the sites sets the alias of those that point at the new alias."""
    rule = 'aliases of the new alias follow it'
    seen = False
    for y in w.writes(p, ('set',)):
        if y.kind != 'site' or not y.maybe:
            continue
        a = alias_value(w, y)
        if a is None:
            continue
        t = vfield(a, 'Some')
        rec = w.record_with('Site', 'name', y.key[2])
        cond = None
        if rec is not None:
            old = w.rec.get('Site', 'alias', rec)
            # at the write, or when the site was picked
            for ff in [y.facts, y.ev.facts] + list(loop_facts(p)):
                for k, v in ff.items():
                    if v is True and not isinstance(k, tuple) and k.op == 'eq':
                        if (k is eq(vfield(old, 'Some'), site) or k is eq(old, some(site)) or
                                same_shape(k, w, site)):
                            cond = True
            if cond is None and L.closed(rec):
                cond = False
        rep.want(rule, 'set_alias', t is tgt, t, 're-points an alias to something other than the '
                 'target', y.span)
        if cond is False:
            rep.ob(rule, 'set_alias', False, 'changes the alias of sites that are not aliases of the '
                   'new alias', y.span)
        seen = True
    if not seen:
        if any(y.key is None and y.maybe for y in w.writes(p, ('set',))):
            rep.ob(rule, 'set_alias', None, 'the entries rewritten in the loop are not understood')
        else:
            rep.ob(rule, 'set_alias', False, 'aliases of the site keep pointing at it after it became '
                   'an alias itself', x.span)


PARTIAL = ('take_while', 'skip_while', 'map_while', 'scan')
PASSING = ('map', 'filter', 'filter_map', 'cloned', 'copied', 'enumerate', 'inspect', 'peekable', 'fuse',
           'rev', 'flat_map', 'flatten', 'by_ref')


def followers(w, rep):
    """All the aliases of the new alias are found: every list on the way from the keys of
    the storage to the writes is gone through to its end, and nothing but the alias decides."""
    rule = 'every alias of the new alias follows it'
    for p in w.paths('set_alias', trace=True):
        if not any(oc == 'Ok' for oc, f in w.outcomes(p)):
            continue
        main = [x for x in w.writes(p, ('set',)) if x.kind == 'site' and not x.maybe]
        a = alias_value(w, main[-1]) if main else None
        if a is None:
            continue
        site, tgt = main[-1].key[2], vfield(a, 'Some')
        loops = {id(y.loop): y.loop for y in w.writes(p, ('set',)) if y.maybe and y.loop is not None and
                 y.kind == 'site'}
        for rec in loops.values():
            evs = {y.ev for y in w.writes(p, ('set',)) if y.loop is rec}
            passes = [(es, b.facts) for k, k2, es, b in rec.trans if any(e in evs for e in es)]
            if not passes:
                rep.ob(rule, 'set_alias', None, 'a nested loop')
                continue
            bad = whole(w, p, rec, passes, site, tgt)
            ok = True if bad is None else None if bad == '?' else False
            rep.ob(rule, 'set_alias', ok, bad if ok is False else 'the loop is not understood',
                   next(iter(evs)).span)


def whole(w, p, rec, passes, site, tgt, depth=0):
    """What keeps the passes that write or collect from seeing every alias of the site."""
    if depth > 4:
        return '?'
    und = None
    srcs = set()
    for es, f in passes:
        its = [e.args[0] for e in es if e.kind == 'none' and e.name == 'next']
        if len(its) != 1:
            return '?'
        srcs.add(its[0])
    if len(srcs) != 1:
        return '?'
    it = next(iter(srcs))
    extra = []
    for es, f in passes:
        d = {}
        for k, v in f.items():
            if k in p.facts and p.facts[k] == v or not on_entry(w, k) or allowed(w, k, v, site, tgt):
                continue
            if not L.closed(k[1] if isinstance(k, tuple) else k):
                und = '?'
            d[k] = v
        extra.append(d)
    k = missed(extra)
    if k is not None:
        if und:
            return und
        return 'an alias is only changed if ' + show(k[1] if isinstance(k, tuple) else k, 4)
    # gone through to the end?
    found = [evs for evs, i in positions(p.events, rec) if any(
        e.kind == 'none' and e.name == 'exhausted' and e.args[0].a[0] is it.a[0] for e in evs[i + 1:])]
    if not found:
        return 'the loop over the aliases may end early'
    while True:
        for kind, _ in it.a[1] if it.op == 'it' else ():
            if kind in PARTIAL:
                return 'only some of the aliases are looked at: ' + kind
            if kind not in PASSING:
                und = '?'
        src = it.a[0]
        if src.op in ('take', 'skip', 'stepby', 'slice', 'upd'):
            return 'only some of the aliases are changed: ' + show(src, 2)
        if src.op in ('it', 'rev', 'sorted', 'dedup'):
            it = src
            if it.op == 'it':
                continue
            it = mk('it', it.a[0], (), 0)
            continue
        if src.op == 'range':
            n = src.a[1]
            if src.a[0] is integer(0) and n.op == 'len':
                it = mk('it', n.a[0], (), 0)
                continue
            return '?'
        break
    if src.op == 'keys':
        return und
    if src.op == 'phi' and p.E.phiup.get(src):
        ups = {}
        for v, g, r in p.E.phiup[src]:
            if v is src or not any(True for x in positions(p.events, r)):
                continue
            ps = parts(v)
            if not ps or ps[0] is not src or len(ps) != 2:
                return '?'
            ups.setdefault(id(r), (r, []))[1].append(g)
        for r, gs in ups.values():
            sub = [(es, b.facts) for k, k2, es, b in r.trans if any(b.facts is g for g in gs)]
            if not sub or len(sub) != len(gs):
                return '?'
            bad = whole(w, p, r, sub, site, tgt, depth + 1)
            if bad:
                return bad
        return und if ups else '?'
    return '?'


def positions(evs, rec):
    for i, e in enumerate(evs):
        if e.kind == 'loop':
            if e.extra[0] is rec:
                yield evs, i
            else:
                for k, k2, es, b in e.extra[0].trans:
                    yield from positions(es, rec)
        elif e.kind == 'alt':
            for l in e.extra:
                yield from positions(l, rec)


def on_entry(w, k):
    """Is the fact about a field of a listed site entry?"""
    t = k[1] if isinstance(k, tuple) else k
    return any(y.op == 'f' and mentions_keys(y.a[0]) and (
        w.record_with('Site', 'alias', y) is not None or w.record_with('Site', 'name', y) is not None)
        for y in L.value_terms(t))


def allowed(w, k, v, site, tgt):
    """What may decide about changing the alias of an entry."""
    if isinstance(k, tuple):
        return v in ('Some', 'Ok') and (k[1].op == 'call' or w.record_with('Site', 'alias', k[1]) is not None)
    if k.op == 'eq':
        if v is True and same_shape(k, w, site):
            return True
        for s, o in (k.a[:2], k.a[1::-1]):
            # an alias of itself is refused
            if v is False and w.record_with('Site', 'name', s) is not None and (o is tgt or o is site):
                return True
    return False


def missed(sets):
    """A condition under which none of the passes goes on (None: they cover everything)."""
    keys = list(dict.fromkeys(k for d in sets for k in d))
    if not keys:
        return None
    if len(keys) > 8:
        return keys[0] if any(all(k in d for d in sets) for k in keys[:1]) else None
    dom = []
    for k in keys:
        vs = {d[k] for d in sets if k in d}
        dom.append([True, False] if vs <= {True, False} else list(vs | ({'None', 'Some'} if vs & {'None', 'Some'}
                   else {'Ok', 'Err'} if vs & {'Ok', 'Err'} else {'other'})))
    for vals in itertools.product(*dom):
        env = dict(zip(keys, vals))
        if not any(all(env[k] == v for k, v in d.items()) for d in sets):
            return next((k for k in keys if all(k in d for d in sets)), keys[0])
    return None


def same_shape(k, w, site):
    """alias of some site record == site"""
    for s, o in (k.a[:2], k.a[1::-1]):
        if o is site or o is some(site):
            a = s.a[0] if s.op == 'vf' and s.a[1] == 'Some' else s
            if w.record_with('Site', 'alias', a) is not None:
                return True
    return False


# ------------------------------------------------------------------------- C29
def c29(prog, rep):
    w = World(prog, rep)
    w.need('set_notes', 'get_notes')
    kinds = set()
    for p in w.paths('set_notes'):
        for oc, f in w.outcomes(p):
            ws = w.writes(p, ('set', 'remove', 'clear'))
            if oc != 'Ok':
                continue
            sets = [x for x in ws if x.name == 'set']
            rep.ob('exactly the one entry is rewritten', 'set_notes',
                   len(ws) == 1 and len(sets) == 1,
                   'setting notes changes more or less than one entry: %s' % [x.name for x in ws])
            for x in sets:
                kinds |= notes_write(w, rep, p, f, x)
    for k in ('GeneratedPassword', 'StoredPassword'):
        rep.ob('both kinds of passwords take notes', k, k in kinds, 'notes cannot be set for a ' + k)
    kinds = set()
    for p in w.paths('get_notes'):
        for oc, f in w.outcomes(p):
            if oc != 'Ok':
                continue
            v = vfield(p.val, 'Ok')
            ok = None
            for ty in ('GeneratedPassword', 'StoredPassword'):
                r = w.record_with(ty, 'notes', v)
                if r is not None and source_ok(w, p, f, r):
                    ok = ty
                    if r.op == 'vf':
                        kinds.add(r.a[1])
            rep.want('notes are read from the entry', 'get_notes', ok is not None, v,
                     'the notes returned are not those of the entry')
    rep.ob('notes of both kinds can be read', 'get_notes', len(kinds) >= 2,
           'notes of one kind of password cannot be read')
    rep.floor('exactly the one entry is rewritten', 1)


def loaded_from(w, p, r):
    """The load term that r (a record or one of its variants) comes from."""
    while True:
        if L.load_of(r) is not None:
            return r
        if r.op in ('vf', 'f'):
            r = r.a[0]
        else:
            return None


def source_ok(w, p, f, r):
    l = loaded_from(w, p, r)
    if l is None:
        return False
    s = L.load_of(l)
    k = w.keys(p).parse(s[1])
    if not (k and k[0] == 'password'):
        return False
    ps = L.split_nul(k[4])
    return len(ps) == 3 and w.resolved(p, f, k[2], arg(2)) and ps[1] is arg(3)


def notes_write(w, rep, p, f, x):
    rule = 'only the notes change'
    r = x.record
    if x.kind != 'password' or r is None:
        rep.want(rule, 'set_notes', False, x.value, 'what is written is not a password entry', x.span)
        return set()
    # resulting record: field by field
    kinds = set()
    v = None
    base = r
    while base.op == 'upd':
        base = base.a[0]
    var = variant(f, base) or variant(f, r)
    if r.op == 'adt':
        var = r.a[1]
        inner = r.a[3][0] if r.a[3] else None
    else:
        inner = vfield(r, var) if var else None
    if inner is None:
        rep.want(rule, 'set_notes', False, r, 'the kind of the entry is not known', x.span)
        return set()
    # source: the loaded record
    src = None
    for t in L.value_terms(r):
        if L.load_of(t) is not None and t.op == 'vf':
            src = t
            break
    if src is None or not source_ok(w, p, f, src):
        rep.want(rule, 'set_notes', False, r, 'the entry written was not the one read', x.span)
        return set()
    sv = variant(f, src)
    rep.want(rule, 'set_notes', sv == var, r, 'the kind of the entry changes', x.span)
    old = vfield(src, var)
    for ty, fields in (('GeneratedPassword', ('id', 'length', 'charset')),
                       ('StoredPassword', ('id', 'password'))):
        tyname = inner_type(w, var)
        if ty != tyname:
            continue
        kinds.add(ty)
        for n in fields:
            a, b = w.rec.get(ty, n, inner), w.rec.get(ty, n, old)
            rep.want(rule, 'set_notes', same_value(w, a, b), a, 'the %s of the entry changes' % n, x.span)
        a = w.rec.get(ty, 'notes', inner)
        rep.want('the notes written are the given ones', 'set_notes', a is arg(5), a,
                 'the notes written are not the given ones', x.span)
    if not kinds:
        rep.ob(rule, 'set_notes', None, 'unknown kind of entry %s' % var, x.span)
    return kinds


def same_value(w, a, b):
    if a is b:
        return True
    if a.op == 'adt' and a.a[2]:
        return all(same_value(w, x, field(b, n)) for n, x in zip(a.a[2], a.a[3]))
    return False


def inner_type(w, var):
    """Record type of the variant of the enum of stored passwords."""
    for a in w.prog.crates['pfp']['adts']:
        if a['enum']:
            for v in a['vs']:
                if v['n'] == var and len(v['f']) == 1:
                    for n in ('GeneratedPassword', 'StoredPassword'):
                        if v['f'][0]['ty'].split('::')[-1] == n:
                            return n
    return None


RULES = {'C01': c01, 'C02': c02, 'C05': c05, 'C06': c06, 'C07': c07, 'C11': c11, 'C12': c12,
         'C13': c13, 'C29': c29}
