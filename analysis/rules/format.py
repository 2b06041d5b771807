"""The storage file: C21 (writer and reader agree), C25 (atomic replacement),
C27 (only genuine files load), C28 (the map behaves as a map)."""
import re
from terms import *
import lib as L
from lib import SELF, arg, Missing
from .common import *


# ------------------------------------------------------------------------ C28
def fileio(prog, name, trait=True):
    n = prog.impl('StorageIO', 'FileIO', name) if trait else prog.method('FileIO', name)
    if n is None:
        raise Missing('FileIO::' + name)
    return n


def file_roles(prog):
    """(field of the map, field of the path) of FileIO."""
    data = path = None
    for a in prog.crates['pfp']['adts']:
        if a['path'].endswith('::FileIO'):
            for f in a['vs'][0]['f']:
                if 'HashMap<' in f['ty'] or 'BTreeMap<' in f['ty']:
                    data = f['n']
                elif 'PathBuf' in f['ty']:
                    path = f['n']
    if data is None or path is None:
        raise Missing('fields of FileIO')
    return data, path


def c28(prog, rep):
    data, path = file_roles(prog)
    m = field(SELF, data)
    look = None

    def after(p):
        a = p.self_after()
        return SELF if a is None else a

    def same_rest(p, where):
        """Nothing but the map changes."""
        a = after(p)
        if a is SELF:
            return True
        if a.op == 'upd' and a.a[0] is SELF:
            rest = [n for n, v in a.a[1] if n != data]
            rep.want('nothing but the map changes', where, not rest, a, 'also changes other fields')
        elif a.op == 'adt':
            for n, v in zip(a.a[2], a.a[3]):
                if n != data:
                    rep.want('nothing but the map changes', where, v is field(SELF, n), v,
                             'also changes %s' % n)
        else:
            rep.ob('nothing but the map changes', where, None)

    def member(facts, k):
        t = mk('call', 'HashMap::get', (m, k), None)
        return variant(facts, t), t

    # get
    n = fileio(prog, 'get')
    for p in prog.paths(n):
        for res, f in outcomes(prog, p):
            v, t = member(f, arg(2))
            if res == 'Ok':
                x = vfield(p.val, 'Ok')
                want = vfield(t, 'Some')
                rep.want('get returns what is stored under the key', n, x is want and v == 'Some', x,
                         'returns something else')
            elif res == 'Err':
                rep.want('get fails only for an absent key', n, v == 'None', None if v is None else t,
                         'an error although the key may be present')
                rep.want('an absent key is reported as missing', n,
                         is_missing(p, f), vfield(p.val, 'Err'), 'reports another error')
            else:
                rep.ob('get does not panic', n, False, 'panics')
            rep.ob('reading changes nothing', n, after(p) is SELF, 'changes the storage')
    # contains_key
    n = fileio(prog, 'contains_key')
    for p in prog.paths(n):
        if p.kind != 'ret':
            rep.ob('contains_key does not panic', n, False, 'panics')
            continue
        for val in (True, False):
            f = assume(p.facts, p.val, val)
            if f is None:
                continue
            v, t = member(f, arg(2))
            rep.want('contains_key tells whether the key is present', n,
                     v == ('Some' if val else 'None'), p.val, 'does not depend on the key')
        rep.ob('reading changes nothing', n, after(p) is SELF, 'changes the storage')
    # set
    n = fileio(prog, 'set')
    for p in prog.paths(n):
        d = field(after(p), data)
        rep.want('set inserts the value under the key', n,
                 d.op == 'minsert' and d.a[0] is m and d.a[1] is arg(2) and d.a[2] is arg(3), d,
                 'stores something else')
        same_rest(p, n)
    # remove
    n = fileio(prog, 'remove')
    for p in prog.paths(n):
        for res, f in outcomes(prog, p):
            d = field(after(p), data)
            v, t = member(f, arg(2))
            removed = d.op == 'mremove' and d.a[0] is m and d.a[1] is arg(2)
            if res == 'Ok':
                rep.want('remove removes exactly the key', n, removed, d, 'leaves or removes others')
                rep.want('remove succeeds only for a present key', n, v == 'Some', None,
                         'an absent key is not reported')
            else:
                rep.want('a failed remove changes nothing', n, d is m or removed and v == 'None', d,
                         'fails and changes the storage')
                rep.want('an absent key is reported as missing', n, v == 'None' and is_missing(p, f),
                         vfield(p.val, 'Err'), 'reports another error')
            same_rest(p, n)
    # clear
    n = fileio(prog, 'clear')
    for p in prog.paths(n):
        d = field(after(p), data)
        rep.want('clear removes everything', n, d.op == 'map0', d, 'leaves entries')
        same_rest(p, n)
    # keys
    n = fileio(prog, 'keys')
    for p in prog.paths(n):
        x = p.val
        if x.op == 'it':
            good = x.a[0].op == 'keys' and x.a[0].a[0] is m and not x.a[1] and x.a[2] == 0
            rep.want('keys lists the present keys', n, good, x, 'lists something else')
        else:
            rep.ob('keys lists the present keys', n, None, show(x, 4))
        rep.ob('reading changes nothing', n, after(p) is SELF, 'changes the storage')
    # new, flush
    n = fileio(prog, 'new', False)
    for p in prog.paths(n):
        rep.want('a new storage is empty', n, field(p.val, data).op == 'map0', field(p.val, data),
                 'has entries')
    n = fileio(prog, 'flush')
    for p in prog.paths(n):
        rep.want('saving changes nothing in memory', n, field(after(p), data) is m, field(after(p), data),
                 'changes the entries')
        break
    rep.floor('get returns what is stored under the key', 1)
    rep.floor('set inserts the value under the key', 1)
    rep.floor('remove removes exactly the key', 1)


def is_missing(p, facts):
    e = vfield(p.val, 'Err')
    return variant(facts, e) == 'KeyMissing'


# ------------------------------------------------------------------------ C25
def strip(h):
    """The file behind a handle that calls may have changed."""
    while True:
        if h.op == 'out':
            c = h.a[0]
            h = c.a[1][h.a[1]] if isinstance(h.a[1], int) and h.a[1] < len(c.a[1]) else c.a[1][0]
        elif h.op == 'vf' and h.a[1] in ('Ok', 'Some') and h.a[0].op == 'call' and \
                h.a[0].a[0] in ('BufWriter::into_inner', 'File::try_clone'):
            h = h.a[0].a[1][0]
        elif h.op == 'call' and h.a[0] in ('BufWriter::new', 'File::by_ref', 'Write::by_ref'):
            h = h.a[1][0]
        else:
            return h


def opener(h):
    """(path, creates or truncates, writable) of the call that opened a file."""
    h = strip(h)
    if h.op == 'vf' and h.a[1] == 'Ok':
        h = h.a[0]
    if h.op != 'call':
        return None
    if h.a[0] in ('File::create', 'File::create_new'):
        return h.a[1][0], True, True
    if h.a[0] == 'File::open':
        return h.a[1][0], False, False
    if h.a[0] == 'OpenOptions::open':
        o = options(h.a[1][0])
        return h.a[1][1], o.get('truncate') or o.get('create_new'), \
            bool(o.get('write') or o.get('append'))
    return None


def options(b):
    r = {}
    while b.op == 'call' or b.op == 'out':
        if b.op == 'out':
            b = b.a[0]
            continue
        k = b.a[0].split('::')[-1]
        if len(b.a[1]) == 2 and k not in r:
            r[k] = b.a[1][1] is not FALSE
        if not b.a[1]:
            break
        b = b.a[1][0]
    return r


READS = ('fs::create_dir_all', 'fs::create_dir', 'OpenOptions::new', 'OpenOptions::write',
         'OpenOptions::read', 'OpenOptions::create', 'OpenOptions::create_new', 'OpenOptions::truncate',
         'OpenOptions::append', 'OpenOptions::mode', 'File::metadata', 'fs::metadata',
         'fs::symlink_metadata', 'fs::canonicalize', 'File::set_permissions', 'fs::set_permissions',
         'File::open', 'fs::read_link', 'Path::exists', 'File::flush', 'Write::flush', 'process::id',
         'Metadata::is_file', 'Metadata::permissions', 'Path::is_file', 'fs::read', 'fs::read_to_string')


def c25(prog, rep):
    data, pathf = file_roles(prog)
    n = fileio(prog, 'flush')
    P0 = field(SELF, pathf)
    ps = prog.paths(n)
    content_ok = mk('call', 'serde_json::to', (SELF,), None)

    def is_storage(t):
        """The path of the storage file, as given or resolved."""
        if t is P0:
            return True
        if t.op in ('vf', 'call') and t.op == 'vf' and t.a[0].op == 'call' and \
                t.a[0].a[0] == 'fs::canonicalize':
            return is_storage(t.a[0].a[1][0])
        if t.op == 'vf' and t.a[0].op == 'call' and t.a[0].a[0] == 'fs::read_link':
            return is_storage(t.a[0].a[1][0])
        return False

    def complete(t):
        return t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and \
            t.a[0].a[0] == 'serde_json::to' and t.a[0].a[1][0] is SELF

    def special(facts):
        """It is known not to be an ordinary file."""
        for k, v in facts.items():
            if isinstance(k, tuple):
                continue
            if k.op == 'call' and k.a[0].split('::')[-1] == 'is_file' and v is False and \
                    any(is_storage(y) or y.op == 'call' and y.a[0] == 'OpenOptions::open' and
                        is_storage(y.a[1][1]) for y in L.value_terms(k)):
                return True
        return False

    def okd(e, facts):
        """The result of the event is known to be a success."""
        return e.res is not None and variant(facts, e.res) == 'Ok'

    def step(e, facts, state):
        new = set()
        for s in state:
            new.add(one(e, facts, dict(s)))
        return frozenset(new)

    def one(e, facts, s):
        """s: temporary path -> 'open' / 'written' / 'synced'; 'done' once renamed."""
        k = e.name
        a = e.args
        sp = e.site if hasattr(e, 'site') else None
        if e.kind not in ('ext',):
            return tuple(sorted(s.items(), key=str))

        def bad(rule, why, val=None):
            rep.want(rule, n, False, val, why)

        def written(path, text, full):
            if is_storage(path):
                if not special(facts):
                    bad('the storage file is never overwritten in place',
                        '%s writes to the storage file itself' % k)
                    s[path] = 'bad'
                elif full and complete(text) and okd(e, facts):
                    s['done'] = True
                return
            if not full or not complete(text):
                s[path] = 'partial' if L.closed(text) else 'unknown'
            elif okd(e, facts):
                s[path] = 'written' if s.get(path) != 'unknown' else 'unknown'
            else:
                s[path] = 'partial'
        if k == 'fs::write' and len(a) == 2:
            written(a[0], a[1], True)
        elif k in ('File::create', 'OpenOptions::open', 'File::create_new'):
            o = opener(e.res)
            if o and is_storage(o[0]):
                rep.ob('the storage file is never overwritten in place', n,
                       not o[1] or special(facts), k + ' empties the storage file itself')
            elif o and o[2]:
                s[o[0]] = 'open' if o[1] else {'gone': 'open', 'removed?': 'unknown'}.get(s.get(o[0]), 'stale')
        elif k in ('Write::write_all', 'Write::write', 'Write::write_fmt', 'File::write_all',
                   'File::set_len', 'Write::write_all_vectored', 'FileExt::write_all_at'):
            o = opener(a[0])
            if o and s.get(o[0]) in ('stale', 'unknown'):
                # old content: cut off, or not
                s[o[0]] = 'unknown' if k == 'File::set_len' else s[o[0]]
            elif o:
                written(o[0], a[1], k.endswith('write_all') and s.get(o[0]) in ('open', None))
            else:
                s['?'] = True
        elif k in ('File::sync_all', 'File::sync_data'):
            o = opener(a[0])
            if o and s.get(o[0]) == 'written' and okd(e, facts):
                s[o[0]] = 'synced'
        elif k == 'fs::rename':
            if is_storage(a[0]):
                bad('the storage file is never moved away', 'moves the storage file away', None)
            elif is_storage(a[1]):
                st = s.get(a[0])
                if st == 'unknown' or '?' in s and st not in ('synced', 'open'):
                    rep.ob('only a complete file replaces the storage file', n, None, show(a[0], 4))
                else:
                    rep.ob('only a complete file replaces the storage file', n, st == 'synced',
                           {'open': 'the new file is still empty',
                            'partial': 'the new file may be incomplete',
                            'stale': 'the new file may still hold the end of an older one',
                            'written': 'the new file has not been synced to the disk',
                            }.get(st, 'the new file was not written here'))
                if okd(e, facts):
                    s['done'] = True
        elif k in ('fs::copy', 'fs::hard_link') and len(a) == 2:
            if is_storage(a[1]):
                bad('the storage file is never overwritten in place', k + ' onto the storage file')
        elif k in ('fs::remove_file', 'fs::remove_dir_all'):
            if is_storage(a[0]):
                bad('the storage file is never moved away', 'removes the storage file')
            else:
                s[a[0]] = 'gone' if okd(e, facts) or any(
                    isinstance(t, tuple) and t[1] is e.res for t in facts) else 'removed?'
        elif k not in READS:
            s['?'] = True
        return tuple(sorted(s.items(), key=str))

    for p in ps:
        for res, f in outcomes(prog, p):
            end = run_events(p.events, f, frozenset({()}), step)
            if res == 'Ok':
                for s in end:
                    s = dict(s)
                    rep.ob('success means that the file has been replaced', n,
                           True if s.get('done') else None if '?' in s else False,
                           'success is reported although the storage file was not replaced')
    directory(prog, rep, n, P0, ps)
    rep.floor('only a complete file replaces the storage file', 1)
    rep.floor('success means that the file has been replaced', 1)
    return ps


def directory(prog, rep, n, P0, ps):
    """The file can be written where no directory exists yet."""
    R = 'the directory of the storage file is created first'

    def above(t):
        return bool(find(t, lambda y: y.op == 'call' and y.a[0] in ('Path::parent', 'Path::ancestors') and
                         find(y, lambda z: z is P0)))
    makes = lambda e: e.kind == 'ext' and (
        e.name.split('::')[-1] == 'create_dir_all' or e.name == 'DirBuilder::create')
    some = any(makes(e) for p in ps for e, f, l, m in p.walk())
    for p in ps:
        for res, f in outcomes(prog, p):
            if res != 'Ok':
                continue
            made = False
            for e in p.events:
                if made is False and makes(e) and any(above(a) for a in e.args):
                    made = True
                elif made is False and e.kind == 'ext' and e.name in ('File::create', 'fs::rename', 'fs::write'):
                    made = None
            if made is True:
                rep.ob(R, n, True)
                continue
            asked = any(above(t) and (v is not False and v != 'Err' and find(
                t, lambda y: y.op == 'call' and y.a[0].split('::')[-1] in (
                    'exists', 'is_dir', 'try_exists', 'metadata', 'read_dir', 'as_os_str', 'file_name', 'is_empty')) or
                t.op == 'call' and v == 'None' or t.op in ('empty', 'eq') and v is True or
                t.op == 'eqz' and t.a[0].op == 'len' and t.a[1] == 0 and v is True)
                for k, v in f.items() for t in [k[1] if isinstance(k, tuple) else k])
            other = any(e.kind == 'ext' and e.name not in READS and any(above(a) for a in e.args) and
                        not e.name.startswith(('Path::', 'Metadata::', 'OsStr::')) and
                        not makes(e) and e.name.split('::')[-1] != 'create_dir' for e, ff, l, m in p.walk())
            retried = any(isinstance(k, tuple) and v == 'Err' and find(k[1], lambda y: y.op == 'call' and y.a[0] in (
                'File::create', 'OpenOptions::open', 'fs::write')) for k, v in f.items()) and some
            rep.ob(R, n, True if asked else None if other or retried or some and strange(f, above)
                   else False, 'a new file cannot be written if its directory does not exist yet')
    rep.floor(R, 1)


def strange(f, above):
    """Nothing is known about the folder, or something that is not understood."""
    known = [(k[1] if isinstance(k, tuple) else k, v) for k, v in f.items()]
    known = [(t, v) for t, v in known if above(t)]
    return not known or any(not (
        t.op == 'call' and t.a[0].split('::')[-1] in (
            'parent', 'exists', 'is_dir', 'try_exists', 'metadata', 'is_empty', 'is_absolute',
            'is_relative', 'create_dir', 'create_dir_all') or t.op in ('empty', 'eq')) for t, v in known)


# ------------------------------------------------------------------------ C27
def c27(prog, rep):
    data, pathf = file_roles(prog)
    n = fileio(prog, 'load', False)
    for p in prog.paths(n):
        for res, f in outcomes(prog, p):
            if res != 'Ok':
                rep.ob('an error otherwise', n, res == 'Err', 'panics')
                continue
            x = vfield(p.val, 'Ok')
            base = x.a[0] if x.op == 'upd' else x
            src = base
            good = src.op == 'vf' and src.a[1] == 'Ok' and src.a[0].op == 'call' and \
                src.a[0].a[0] == 'serde_json::from'
            rep.want('what is loaded is what the file contains', n, good, src,
                     'is not the parsed file')
            if good:
                text = src.a[0].a[1][0]
                fine = text.op == 'vf' and text.a[1] == 'Ok' and text.a[0].op == 'call' and \
                    text.a[0].a[0] in ('fs::read_to_string', 'fs::read') and \
                    text.a[0].a[1][0] is arg(1)
                rep.want('the whole file is parsed', n, fine, text,
                         'is not the complete content of the file')
                ty = [y for y in src.a[0].a[1][1:]]
                rep.want('the file is parsed as a storage file', n,
                         any('FileIO' in show(y, 4) for y in ty), ty[0] if ty else None,
                         'is parsed as something else')
            rep.want('it is saved back to where it came from', n, field(x, pathf) is arg(1),
                     field(x, pathf), 'remembers another path')
            if x.op == 'upd':
                rest = [k for k, v in x.a[1] if k != pathf]
                rep.ob('what is loaded is what the file contains', n, not rest,
                       'changes what was loaded')
    n = fileio(prog, 'new', False)
    for p in prog.paths(n):
        rep.want('it is saved back to where it came from', n, field(p.val, pathf) is arg(1),
                 field(p.val, pathf), 'remembers another path')
    for m in ('set', 'remove', 'clear', 'flush'):
        n = fileio(prog, m)
        for p in prog.paths(n)[:60]:
            a = p.self_after()
            if a is not None:
                rep.want('it is saved back to where it came from', n,
                         field(a, pathf) is field(SELF, pathf), field(a, pathf), 'changes the path')
    # the reader
    r = reader(prog, 'FileIO', rep)
    if r is None:
        rep.ob('reader', 'FileIO', None, 'the reader is not a derived one')
        return
    rep.ob('unknown fields are refused', 'FileIO', r.deny if r.deny is not None else None,
           'unknown fields are accepted')
    tys = {f['n']: f['ty'] for a in prog.crates['pfp']['adts'] if a['path'].endswith('::FileIO')
           for f in a['vs'][0]['f']}
    spec = {'application': 'pfp', 'format': 3, 'data': None}
    for lit, const in spec.items():
        fs = [fn for fn, c in r.fields.items() if lit in c.names]
        if not fs:
            rep.ob('the file names its application, format and data', lit,
                   None if r.unknown else False, 'the reader does not ask for "%s"' % lit)
            continue
        c = r.fields[fs[0]]
        rep.ob('the file names its application, format and data', lit,
               None if c.missing is None else c.missing == 'error',
               'a file without "%s" is accepted' % lit)
        if const is None:
            rep.ob('data maps text to text', lit,
                   re.sub(r'std::(collections|string)::(hash_map::)?', '', tys[fs[0]]) in
                   ('HashMap<String, String>', 'BTreeMap<String, String>'),
                   'data is a ' + tys[fs[0]])
            rep.want('data is what the file says', lit, c.exact, c.value, 'data is changed when read')
        else:
            got = const_reader(prog, tys[fs[0]], rep, type(const))
            rep.ob('only the right constants are accepted', lit,
                   None if got is None else got == {const},
                   '"%s" accepts %s' % (lit, got if got else 'anything'))
    rep.floor('what is loaded is what the file contains', 1)
    rep.floor('only the right constants are accepted', 2)
    rep.floor('the file names its application, format and data', 3)


def const_reader(prog, ty, rep, kind):
    """The values a constant type accepts; None: not understood; set(): any."""
    n = None
    short = ty.split('::')[-1]
    for b in prog.crates['pfp']['bodies']:
        if (b.get('trait') or '').endswith('Deserialize') and b['name'].endswith('::deserialize') and \
                (b.get('self_ty') or '').split('::')[-1] == short and '{closure' not in b['name']:
            n = b['name']
    if n is None:
        if short in ('String', 'u8', 'u32', 'usize', 'u64', 'i32'):
            return set()
        return None
    got = set()
    for p in prog.paths(n):
        for res, f in outcomes(prog, p):
            if res != 'Ok':
                continue
            lits = set()
            src = False
            for k, v in f.items():
                if isinstance(k, tuple) or v is not True:
                    continue
                if k.op == 'eq' and any(is_raw(x) for x in k.a):
                    lits |= {lit(x) for x in k.a if x.op == 'str'}
                elif k.op == 'eqz' and is_raw(k.a[0]):
                    lits.add(k.a[1])
            if len(lits) == 1:
                got |= lits
            else:
                raws = {x for k in f for x in L.value_terms(k[1] if isinstance(k, tuple) else k) if is_raw(x)}
                if len(raws) != 1:
                    return None
                raw = raws.pop()
                # values that meet the conditions
                conds = [(k, v) for k, v in f.items() if not isinstance(k, tuple)]
                if not conds:
                    return set()
                met = set()
                wide = any(find(k, lambda y: y.op == 'cast' and y.a[0] == 'u8' and y.a[2] is raw)
                           for k, v in conds)
                for x in WITNESSES:
                    if not isinstance(x, kind) or kind is int and x > 255 and not wide:
                        continue
                    r = [value_of(k, {raw: x}) for k, v in conds]
                    if None not in r and all(y is v for y, (k, v) in zip(r, conds)):
                        met.add(x)
                if not met:
                    return None
                got |= met
    return got


# values to try where what is accepted is not given by a comparison
WITNESSES = ['pfp', '', 'p', 'pf', 'PFP', 'Pfp', 'pfp ', ' pfp', 'pfpx', 'xpfp', 'abc'] + \
    list(range(0, 300)) + [515, 65539, 4294967299]


def is_raw(x):
    return x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call' and \
        x.a[0].a[0].endswith('Deserialize::deserialize')


def lit(x):
    return x.a[0] if x.op == 'str' else None


# ------------------------------------------------------------------------ C21
class Col:
    """What the reader does for one field."""

    def __init__(self):
        self.names = set()
        self.missing = None     # 'error', 'none' or a default term
        self.exact = None
        self.value = None
        self.flat = None
        self.skipped = False


class Reader:
    def __init__(self):
        self.fields = {}
        self.deny = None
        self.unknown = False
        self.flatnames = ()


def bodies(prog, ty, suffix, crate='pfp'):
    r = []
    for b in prog.crates[crate]['bodies']:
        n = b['name']
        if 'promoted' in n or '{closure' in n:
            continue
        if re.search(r'Deserialize<\'de> for ([\w:]*::)?%s>::deserialize::%s' % (ty, suffix), n):
            r.append(n)
    return r


def adt_fields(prog, ty):
    for a in prog.crates['pfp']['adts']:
        if re.search(r'(^|::)%s$' % ty, a['path']) and not a['enum']:
            return {f['n']: f['ty'] for f in a['vs'][0]['f']}
    return {}


def identifiers(prog, ty):
    """{literal: variant of __Field}, and whether anything else is refused."""
    ns = [n for n in bodies(prog, ty, '__FieldVisitor') if n.endswith('::visit_str')]
    if not ns:
        return None, None
    r, deny = {}, None
    for p in prog.paths(ns[0]):
        lits = [lit(x) for k, v in p.facts.items() if not isinstance(k, tuple) and v is True and
                k.op == 'eq' for x in k.a if x.op == 'str']
        if p.result == 'Ok':
            v = variant(p.facts, vfield(p.val, 'Ok'))
            if lits:
                r[lits[0]] = v
            else:
                deny = False
        elif not lits and deny is None:
            deny = True
    return r, deny


def reader(prog, ty, rep):
    ids, deny = identifiers(prog, ty)
    ns = [n for n in bodies(prog, ty, '__Visitor') if n.endswith('::visit_map')]
    if ids is None or not ns:
        return None
    R = Reader()
    R.deny = deny
    tys = adt_fields(prog, ty)
    byvar = {v: k for k, v in ids.items()}
    deser = [n for n in bodies(prog, ty, '__Visitor')
             if '__DeserializeWith' in n and n.split('~')[0].endswith('::deserialize')]
    for p in prog.paths(ns[0]):
        if p.result != 'Ok':
            continue
        x = vfield(p.val, 'Ok')
        if x.op != 'adt':
            R.unknown = True
            continue
        ended = any(isinstance(k, tuple) and v == 'None' and k[1].op == 'vf' and
                    k[1].a[0].op == 'call' and k[1].a[0].a[0].endswith('MapAccess::next_key')
                    for k, v in p.facts.items())
        rep.ob('the reader reads to the end of the record', ty, True if ended else None)
        for fn, v in zip(x.a[2], x.a[3]):
            c = R.fields.setdefault(fn, Col())
            column(prog, p, c, v, byvar, tys.get(fn, ''), deser, R, rep, ty)
    return R


def column(prog, p, c, v, byvar, ty, deser, R, rep, rec):
    E = p.E
    if v.op == 'phi':
        for u, f, r in E.phiup.get(v, ()):
            if u is v:
                continue
            keys = {byvar[y] for k, y in f.items() if isinstance(k, tuple) and y in byvar and
                    k[1].op == 'vf'}
            got = [y for y in L.value_terms(u) if y.op == 'vf' and y.a[1] == 'Ok' and
                   y.a[0].op == 'call' and y.a[0].a[0].endswith('MapAccess::next_value')]
            if len(keys) != 1 or not got:
                R.unknown = True
                continue
            c.names |= keys
            ex = u is got[0] or u.op == 'f' and u.a[0] is got[0] and u.a[1] == 'value'
            c.exact = ex if c.exact is None else c.exact and ex
            if not ex:
                c.value = u
        return
    if v.op == 'vf' and v.a[1] == 'Ok' and v.a[0].op == 'call':
        k, a = v.a[0].a[0], v.a[0].a[1]
        if k.endswith('missing_field'):
            c.missing = 'none' if ty.startswith('std::option::Option<') else 'error'
            if a[0].op == 'str':
                c.missname = a[0].a[0]
            return
        if k.endswith('::deserialize_struct') and a[0].op == 'adt' and 'Flat' in a[0].a[0]:
            c.flat = ('struct', a[2])
            return
        if k.endswith('::deserialize_map') and a[0].op == 'adt' and 'Flat' in a[0].a[0]:
            c.flat = ('map', a[1])
            return
    if v.op == 'call' and v.a[0].startswith('default') or v.op == 'default':
        c.skipped = True
        return
    if is_const(v) or v is EMPTY or v.op in ('adt', 'map0'):
        c.missing = v
        return
    R.unknown = True


class Writer:
    def __init__(self):
        self.cols = {}      # name -> list of values written
        self.omitted = {}   # name -> list of facts of the paths that leave it out
        self.flat = []      # flattened values
        self.selfval = None
        self.tags = []
        self.unknown = []


def impl_name(prog, ty, trait='Serialize', fn='serialize'):
    for b in prog.crates['pfp']['bodies']:
        if (b.get('trait') or '').endswith(trait) and '{closure' not in b['name'] and \
                b['name'].endswith('::' + fn) and \
                re.search(r'(^|::)%s$' % ty, b.get('self_ty') or '') and '__' not in b['name']:
            return b['name']
    return None


def ser_name(k):
    return k.split('::')[-1] if 'erialize' in k or k.startswith('ser::') else ''


def writer(prog, n):
    W = Writer()
    seqs = []
    for p in prog.paths(n):
        if p.result == 'Err' or p.kind != 'ret':
            continue
        seq = []
        for e, f, l, m in p.walk():
            k = ser_name(e.name)
            if l is not None or m:
                W.unknown.append(e.name)
            elif k in ('serialize_struct', 'serialize_map', 'end', 'skip_field'):
                pass
            elif k in ('serialize_field', 'serialize_entry'):
                seq.append((e.args[1], e.args[2]))
            elif k == 'serialize_tagged_newtype':
                W.tags.append((p.facts, e.args))
            elif k == 'serialize':
                if e.args[1].op == 'adt' and 'FlatMap' in e.args[1].a[0]:
                    seq.append((None, e.args[0]))
                elif e.args[1] is arg(2):
                    W.selfval = e.args[0]
                else:
                    W.unknown.append(e.name)
            elif e.kind == 'ext':
                W.unknown.append(e.name)
        seqs.append((seq, p))
    names = []
    for seq, p in seqs:
        for k, v in seq:
            if k is None:
                if v not in W.flat:
                    W.flat.append(v)
            elif k.op != 'str':
                W.unknown.append(show(k, 3))
            elif k.a[0] not in names:
                names.append(k.a[0])
    for nm in names:
        for seq, p in seqs:
            vs = [v for k, v in seq if k is not None and k.op == 'str' and k.a[0] == nm]
            if len(vs) > 1:
                W.unknown.append('twice ' + nm)
            if vs:
                W.cols.setdefault(nm, [])
                if vs[0] not in W.cols[nm]:
                    W.cols[nm].append(vs[0])
            else:
                W.omitted.setdefault(nm, []).append(p.facts)
    return W


def wrappers(prog, n):
    """The bodies of the __SerializeWith types of a derived writer, in order."""
    pre = n.split('#', 1)[1]
    return [b['name'] for b in prog.crates['pfp']['bodies']
            if b['name'].startswith('pfp#<' + pre + '::__SerializeWith') and
            b['name'].split('~')[0].endswith('::serialize')]


def unwrap(prog, n, W, v, order):
    """(value, writer of the wrapper) behind a serialize_with wrapper."""
    if v.op == 'adt' and '__SerializeWith' in v.a[0]:
        x = field(v, 'values')
        if x.op == 'tuple':
            x = x.a[0][0]
        ws = wrappers(prog, n)
        i = order.index(v)
        return x, ws[i] if i < len(ws) else None
    return v, None


def role_fields(prog, ty, rep):
    """Fields of a record by what its constructor puts there."""
    n = prog.method(ty, 'new')
    r = {}
    if n is None:
        return r
    for p in prog.paths(n):
        x = p.val
        if x.op != 'adt':
            continue
        for fn, v in zip(x.a[2], x.a[3]):
            for i in range(1, 7):
                if find(v, lambda t: t is arg(i)):
                    r.setdefault(fn, set()).add(i)
    return r


def c21(prog, rep):
    record(prog, rep, 'FileIO', {'application': 'const', 'format': 'const', 'data': file_roles(prog)[0]})
    rs = role_fields(prog, 'Site', rep)
    record(prog, rep, 'Site', {'site': pick(rs, {1}), 'alias': pick(rs, {2})})
    r = reader(prog, 'Site', rep)
    rep.ob('a site with unknown fields is refused', 'Site', r.deny if r is not None else None,
           'what another version wrote into the record of a site would be ignored, and lost with the next change')
    ri = role_fields(prog, 'PasswordId', rep)
    record(prog, rep, 'PasswordId', {'site': pick(ri, {1}), 'name': pick(ri, {2}),
                                     'revision': pick(ri, {3})})
    g = role_fields(prog, 'GeneratedPassword', rep)
    gt = adt_fields(prog, 'GeneratedPassword')
    record(prog, rep, 'GeneratedPassword',
           {'length': pick(g, {4}), 'notes': secret_field(gt, None)},
           flat={'PasswordId', 'charset'})
    s = role_fields(prog, 'StoredPassword', rep)
    st = adt_fields(prog, 'StoredPassword')
    pw = pick(s, {4})
    record(prog, rep, 'StoredPassword', {'password': pw, 'notes': secret_field(st, pw)},
           flat={'PasswordId'})
    tagged(prog, rep)
    charset(prog, rep)
    for ty, want in (('ApplicationName', 'pfp'), ('Format', 3)):
        pass
    tys = adt_fields(prog, 'FileIO')
    for lit_, want in (('application', 'pfp'), ('format', 3)):
        t = tys.get(lit_)
        n = impl_name(prog, t.split('::')[-1]) if t else None
        if n is None:
            rep.ob('constants', lit_, None, 'the writer of %s was not found' % lit_)
            continue
        W = writer(prog, n)
        v = W.selfval
        got = None if v is None else v.a[0] if v.op in ('str', 'int') else None
        rep.ob('constants', lit_, None if got is None else got == want,
               'writes %s instead of %s' % (got, want))
        acc = const_reader(prog, t, rep, type(want))
        rep.ob('constants', lit_, None if acc is None else acc == set() or got in acc,
               'the reader accepts %s, the writer writes %s' % (acc, got))
    rep.floor('the reader takes what the writer writes', 9)
    rep.floor('the names of the format', 9)
    rep.floor('character sets', 4)
    rep.floor('kinds', 2)
    rep.floor('constants', 2)


def pick(roles, want):
    c = [k for k, v in roles.items() if v == want]
    return c[0] if len(c) == 1 else None


def secret_field(tys, but):
    c = [k for k, v in tys.items() if 'Secret' in v and k != but]
    return c[0] if len(c) == 1 else None


def record(prog, rep, ty, spec, flat=()):
    n = impl_name(prog, ty)
    R = reader(prog, ty, rep)
    if n is None or R is None:
        rep.ob('record', ty, None, 'the reader or the writer of %s is not a derived one' % ty)
        for k in spec:
            rep.ob('the reader takes what the writer writes', ty + ' ' + k, None)
            rep.ob('the names of the format', ty + ' ' + k, None)
        return
    W = writer(prog, n)
    for u in W.unknown[:3]:
        rep.ob('record', ty, None, 'the writer of %s does something else: %s' % (ty, u))
    order = []
    for p in prog.paths(n):
        for e, f, l, m in p.walk():
            for a in e.args[:1] + e.args[2:3]:
                if a.op == 'adt' and '__SerializeWith' in a.a[0] and a not in order:
                    order.append(a)
    # the wrappers' positions are those of the derived implementations
    names = {}
    for nm, vs in sorted(W.cols.items()):
        for v in vs:
            x, wr = unwrap(prog, n, W, v, order)
            where = ty + ' ' + nm
            f = x.a[1] if x.op == 'f' and x.a[0] is SELF else None
            rep.want('the writer writes the fields as they are', where, f is not None, x,
                     '"%s" is not one of the fields' % nm)
            if wr is not None:
                wv = writer(prog, wr).selfval
                inner = field(field(SELF, 'values'), '0')
                rep.want('the writer writes the fields as they are', where,
                         wv is not None and strip_f(wv) is strip_f(inner), wv,
                         'writes something else than the field')
            if f is None:
                continue
            names[nm] = f
            c = R.fields.get(f)
            other = [k for k, cc in R.fields.items() if nm in cc.names and k != f]
            if c is None:
                rep.ob('the reader takes what the writer writes', where, None)
                continue
            rep.ob('the reader takes what the writer writes', where,
                   True if nm in c.names and not other else None if R.unknown and not other else False,
                   'the writer writes %s as "%s", the reader %s' % (
                       f, nm, 'takes that for ' + other[0] if other else
                       'refuses it' if R.deny else 'ignores it'))
            if nm in c.names:
                rep.want('the reader takes values as they are', where, c.exact, c.value,
                         'changes the value when it reads it')
            om = W.omitted.get(nm)
            if om:
                omitted(rep, where, f, c, om, adt_fields(prog, ty).get(f, ''))
    for dn in [x for x in bodies(prog, ty, '__Visitor') if '__DeserializeWith' in x and
               x.split('~')[0].endswith('::deserialize')]:
        for p in prog.paths(dn):
            if p.result == 'Ok':
                v = field(vfield(p.val, 'Ok'), 'value')
                rep.want('the reader takes values as they are', ty, is_raw(v), v,
                         'changes the value when it reads it')
    for nm, f in spec.items():
        where = ty + ' ' + nm
        if f is None:
            rep.ob('the names of the format', where, None, 'the field is not identified')
            continue
        if f == 'const':
            rep.ob('the names of the format', where, nm in W.cols, '"%s" is not written' % nm)
            continue
        ok = names.get(nm) == f
        rep.ob('the names of the format', where,
               True if ok else None if W.unknown and nm not in W.cols else False,
               'the field %s is written as %s' % (
                   f, ' and '.join('"%s"' % k for k, v in names.items() if v == f) or 'nothing'))
    extra = [k for k in W.cols if k not in spec]
    rep.ob('no other names', ty, not extra, 'also writes ' + ', '.join(extra))
    # fields that are written but never read, and the reverse
    for f, c in R.fields.items():
        if c.skipped or c.flat:
            continue
        wn = [k for k, v in names.items() if v == f]
        if c.missing == 'error' and not wn and not W.unknown and c.names:
            rep.ob('what the reader needs is written', ty + ' ' + f, False,
                   'the reader needs "%s", which the writer never writes' % sorted(c.names)[0])
    for x in flat:
        flats(prog, rep, ty, x, W, R, n, order)


def strip_f(t):
    return t


def omitted(rep, where, f, c, facts, ty):
    v = field(SELF, f)
    for fa in facts:
        if variant(fa, v) == 'None':
            rep.ob('what is left out is read as what it was', where,
                   None if c.missing is None else c.missing == 'none' or c.missing is NONE,
                   'left out if there is none, but not read as none')
        elif truth(fa, empty(v)) is True:
            rep.ob('what is left out is read as what it was', where,
                   None if c.missing is None else c.missing in (EMPTY, string('')),
                   'left out if it is empty, but a record without it %s' % (
                       'is refused' if c.missing == 'error' else 'gets another value'))
        else:
            conds = [k for k in fa if not isinstance(k, tuple) and v.id in deps(k)] + \
                [k[1] for k in fa if isinstance(k, tuple) and k[1] is v]
            if any(not L.closed(k) for k in conds):
                rep.ob('what is left out is read as what it was', where, None, 'condition not understood')
            else:
                rep.ob('what is left out is read as what it was', where, False,
                       'is left out although it may have a value')


def flats(prog, rep, ty, x, W, R, n, order):
    tys = adt_fields(prog, ty)
    if x == 'charset':
        fs = [k for k, t in tys.items() if 'EnumSet<' in t or 'CharacterSet' in t]
    else:
        fs = [k for k, t in tys.items() if t.split('::')[-1] == x]
    if len(fs) != 1:
        rep.ob('record', ty, None, '%s: no single %s field' % (ty, x))
        return
    f = fs[0]
    vs = [unwrap(prog, n, W, v, order)[0] for v in W.flat]
    c = R.fields.get(f)
    wrote = any(v is field(SELF, f) for v in vs)
    nested = any(v is field(SELF, f) for l in W.cols.values() for v in
                 [unwrap(prog, n, W, y, order)[0] for y in l])
    rep.ob('the parts of a record are written beside its fields', ty + ' ' + f,
           True if wrote else False if nested else None if W.unknown else False,
           '%s is %s' % (f, 'written as a field of its own' if nested else 'not written'))
    rep.ob('the parts of a record are read beside its fields', ty + ' ' + f,
           True if c and c.flat else None if R.unknown or c is None else False,
           '%s is not read from the fields of the record' % f)
    if c and c.flat and c.flat[0] == 'struct':
        want = {k for k in identifiers(prog, x)[0] or ()}
        arr = c.flat[1]
        got = {y.a[0] for y in subterms(arr) if y.op == 'str'}
        rep.ob('the parts of a record are read beside its fields', ty + ' ' + f,
               None if not want or not got else want <= got, 'only takes ' + ', '.join(sorted(got)))


def tagged(prog, rep):
    n = impl_name(prog, 'Password')
    if n is None:
        rep.ob('kinds', 'generated2', None)
        rep.ob('kinds', 'stored', None)
        return
    W = writer(prog, n)
    spec = {'Generated': 'generated2', 'Stored': 'stored'}
    ids, deny = identifiers(prog, 'Password')
    dn = [b['name'] for b in prog.crates['pfp']['bodies']
          if re.search(r"Deserialize<'de> for ([\w:]*::)?Password>::deserialize$", b['name'])]
    tag = None
    read = {}
    unknown = ids is None or not dn
    for p in prog.paths(dn[0]) if dn else ():
        for e, f, l, m in p.walk():
            if e.name.endswith('TaggedContentVisitor::new') and e.args[0].op == 'str':
                tag = e.args[0].a[0]
        if p.result == 'Ok':
            x = vfield(p.val, 'Ok')
            vs = {v for k, v in p.facts.items() if isinstance(k, tuple) and k[1].op == 'f' and
                  k[1].a[1] == 'tag'} | \
                 {v for k, v in p.facts.items() if isinstance(k, tuple) and k[1].op == 'f' and
                  k[1].a[1] == '0' and str(v).startswith('__field')}
            kind = variant(p.facts, x)
            if len(vs) == 1 and kind:
                read[list(vs)[0]] = kind
            else:
                unknown = True
    seen = set()
    for facts, a in W.tags:
        kind = variant(facts, SELF)
        t, v = a[3], a[4]
        if t.op != 'str' or v.op != 'str' or kind is None:
            rep.ob('kinds', str(kind), None)
            continue
        seen.add(kind)
        rep.ob('kinds', kind, t.a[0] == 'type' and spec.get(kind) == v.a[0],
               'a %s password is written with "%s": "%s"' % (kind.lower(), t.a[0], v.a[0]))
        rep.want('kinds', kind, a[5] is vfield(SELF, kind), a[5], 'writes something else')
        if ids is not None:
            back = read.get(ids.get(v.a[0]))
            rep.ob('kinds', kind, True if back == kind else None if unknown and not back else False,
                   'a record marked "%s" is read as %s' % (v.a[0], back or 'nothing'))
        if tag is not None:
            rep.ob('kinds', kind, tag == t.a[0], 'the reader looks for "%s", the writer writes "%s"' % (
                tag, t.a[0]))
    for k in spec:
        if k not in seen:
            rep.ob('kinds', k, None, 'how %s passwords are written is not understood' % k)


def charset(prog, rep):
    spec = {'lower': 'Lower', 'upper': 'Upper', 'number': 'Digit', 'symbol': 'Symbol'}
    n = impl_name(prog, 'GeneratedPassword')
    ws = wrappers(prog, n) if n else []
    wr = None
    for w in ws:
        x = writer(prog, w)
        if x.cols:
            wr = x
    ns = [b['name'] for b in prog.crates['pfp']['bodies'] if b['name'].endswith('::visit_map') and
          'character_set' in b['name']]
    if not ns:
        # wherever it is: the visitor of the flattened set
        R = reader(prog, 'GeneratedPassword', rep)
        for c in (R.fields.values() if R else ()):
            if c.flat and c.flat[0] == 'map' and c.flat[1].op == 'adt':
                ns = [b['name'] for b in prog.crates['pfp']['bodies']
                      if b['name'].startswith('pfp#<' + c.flat[1].a[0]) and
                      b['name'].endswith('::visit_map')]
    written = {}
    if wr:
        for nm, vs in wr.cols.items():
            for v in vs:
                good = v.op == 'setin' and v.a[1].op == 'adt'
                if good:
                    written[nm] = v.a[1].a[1]
                rep.want('character sets', nm, good and spec.get(nm) == v.a[1].a[1], v,
                         '"%s" is not whether the set contains %s' % (nm, spec.get(nm)))
            rep.ob('character sets', nm, nm not in wr.omitted, 'is left out at times')
    for nm in spec:
        if wr is None or wr.unknown and nm not in written:
            rep.ob('character sets', nm, None, 'the writer is not understood')
        elif nm not in wr.cols:
            rep.ob('character sets', nm, False, '"%s" is not written' % nm)
    if not ns:
        rep.ob('character sets', 'reader', None)
        return
    ps = [p for p in prog.paths(ns[0]) if p.result == 'Ok']
    reads = {}
    unk = False
    for p in ps:
        x = vfield(p.val, 'Ok')
        if x.op == 'set' and not x.a[1] and not x.a[2]:
            x = x.a[0]
        ended = any(isinstance(k, tuple) and v == 'None' and 'MapAccess::next_key' in show(k[1], 3)
                    for k, v in p.facts.items())
        if L.closed(x) is False and x.op != 'phi' or x.op != 'phi':
            unk = True
            continue
        rep.ob('character sets', 'reader reads all', True if ended else False,
               'stops before all fields have been read')
        for u, f, r in p.E.phiup.get(x, ()):
            if u is x:
                # a set flag must not be ignored
                for lit_, b in flagged(f):
                    if b is True and lit_ in spec:
                        rep.ob('character sets', lit_, False, '"%s": true is ignored' % lit_)
                continue
            while u.op == 'set' and not u.a[1] and not u.a[2]:
                u = u.a[0]
            if u.op != 'set' or u.a[2] or len(u.a[1]) != 1:
                unk = True
                continue
            m = u.a[1][0]
            fl = flagged(f)
            if len(fl) != 1 or m.op != 'adt':
                unk = True
                continue
            reads.setdefault(fl[0][0], set()).add((m.a[1], fl[0][1]))
    for nm, v in spec.items():
        got = reads.get(nm)
        if got is None:
            rep.ob('character sets', nm, None if unk or not ps else False, '"%s" is not read' % nm)
        else:
            rep.ob('character sets', nm, got == {(v, True)},
                   '"%s" is read as %s' % (nm, ', '.join(
                       '%s%s' % (a, '' if b is True else ' even if false') for a, b in sorted(
                           got, key=str))))


def flagged(f):
    """[(name of the field, what its value was)] of one pass of the reading loop."""
    lits = [lit(x) for k, v in f.items() if not isinstance(k, tuple) and v is True and
            k.op == 'eq' for x in k.a if x.op == 'str']
    val = None
    for k, v in f.items():
        if not isinstance(k, tuple) and k.op == 'vf' and k.a[0].op == 'call' and \
                k.a[0].a[0].endswith('next_value'):
            val = v
    return [(l, val) for l in lits]


RULES = {'C21': c21, 'C25': c25, 'C27': c27, 'C28': c28}
