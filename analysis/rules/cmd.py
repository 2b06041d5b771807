"""The command line program: consent, roles of options, truthful results."""
import re
import lib as L
import cli as CLI
from terms import *
from lib import Missing, arg
from engine import Ev
from rules.common import run_events, alts, outcomes

LIMIT = 4000
NAMES = {'Add': ('domain', 'name', 'revision', 'length', 'no_lower', 'no_upper', 'no_digit', 'no_symbol',
                 'assume_yes'),
         'AddStored': ('domain', 'name', 'revision', 'recovery', 'assume_yes'),
         'Remove': ('domain', 'name', 'revision'),
         'Show': ('domain', 'name', 'revision', 'qrcode'),
         'Notes': ('domain', 'name', 'revision', 'set'),
         'List': ('domain', 'name', 'show', 'recovery', 'verbose'),
         'Alias': ('domain', 'alias_target', 'remove'),
         'SetPrimary': ('assume_yes',), 'Shell': ('history',)}


class Cli:
    """The commands, as the rules see them."""

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        c = prog.crates['pfp_cli']
        self.cand = {}
        for b in c['bodies']:
            if '{closure' in b['name'] or b['kind'] not in ('Fn', 'AssocFn') or b.get('trait'):
                continue
            tys = [b['locals'][i]['ty'] for i in range(1, b['argc'] + 1)]
            a = [i for i, t in enumerate(tys) if re.search(r'\bargs::Args\b', t)]
            q = [i for i, t in enumerate(tys) if re.search(r'\bpasswords::Passwords<', t)]
            if a and q:
                self.cand[b['name']] = (a[0] + 1, q[0] + 1)
        called = {}
        for b in c['bodies']:
            for bb in b['bbs']:
                t = bb['t']
                f = t.get('f') if isinstance(t, dict) else None
                n = f.get('c', {}).get('path') if isinstance(f, dict) else None
                if n:
                    called.setdefault(n, set()).add(b['name'])
        outer = [n for n in self.cand if any(
            self.path(k) == self.path(n) and any(self.origin(x) not in self.cand for x in v)
            for k, v in called.items())]
        if len(outer) != 1:
            outer = [n for n in self.cand if n.endswith('::process_command')]
        if len(outer) != 1:
            raise Missing('the function that processes a command')
        self.name = outer[0]
        self.ai, self.pi = self.cand[self.name]
        self.args = arg(self.ai)
        self.cmd = mk('f', self.args, 'command')
        tys = prog.body(self.name)['locals']
        self.path_arg = next((arg(i) for i in range(1, prog.body(self.name)['argc'] + 1)
                              if 'path::Path' in tys[i]['ty']), None)
        self._anch = {}

    @staticmethod
    def path(n):
        return re.sub(r'^\w+#', '', re.sub(r'::<.*$', '', re.sub(r'^pfp_cli(::|#)', '', n)))

    @staticmethod
    def origin(n):
        return n.split('::{closure')[0]

    def opt(self, cmd, name):
        return vfield(self.cmd, cmd, name)

    def with_cmd(self, names):
        """Anchors under which the named functions are one event."""
        k = frozenset(names)
        if k not in self._anch:
            ps = {self.path(n) for n in names}

            def anch(key, path):
                if self.path(path) in ps or self.path(key) in ps:
                    def g(E, c, st, a):
                        vals = tuple(E.deep(st, x) for x in a)
                        r = mk('call', 'COMMAND', vals, '%s@%d' % (c.site.split('#')[-1], st.n))
                        st.n += 1
                        st.event(Ev('cmd', 'COMMAND', vals, r, st.facts, c.span, c.fr.stack))
                        return [('ret', st, r)]
                    return g
                if re.search(r'args::Args as clap.*FromArgMatches>::from_arg_matches(_mut)?$', path):
                    return CLI.matches_call
                return CLI.anchors(key, path)
            self._anch[k] = anch
        return self._anch[k]

    def paths(self, cmd):
        anch = CLI.anchors if cmd != 'Shell' else self.with_cmd([self.name])
        return self.prog.paths(self.name, anchors=anch, facts=assume_variant({}, self.cmd, cmd),
                               crate='pfp_cli', limit=LIMIT, trace=cmd == 'List')

    def main(self):
        return self.prog.paths('pfp_cli#main', anchors=self.with_cmd(self.cand), crate='pfp_cli',
                               limit=LIMIT)

    def outcomes(self, p):
        return outcomes(self.prog, p)

    # -------------------------------------------------------------- vocabulary
    def receiver(self, E, t, seen=()):
        """Is t the passwords the command was given, possibly locked or unlocked since?"""
        p = arg(self.pi)
        while t is not p:
            if t in seen:
                return True
            if t.op == 'out' and t.a[0].op == 'call' and t.a[0].a[0].startswith('Passwords::') and \
                    t.a[0].a[1]:
                t = t.a[0].a[1][0]
            elif t.op == 'phi':
                if not self.receiver(E, t.a[2], seen + (t,)):
                    return False
                return all(self.receiver(E, v, seen + (t,)) for v, f, r in E.phiup.get(t, ()))
            else:
                return False
        return True

    def same_state(self, a, b):
        """b is a after nothing but unlock and lock."""
        while b is not a:
            if b.op == 'out' and b.a[0].op == 'call' and b.a[0].a[0] in ('Passwords::unlock', 'Passwords::lock'):
                b = b.a[0].a[1][0]
            else:
                return False
        return True


def events(paths, kind=None):
    """(path, event, facts of its pass) for every different event of the paths."""
    seen = set()

    def go(p, evs, facts):
        for e in evs:
            if id(e) in seen:
                continue
            seen.add(id(e))
            if e.kind == 'loop':
                if id(e.extra[0]) in seen:
                    continue
                seen.add(id(e.extra[0]))
                for k, k2, es, b in e.extra[0].trans:
                    yield from go(p, es, b.facts)
            elif e.kind == 'alt':
                for l in e.extra:
                    yield from go(p, l, facts)
            elif kind is None or e.kind == kind:
                yield p, e, facts
    for p in paths:
        yield from go(p, p.events, p.facts)


def first(t, pred):
    r = find(t, pred)
    return r[0] if r else None


def facts_of(facts, name):
    """(call, variant fact) of the calls of a function that the facts know about."""
    for k, v in facts.items():
        if isinstance(k, tuple) and k[1].op == 'call' and k[1].a[0] == name:
            yield k[1], v


def answers(facts):
    """(question, default, answer) for every answered question."""
    for t, v in facts_of(facts, 'Question::confirm'):
        q = t.a[1][0]
        yield t, q, default(q), v if v in ('YES', 'NO') else 'YES' if 'NO' in v else 'NO' if 'YES' in v else None
    for t, v in facts_of(facts, 'Question::ask'):
        if v == 'Some':
            x = variant(facts, vfield(t, 'Some'))
            if x in ('YES', 'NO'):
                yield t, t.a[1][0], default(t.a[1][0]), x


def default(q):
    """'NO', 'YES', None (there is none) or '?' for the answer an empty line gives."""
    if q.op != 'question':
        return '?'
    d = q.a[1]
    if d.op == 'adt' and d.a[1] == 'None':
        return None
    d = vfield(d, 'Some')
    n = d.a[1] if d.op == 'adt' else str(d.a[1]).split('::')[-1] if d.op == 'const' else None
    return n if n in ('YES', 'NO') else '?'


def asked(facts):
    return list(answers(facts))


def consent(facts, yes):
    """True: the user agreed; 'default': only by default."""
    if yes is not None and truth(facts, yes) is True:
        return True
    bad = None
    for t, q, d, a in asked(facts):
        if a == 'YES':
            if d in ('NO', None):
                return True
            bad = 'default'
    return bad


def refused(facts):
    return any(a == 'NO' for t, q, d, a in asked(facts))


# ------------------------------------------------------------------------- C14
def c14(prog, rep):
    c = Cli(prog, rep)
    R = 'overwriting needs consent'
    mut = mutators(prog)
    for cmd in ('Add', 'AddStored'):
        yes = c.opt(cmd, 'assume_yes')
        n = 0
        for p, e, f in events(c.paths(cmd), 'pw'):
            m = e.name.split('::')[-1]
            if m in ('set_generated', 'set_stored'):
                n += 1
                ok, why = may_write(c, p, e, yes)
                rep.ob(R, cmd, ok, why, e.span)
            elif m in mut and m not in ('unlock', 'lock'):
                rep.ob('nothing else is changed', cmd, False, '%s calls %s' % (cmd, m), e.span)
        rep.ob('the command stores something', cmd, n > 0, 'nothing is stored')


def may_write(c, p, e, yes):
    f = e.facts
    k = consent(f, yes)
    if k is True:
        return True, ''
    why = 'an entry is stored without asking whether it exists and may be overwritten'
    for t, v in facts_of(f, 'Passwords::has'):
        if len(t.a[1]) != 4 or len(e.args) < 4:
            continue
        no = v == 'Err' or v == 'Ok' and truth(f, vfield(t, 'Ok')) is False
        if not no:
            why = 'an existing entry is overwritten without consent'
            continue
        if list(t.a[1][1:]) != list(e.args[1:4]):
            why = 'the entry that is checked for is not the entry that is written'
            continue
        if t.a[1][0] is e.args[0]:
            return True, ''
        if v == 'Ok' and c.same_state(t.a[1][0], e.args[0]):
            return True, ''
        why = 'the check for an existing entry is made on passwords in another state'
    if k == 'default':
        why = 'the question whether to overwrite an entry is answered with yes by default'
    und = any(not L.closed(k2[1] if isinstance(k2, tuple) else k2) for k2 in f
              if not known_fact(k2))
    return (None if und else False), why


def known_fact(k):
    """Facts about terms the rules understand (calls of the interface)."""
    t = k[1] if isinstance(k, tuple) else k
    for x in L.value_terms(t):
        if x.op in L.OPAQUE_OPS and x.op != 'out':
            return False
        if x.op == 'call' and x.a[2] is not None and not KNOWN.match(x.a[0]):
            return False
    return True


KNOWN = re.compile(r'Passwords::|Question::|StreamWriter::|StreamReader::|Write::|Read::|rpassword::|io::|'
                   r'FileIO::|COMMAND|app_dirs2::|Parser::|Error::kind|Editor::|shellwords::|App::|ArgMatches::|'
                   r'QrCode|CommandFactory::|Args::|History::')


def mutators(prog):
    r = set()
    for n, b in prog.api().items():
        body = prog.body(b)
        if body['argc'] > 0 and body['locals'][1]['ty'].startswith('&mut'):
            r.add(n)
    return r


# ------------------------------------------------------------------------- C15
def c15(prog, rep):
    c = Cli(prog, rep)
    R = 'existing storage is replaced only with consent'
    n = 0
    for p, e, f in events(c.main()):
        if e.kind == 'cmd':
            a = e.args[c.ai - 1]
            cmd = mk('f', a, 'command')
            v = variant(e.facts, cmd)
            if v is not None and v != 'SetPrimary' or v is None and 'SetPrimary' in (excluded(e.facts, cmd) or ()):
                continue
            n += 1
            ok, why = may_replace(e, vfield(cmd, 'SetPrimary', 'assume_yes'))
            rep.ob(R, 'main', ok, why, e.span)
        elif e.kind in ('ext', 'effect') and re.search(
                r'^fs::|remove_file|rename|File::create|OpenOptions|set_permissions|truncate|^StorageIO::', e.name):
            rep.ob('nothing touches the storage before the command', 'main', False,
                   'the program calls %s itself' % e.name, e.span)
    rep.ob('set-primary is run by main', 'main', n > 0, 'no path of main reaches set-primary')
    R1, R2 = 'the new primary password has at least 6 bytes', 'the new primary password was entered twice'
    n = 0
    for p, e, f in events(c.paths('SetPrimary'), 'pw'):
        m = e.name.split('::')[-1]
        if m == 'reset':
            n += 1
            x = e.args[1] if len(e.args) > 1 else None
            if not entered(x, p.E):
                rep.want(R2, 'set-primary', False, x, 'the primary password set was not typed in', e.span)
                continue
            vague = any(not known_fact(k) for k in e.facts if touches(k, x))
            rep.ob(R1, 'set-primary', any(prove(e.facts, sub(length(y), integer(6)))
                                          for y in same_text(e.facts, x)) or (None if vague else False),
                   'a primary password with less than 6 bytes may be set', e.span)
            rep.ob(R2, 'set-primary', twice(e.facts, x, p.E) or (None if vague else False),
                   'the primary password set was not compared with a second input', e.span)
        elif m in mutators(prog):
            rep.ob('nothing else is changed', 'set-primary', m in ('lock',),
                   'set-primary calls %s' % m, e.span)
    rep.ob('set-primary sets a password', 'set-primary', n > 0, 'set-primary never sets a password')


def may_replace(e, yes):
    f = e.facts
    k = consent(f, yes)
    if k is True:
        return True, ''
    for t, v in facts_of(f, 'FileIO::load'):
        if v != 'Err':
            continue
        err = vfield(t, 'Err')
        if variant(f, err) != 'FileReadFailure':
            continue
        for t2, v2 in facts_of(f, 'Error::kind'):
            if v2 == 'NotFound' and find(t2.a[1][0], lambda z: z is err):
                # the same file is created
                io = next((first(x, lambda z: z.op == 'call' and z.a[0] == 'FileIO::new') for x in e.args
                           if first(x, lambda z: z.op == 'call' and z.a[0] == 'FileIO::new')), None)
                if io is None or io.a[1][0] is t.a[1][0]:
                    return True, ''
                return False, 'the file that was looked for is not the one that is created'
    if k == 'default':
        return False, 'the question whether to replace all data is answered with yes by default'
    und = any(not known_fact(k2) for k2 in f)
    return (None if und else False), 'set-primary runs on a storage that exists without consent of the user'


def touches(k, x):
    t = k[1] if isinstance(k, tuple) else k
    return x is not None and (x.id in deps(t) or any(y.id in deps(t) for y in [untrim(x)] if y.op != 'str'))


TRIMS = {'str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_matches', 'str::trim_end_matches',
         'str::trim_start_matches'}


def untrim(x):
    while x.op == 'call' and x.a[0] in TRIMS:
        x = x.a[1][0]
    return x


def read_result(t):
    """Is t the byte a read filled in?"""
    t = uncast(t)
    return t.op in ('idx', 'elem', 'item', 'elt') and bool(
        find(t, lambda z: z.op == 'call' and z.a[0] in ('Read::read', 'Read::read_exact', 'BufRead::read_line',
                                                      'Read::read_to_end')))


def uncast(t):
    while t.op == 'cast':
        t = t.a[2]
    return t


def entered(x, E):
    """What the user typed: an input, possibly trimmed."""
    if x is None:
        return False
    x = untrim(x)
    if x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call' and x.a[0].a[0].startswith('rpassword::'):
        return True
    if x.op == 'phi':
        ups = E.phiup.get(x, ())
        return any(v is not x and parts(v) and parts(v)[0] is x and any(
            read_result(y) for q in parts(v)[1:] for y in ([q] + list(q.a[:1]) if q.op in ('item', 'elt') else [q]))
            for v, f, r in ups)
    return False


def same_text(facts, x):
    """x and the terms known to be equal to it."""
    return [x] + [z for k, v in facts.items() if not isinstance(k, tuple) and v is True and k.op == 'eq'
                  for y, z in (k.a, k.a[::-1]) if y is x]


def twice(facts, x, E):
    own = {x, untrim(x)}
    for k, v in facts.items():
        if isinstance(k, tuple) or v is not True or k.op != 'eq':
            continue
        a, b = k.a
        for y, z in ((a, b), (b, a)):
            if y in own and z not in own and entered(z, E) and untrim(z) is not untrim(x):
                return True
    return False


# ------------------------------------------------------------------------- C18
ALLOWED = {'Show': (), 'Notes': ('set_notes',), 'Alias': ('set_alias', 'remove_alias'),
           'List': ('remove_sites',)}


def c18(prog, rep):
    R = 'queries do not write'
    n = 0
    for name, b in sorted(prog.api().items()):
        body = prog.body(b)
        ro = body['argc'] > 0 and body['locals'][1]['ty'].startswith('&') and \
            not body['locals'][1]['ty'].startswith('&mut')
        if not ro and name not in ('lock', 'unlock'):
            continue
        n += 1
        for p in prog.paths(b):
            ev = next(((e, f) for e, f, l, m in p.all('effect')), None)
            rep.ob(R, name, ev is None, '%s calls %s' % (name, ev[0].name if ev else ''),
                   ev[0].span if ev else None)
    rep.ob('there are queries', 'Passwords', n >= 8, 'only %d queries found' % n)
    c = Cli(prog, rep)
    mut = mutators(prog)
    R1 = 'looking changes nothing'
    for cmd, ok in sorted(ALLOWED.items()):
        seen = 0
        for p, e, f in events(c.paths(cmd)):
            if e.kind in ('effect', 'io'):
                rep.ob(R1, cmd, False, '%s calls %s' % (cmd, e.name), e.span)
            if e.kind != 'pw':
                continue
            seen += 1
            m = e.name.split('::')[-1]
            if m not in mut or m in ('unlock', 'lock'):
                rep.ob(R1, cmd, True)
            elif m not in ok:
                rep.ob(R1, cmd, False, '%s calls %s' % (cmd, m), e.span)
            elif m == 'set_notes':
                k = truth(e.facts, c.opt(cmd, 'set'))
                rep.ob(R1, cmd, k is True, 'notes are changed without --set', e.span)
            elif m == 'set_alias':
                k = variant(e.facts, c.opt(cmd, 'alias_target'))
                rep.ob(R1, cmd, k == 'Some', 'an alias is set without a target', e.span)
            elif m == 'remove_alias':
                k = truth(e.facts, c.opt(cmd, 'remove'))
                rep.ob(R1, cmd, k is True, 'an alias is removed without --remove', e.span)
            elif m == 'remove_sites':
                dropped(c, rep, p, e)
        rep.ob('the command uses the passwords', cmd, seen > 0, 'no use of the passwords found')


def dropped(c, rep, p, e):
    """The sites that list drops."""
    nothing(c, rep, e)
    R = 'list drops only sites without passwords'
    star = eq(c.opt('List', 'name'), string('*'))
    x = e.args[1]
    E = p.E
    all_ = truth(e.facts, star) is True
    if x.op == 'str' and x.a[0] == '' or x is EMPTY:
        rep.ob(R, 'List', True)
        return
    if not collection(E, x):
        rep.want(R, 'List', False, x, 'list drops other sites than those it collected', e.span)
        return
    for v, f, rec in E.phiup[x]:
        if v is x:
            continue
        ps = parts(v)
        if not ps or ps[0] is not x or len(ps) != 2 or ps[1].op not in ('item', 'elt'):
            rep.want(R, 'List', False, v, 'list drops ' + show(v, 4), e.span)
            continue
        s = ps[1].a[0]
        ok = all_ or every(E, rec, s, f, lambda g: truth(g, star) is True)
        rep.ob(R, 'List', ok, 'list drops sites although it shows only some of their passwords', e.span)
        ok = every(E, rec, s, f, lambda g: no_passwords(c, g, s))
        und = any(not known_fact(k) for k in f if touches(k, s))
        rep.ob(R, 'List', ok or (None if und else False),
               'list drops a site that may have passwords: ' + show(s, 5), e.span)
        ok = bool(find(s, lambda z: z.op == 'call' and z.a[0] == 'Passwords::list_sites')) and lookup(s) is None
        rep.want(R, 'List', ok, s, 'list drops a site that is not listed', e.span)


def nothing(c, rep, e):
    """If there are no such sites, the storage is not written."""
    R = 'list does not write if there is nothing to drop'
    x = e.args[1]
    if truth(e.facts, empty(x)) is False:
        rep.ob(R, 'List', True)
        return
    api = c.prog.api()
    name = e.name.split('::')[-1]
    if name not in api:
        rep.ob(R, 'List', None, 'not found: ' + e.name)
        return
    seen = set()
    for p in c.prog.paths(api[name]):
        args = [t for k in p.facts for t in subterms(k[1] if isinstance(k, tuple) else k)
                if t.op == 'param' and t.a[0] == 'arg2']
        for ev, f, l, m in p.all('effect'):
            if ev.span in seen or not ev.name.split('::')[-1] in WRITES:
                continue
            arg = next(iter(args), None)
            k = truth(ev.facts, empty(arg)) if arg is not None else None
            if k is not False:
                seen.add(ev.span)
            ts = [t[1] if isinstance(t, tuple) else t for t in ev.facts]
            und = any(find(t, lambda y: y.op == 'phi') or arg is not None and touches(t, arg) and
                      not L.closed(t) for t in ts) or \
                any(l2.kind == 'loop' and l2.extra[0].trans and l2.extra[1] != l2.extra[0].trans[0][0]
                    for l2 in p.events)
            rep.ob(R, name, k is False or (None if und else False),
                   'the storage is written although no site is to be dropped', ev.span)


WRITES = ('flush', 'save', 'store', 'write')


def collection(E, x):
    """A list that a loop fills, empty at first."""
    return x.op == 'phi' and bool(E.phiup.get(x)) and (x.a[2] is EMPTY or x.a[2] is string(''))


def every(E, rec, s, f, pred, seen=()):
    """Does pred hold of the facts under which s was collected, here or in the
    lists that the loop goes through?"""
    if pred(f):
        return True
    own = bare(s)
    src = set()
    for k, k2, evs, b in rec.trans:
        for e in evs:
            if e.kind == 'none' and e.name == 'next' and bare(e.args[1]) is own:
                src.add(e.args[0].a[0])
    if not src:
        return False
    for B in src:
        if B in seen or not collection(E, B):
            return False
        for v, g, r in E.phiup[B]:
            if v is B:
                continue
            ps = parts(v)
            if not ps or ps[0] is not B or len(ps) != 2 or ps[1].op not in ('item', 'elt') or \
                    bare(ps[1].a[0]) is own and not every(E, r, s, g, pred, seen + (B,)):
                return False
    return True


def bare(s):
    s = lookup(s) or s
    return s.a[0] if s.op == 'f' and s.a[1] == 'name' else s


def lookup(s):
    """x if s is www.x, which a lookup takes for the site with the name x."""
    ps = parts(s)
    if len(ps) == 2 and ps[0] is string('www.'):
        return ps[1].a[0] if ps[1].op == 'disp' else ps[1]
    return None


def no_passwords(c, f, s):
    """The facts know that the list of all passwords of s is empty."""
    for k, y in f.items():
        if not isinstance(k, tuple) and y is True and k.op == 'empty' or isinstance(k, tuple) and y == 'None':
            t = k.a[0] if not isinstance(k, tuple) else k[1]
            g = first(t, lambda z: z.op == 'call' and z.a[0] == 'Passwords::list')
            if g is not None and bare(g.a[1][1]) is bare(s) and (
                    g.a[1][2] is c.opt('List', 'name') or g.a[1][2] is string('*')):
                return True
    return False


RULES = {'C14': c14, 'C15': c15, 'C18': c18}
