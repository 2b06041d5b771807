"""Commands do what they were told (C19), generation options (C20)."""
import re
import lib as L
from terms import *
import terms as TM
from lib import arg
from rules.lists import Loops, must, fields_of, closed_facts, PWS
from rules.cmd import (Cli, events, first, facts_of, refused, asked, consent, known_fact, touches,
                       entered, uncast, untrim, mutators)
import rules.panics as P
from rules.common import alts
from rules.generate import variant as type_name

ENTERED = object()
ANY = object()


def opt(n):
    return ('opt', n)


OPS = {'Add': 'set_generated', 'AddStored': 'set_stored', 'Remove': 'remove', 'Show': 'get',
       'SetPrimary': 'reset'}


class Need:
    def __init__(self, op, *roles):
        self.op, self.roles = op, roles


def needs(c, cmd, f):
    """The operations that must have succeeded on a path with these facts;
    None: an option was not looked at."""
    o = lambda n: c.opt(cmd, n)
    dnr = lambda: (('domain', o('domain')), ('name', o('name')), ('revision', o('revision')))
    if cmd == 'Add':
        return [Need('set_generated', *dnr())], None
    if cmd == 'AddStored':
        return [Need('set_stored', *dnr(), ('password', ENTERED))], None
    if cmd == 'Remove':
        return [Need('remove', *dnr())], None
    if cmd == 'Show':
        return [Need('get', *dnr())], None
    if cmd == 'SetPrimary':
        return [Need('reset', ('password', ENTERED))], None
    if cmd == 'Notes':
        k = truth(f, o('set'))
        if k is True:
            return [Need('set_notes', *dnr(), ('notes', ENTERED))], None
        return [Need('get_notes', *dnr())], None if k is False else 'set'
    if cmd == 'Alias':
        v = variant(f, o('alias_target'))
        if v == 'Some':
            return [Need('set_alias', ('domain', o('domain')), ('target', vfield(o('alias_target'), 'Some')))], None
        if v != 'None':
            return [], 'alias_target'
        k = truth(f, o('remove'))
        if k is True:
            return [Need('remove_alias', ('domain', o('domain')))], None
        return [Need('get_alias', ('domain', o('domain')))], None if k is False else 'remove'
    return [], None


def entered_text(x, E):
    """What the user typed, or what the recovery code they typed stands for."""
    if entered(x, E):
        return True
    return x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call' and \
        x.a[0].a[0] == 'Passwords::decode_recovery_code'


def role_errors(need, args, E):
    """[(role, given)] of the arguments that are not what the user gave."""
    r = []
    for i, (n, t) in enumerate(need.roles):
        x = args[i + 1] if i + 1 < len(args) else None
        if x is None:
            r.append((n, None))
        elif t is ENTERED:
            if not entered_text(x, E):
                r.append((n, x))
        elif t is not ANY and x is not t:
            r.append((n, x))
    return r


CMDS = ('Add', 'AddStored', 'Remove', 'Show', 'Notes', 'Alias', 'SetPrimary')
MAIN = set(OPS.values()) | {'get_notes', 'set_notes', 'set_alias', 'remove_alias', 'get_alias',
                            'remove_sites', 'get_recovery_code'}


def calls_known(f):
    """{result: 'Ok'|'Err'} of the calls of the interface that the facts know about."""
    r = {}
    for k, v in f.items():
        if isinstance(k, tuple) and k[1].op == 'call' and k[1].a[0].startswith('Passwords::') and \
                v in ('Ok', 'Err'):
            r[k[1]] = v
    return r


def c19(prog, rep):
    c = Cli(prog, rep)
    R = 'the command does what it was told'
    R2 = 'a failed operation is an error'
    for cmd in CMDS + ('List',):
        n = 0
        paths = [p for p in c.paths(cmd) if p.kind == 'ret']
        mine = set()
        for p, e, f in events(paths, 'pw'):
            if e.name.split('::')[-1] in MAIN and not c.receiver(p.E, e.args[0]):
                rep.want('the passwords given are used', cmd, False, e.args[0],
                         '%s works on other passwords' % cmd, e.span)
        for p in paths:
            for oc, f in c.outcomes(p):
                bad = [t for t, v in calls_known(f).items() if v == 'Err' and t.a[0].split('::')[-1] in MAIN]
                if oc == 'Ok':
                    n += 1
                    for t in bad:
                        rep.ob(R2, cmd, False, '%s succeeds although %s failed' % (cmd, t.a[0]))
                    done(c, rep, cmd, p, f)
                elif oc == 'Err' and bad:
                    told(rep, R2, cmd, p, f, bad)
        rep.ob('the command can succeed', cmd, n > 0, '%s never succeeds' % cmd)
        if cmd != 'List':
            texts(c, rep, cmd, paths)
        else:
            listing(c, rep, paths)
    exit_status(c, rep)
    options(c, rep, prog)
    for r in (R, R2, 'success is reported after the fact'):
        rep.floor(r, 6)


def done(c, rep, cmd, p, f):
    R = 'the command does what it was told'
    if cmd in ('Add', 'AddStored') and refused(f):
        rep.ob(R, cmd, True)
        return
    ns, unseen = needs(c, cmd, f)
    if unseen:
        rep.ob(R, cmd, False if f is p.facts else None, '%s ignores the option %s' % (cmd, unseen))
        return
    known = calls_known(f)
    for need in ns:
        name = 'Passwords::' + need.op
        okd = [t for t, v in known.items() if t.a[0] == name and v == 'Ok']
        best = None
        for t in okd:
            errs = role_errors(need, t.a[1], p.E)
            if best is None or len(errs) < len(best[1]):
                best = (t, errs)
        if best is None:
            # the call may be there without its result being looked at
            some = any(e.name == name for e, ff, l, m in p.all('pw'))
            rep.ob(R, cmd, False, '%s succeeds without %s having succeeded' % (cmd, need.op) if some else
                   '%s succeeds without calling %s' % (cmd, need.op))
            continue
        for n, x in best[1]:
            rep.want(R, cmd, False, x, '%s calls %s with a wrong %s' % (cmd, need.op, n))
        if not best[1]:
            rep.ob(R, cmd, True)


def nonempty_text(f, t):
    """Can the text be empty?"""
    for x in alts(t):
        if x.op == 'str':
            if not x.a[0].strip():
                return False
        elif x.op == 'cat':
            if not any(y.op == 'str' and y.a[0].strip() for y in x.a):
                return None
        else:
            return None if not L.closed(x) else prove(f, sub(length(x), integer(1)))
    return True


def told(rep, R, cmd, p, f, bad):
    e = vfield(p.val, 'Err')
    k = nonempty_text(f, e)
    rep.ob(R, cmd, True if k else k, 'the error of %s has no text' % bad[0].a[0])


def text_key(t):
    """The fixed text of a message."""
    xs = [x.a[0] for x in parts(t) if x.op == 'str']
    return tuple(x for x in xs if x.strip()) if xs else ()


def outputs(p, e):
    """The text an event writes to standard output."""
    if e.kind == 'print' and e.name == 'io::_print':
        return e.args[0]
    if e.kind == 'ext' and e.name == 'Write::write_all' and len(e.args) > 1:
        return e.args[1]
    return None


WORD = re.compile(r'^(\w+) (added|removed|stored|retrieved|set)\b')


def texts(c, rep, cmd, paths):
    R = 'success is reported after the fact'
    says = {}
    for p, e, f in events(paths):
        t = outputs(p, e)
        if t is None:
            continue
        key = text_key(t)
        if not key:
            continue
        ok = frozenset(x.a[0].split('::')[-1] for x, v in calls_known(e.facts).items() if v == 'Ok')
        says.setdefault(key, []).append((ok, p, e, t))
    for key, l in sorted(says.items()):
        if len(key) > 0 and any(k[0] & MAIN for k in l):
            for op in MAIN:
                n = sum(1 for k in l if op in k[0])
                if n and n < len(l) and op not in ('get_notes',):
                    k = next(k for k in l if op not in k[0])
                    rep.ob(R, cmd, False, 'the message %r is shown without %s having succeeded'
                           % (key[0].strip(), op), k[2].span)
        m = WORD.match(key[0].strip())
        if m:
            for ok, p, e, t in l:
                rep.ob(R, cmd, meaning(m.group(2), ok, p, e), 'the message %r is shown although %s' % (
                    key[0].strip(), 'that did not happen'), e.span)
    # every success says something
    for p in paths:
        for oc, f in c.outcomes(p):
            if oc != 'Ok' or cmd in ('Add', 'AddStored') and refused(f):
                continue
            ns, un = needs(c, cmd, f)
            for need in ns:
                said = any(any(x.a[0] == 'Passwords::' + need.op and v == 'Ok'
                               for x, v in calls_known(e.facts).items())
                           for e, ff, lo, m in p.walk() if outputs(p, e) is not None)
                rep.ob(R, cmd, said, '%s succeeds without a message' % cmd)
    if cmd == 'Alias':
        n = 0
        for p, e, f in events(paths, 'print'):
            for t, v in facts_of(e.facts, 'Passwords::get_alias'):
                if v == 'Ok' and e.name == 'io::_print':
                    n += 1
                    x = vfield(t, 'Ok')
                    rep.want('the alias is shown', cmd, any(y is x or y.op == 'disp' and y.a[0] is x
                                                            for y in parts(e.args[0])), e.args[0],
                             'alias shows something else than the site it stands for', e.span)
        rep.ob('the alias is shown', cmd, n > 0, 'alias does not show the site it stands for')


def meaning(word, ok, p, e):
    if word == 'retrieved':
        return 'get' in ok or 'get_notes' in ok
    emp = None
    for t, v in facts_of(e.facts, 'Passwords::set_notes'):
        if v == 'Ok':
            x = t.a[1][4] if len(t.a[1]) > 4 else None
            emp = is_empty(e.facts, x) if x is not None else None
            if emp is None and (x is None or not entered_text(x, p.E) or any(
                    not known_fact(k) for k in e.facts if touches(k, x))):
                return None
    if word == 'removed':
        return bool(ok & {'remove', 'remove_alias'}) or emp is True
    return bool(ok & {'set_generated', 'set_stored', 'set_alias', 'reset'}) or emp is False


def is_empty(f, x):
    k = truth(f, empty(x))
    if k is None and prove(f, sub(length(x), integer(1))):
        return False
    if k is None and prove(f, sub(integer(0), length(x))):
        return True
    return k


def listing(c, rep, paths):
    """list asks for the sites and names the user gave."""
    R = 'the command does what it was told'
    ls, li = set(), set()
    for p, e, f in events(paths, 'pw'):
        if e.name == 'Passwords::list_sites':
            ls.add(e.args[1])
            rep.want(R, 'List', e.args[1] is c.opt('List', 'domain'), e.args[1],
                     'the sites listed are not those the user asked for', e.span)
        elif e.name == 'Passwords::list':
            li.add(e.args)
            rep.want(R, 'List', bool(find(e.args[1], lambda z: z.op == 'call' and
                                          z.a[0] == 'Passwords::list_sites')), e.args[1],
                     'passwords are listed for another site', e.span)
            rep.want(R, 'List', e.args[2] is c.opt('List', 'name'), e.args[2],
                     'the passwords listed are not those the user asked for', e.span)
    rep.ob(R, 'List', bool(ls) and bool(li), 'list does not list anything')


# ---------------------------------------------------------------- exit status
def status(v):
    """0 | 1 | None of an exit code."""
    if v.op == 'named':
        return {'SUCCESS': 0, 'FAILURE': 1}.get(str(v.a[0]).split('::')[-1])
    if v.op == 'call' and v.a[0] in ('ExitCode::from', 'From::from') and v.a[1] and v.a[1][-1].op == 'int':
        return 1 if v.a[1][-1].a[0] else 0
    if v.op == 'int':
        return 1 if v.a[0] else 0
    return None


def exit_status(c, rep):
    R = 'errors are printed and end with a failure status'
    R2 = 'success ends with status zero'
    R3 = 'the storage the user named is used'
    seen = {'Ok': 0, 'Err': 0}
    for p in c.main():
        if p.kind == 'panic':
            continue
        st = status(p.val) if p.kind == 'ret' else None
        if p.kind == 'exit':
            st = status(p.val) if p.val is not None else None
        f = p.facts
        cmds = [(e, ff) for e, ff, l, m in p.all('cmd')]
        errs = []
        for e, ff in cmds:
            v = variant(f, e.res)
            if v == 'Err':
                errs.append(vfield(e.res, 'Err'))
            elif v is None:
                rep.ob(R, 'main', False, 'the result of the command is not looked at', e.span)
            seen['Err' if v == 'Err' else 'Ok'] += 1
        primary = None
        loads = list(facts_of(f, 'FileIO::load'))
        for t, v in loads:
            if v == 'Err' and not cmds and not asked(f):
                errs.append(vfield(t, 'Err'))
        if errs:
            out = [e for e, ff, l, m in p.all('print', 'io::_eprint')]
            for x in errs:
                # the text of a load error is made from its parts
                said = any(find(e.args[0], lambda z: z is x) or not any(find(y, lambda z: z is x) for y in cmd_results(cmds))
                           and nonempty_text(f, e.args[0]) for e in out)
                rep.ob(R, 'main', said, 'an error is not printed to standard error')
            rep.ob(R, 'main', True if st == 1 else None if st is None and p.kind != 'ret' else st == 1,
                   'an error does not lead to a failure status')
        elif cmds:
            rep.ob(R2, 'main', st == 0, 'a successful command ends with a failure status')
        else:
            ok = refused(f)
            rep.ob(R2, 'main', ok, 'the program ends without running the command')
            if ok:
                rep.ob(R2, 'main', st == 0, 'a refusal ends with a failure status')
        if len(cmds) > 1:
            rep.ob(R2, 'main', False, 'a command is run twice')
    for p, e, f in events(c.main()):
        if e.kind == 'cmd':
            paths_used(c, rep, R3, p, e)
        elif e.kind == 'io':
            named_path(c, rep, R3, p, e, e.args[0])
    rep.ob(R, 'main', seen['Err'] > 0, 'main never sees a failing command')
    rep.ob(R2, 'main', seen['Ok'] > 0, 'main never sees a successful command')
    rep.floor(R3, 1)


def cmd_results(cmds):
    return [e.res for e, f in cmds]


def named_path(c, rep, R, p, e, x):
    a = None
    for t in list(subterms(x)) + [k[1] if isinstance(k, tuple) else k for k in e.facts]:
        g = first(t, lambda z: z.op == 'call' and z.a[0] == 'Parser::parse')
        if g is not None:
            a = g
            break
    if a is None:
        rep.ob(R, 'main', None, 'the arguments are not parsed by clap')
        return
    s = mk('f', a, 'storage')
    v = variant(e.facts, s)
    if v == 'Some':
        rep.want(R, 'main', x is vfield(s, 'Some'), x, 'another file is used than the one the user named', e.span)
    elif v == 'None':
        rep.ob(R, 'main', default_path(x, 'storage.json'), 'the default storage is not used: ' + show(x, 6), e.span)
    else:
        rep.want(R, 'main', x.op == 'call' and 'unwrap_or' in x.a[0], x,
                 'the storage option is ignored', e.span)


def default_path(x, name):
    """Is x the file of this name in PfP's configuration folder?  None if it is not known."""
    root = find(x, lambda z: z.op == 'call' and z.a[0].startswith('app_dirs2::'))
    if not root:
        return False if L.closed(x) else None
    rest, last = x, None
    if x.op == 'pathjoin' or x.op == 'call' and x.a[0] == 'Path::join':
        rest, last = x.a if x.op == 'pathjoin' else x.a[1][:2]
    if not (rest.op == 'vf' and rest.a[1] == 'Ok' and rest.a[0] in root):
        return None
    if last is None or last.op == 'str' and last.a[0] != name:
        return False
    if last.op != 'str':
        return None
    c = rest.a[0]
    if c.a[0] != 'app_dirs2::get_app_root':
        return None
    kinds = [variant({}, y) for y in c.a[1] if y.op == 'adt']
    texts = [z.a[0] for y in c.a[1] for z in find(y, lambda z: z.op == 'str')]
    return 'UserConfig' in kinds and texts == ['PfP', 'Wladimir Palant']


def paths_used(c, rep, R, p, e):
    pwv = e.args[c.pi - 1]
    io = pwv.a[1][0] if pwv.op == 'call' and pwv.a[0] == 'Passwords::new' else None
    if io is None:
        rep.want(R, 'main', False, pwv, 'the command gets other passwords', e.span)
        return
    if io.op == 'vf' and io.a[1] == 'Ok':
        io = io.a[0]
    ok = io.op == 'call' and io.a[0] in ('FileIO::load', 'FileIO::new')
    rep.want(R, 'main', ok, io, 'the command works on another storage', e.span)
    if ok and io.a[0] == 'FileIO::new':
        a = mk('f', e.args[c.ai - 1], 'command')
        rep.ob(R, 'main', variant(e.facts, a) == 'SetPrimary', 'a new storage is made up for another command',
               e.span)
    if c.path_arg is not None:
        i = int(c.path_arg.a[0][3:]) - 1
        x = e.args[i]
        rep.want(R, 'main', not ok or x is io.a[1][0], x, 'the command is told another storage path', e.span)
    x = e.args[c.ai - 1]
    rep.want(R, 'main', x.op == 'call' and x.a[0] == 'Parser::parse', x,
             'the command gets other arguments than the ones the user gave', e.span)


# ----------------------------------------------------------------- the options
SUB = {'set-primary': 'SetPrimary', 'add': 'Add', 'add-stored': 'AddStored', 'remove': 'Remove',
       'show': 'Show', 'notes': 'Notes', 'list': 'List', 'alias': 'Alias', 'shell': 'Shell'}
POSITIONS = {'add': ['domain', 'name'], 'add-stored': ['domain', 'name'], 'remove': ['domain', 'name'],
             'show': ['domain', 'name'], 'notes': ['domain', 'name'], 'list': ['domain', 'name'],
             'alias': ['domain', 'alias-target']}
SHORT = {'add': {'revision': 'r', 'length': 'l', 'no-lower': 'w', 'no-upper': 'u', 'no-digit': 'd',
                 'no-symbol': 's', 'assume-yes': 'y'},
         'add-stored': {'revision': 'r', 'recovery': 'c', 'assume-yes': 'y'}, 'remove': {'revision': 'r'},
         'show': {'revision': 'r', 'qrcode': 'q'}, 'notes': {'revision': 'r', 'set': 's'},
         'list': {'show': 's', 'recovery': 'r', 'verbose': 'v'}, 'alias': {'remove': 'r'},
         'set-primary': {'assume-yes': 'y'}, 'shell': {'history': 's'}}
DEFAULT = {'revision': '1', 'length': '16'}
FLAGS = {'no-lower', 'no-upper', 'no-digit', 'no-symbol', 'assume-yes', 'qrcode', 'set', 'show',
         'verbose', 'remove'}


def chain(t):
    """[(method, args)] of a builder, first call first."""
    r = []
    while t.op == 'call' and t.a[1] and ('::' in t.a[0]):
        r.append((t.a[0], t.a[1]))
        if t.a[0].endswith('::new'):
            break
        t = t.a[1][0]
    r.reverse()
    return r


def text(t):
    if t.op == 'str':
        return t.a[0]
    if t.op == 'int':
        return chr(t.a[0]) if t.a[0] < 0x110000 else None
    if t.op == 'disp' and t.a[0].op == 'int':
        return str(t.a[0].a[0])
    return None


def default_text(prog, t):
    """The text of a default value; those made from a value are in a static."""
    if t.op == 'static':
        b = prog.body(str(t.a[0]) + '::{closure#0}')
        vs = {p.val for p in prog.paths(b['name'], crate='pfp_cli') if p.kind == 'ret'} if b else ()
        return text(vs.pop()) if len(vs) == 1 else None
    return text(t)


def option_table(prog):
    """{subcommand: [{id, long, short, default, validator, takes_value}]} or None."""
    n = next((b['name'] for b in prog.crates['pfp_cli']['bodies']
              if re.search(r'<args::Args as clap::Args>::augment_args$', b['name'])), None)
    if n is None:
        return None
    r = {}
    ps = [p for p in prog.paths(n, crate='pfp_cli') if p.kind == 'ret']
    if len(ps) != 1:
        return None
    for m, a in chain(ps[0].val):
        if m == 'App::subcommand':
            sub_ = chain(a[1])
            if not sub_ or sub_[0][0] != 'App::new' or text(sub_[0][1][0]) is None:
                return None
            name = text(sub_[0][1][0])
            opts = []
            for m2, a2 in sub_:
                if m2 == 'App::arg':
                    o = {}
                    ch = chain(a2[1])
                    if not ch or ch[0][0] != 'Arg::new':
                        return None
                    o['id'] = text(ch[0][1][0])
                    for m3, a3 in ch[1:]:
                        k = m3.split('::')[-1]
                        o[k] = a3[1] if len(a3) > 1 else None
                    opts.append(o)
            r[name] = opts
    return r


def options(c, rep, prog):
    R = 'options mean what they are called'
    tab = option_table(prog)
    if tab is None:
        rep.ob(R, 'args', None, 'the options are not understood')
        return
    for sub_, v in sorted(SUB.items()):
        if sub_ not in tab:
            rep.ob(R, sub_, False, 'there is no subcommand %s' % sub_)
            continue
        os = tab[sub_]
        pos = [o['id'] for o in os if 'long' not in o and 'short' not in o]
        want = POSITIONS.get(sub_, [])
        rep.ob(R, sub_, pos == want, '%s takes %s instead of %s' % (sub_, ', '.join(pos), ', '.join(want)))
        for n, s in sorted(SHORT.get(sub_, {}).items()):
            o = next((o for o in os if o['id'] == n), None)
            if o is None:
                rep.ob(R, sub_, False, '%s has no option %s' % (sub_, n))
                continue
            rep.ob(R, sub_, 'long' in o and text(o['long']) == n, '--%s of %s is called %s' % (
                n, sub_, show(o.get('long', string('')), 2)))
            rep.ob(R, sub_, 'short' not in o or text(o['short']) == s, '-%s of %s is %s' % (
                s, sub_, show(o.get('short', string('')), 2)))
            if n in FLAGS:
                tv = o.get('takes_value')
                rep.ob(R, sub_, tv is None or tv.op == 'const' and tv.a[1] is False,
                       '%s of %s takes a value' % (n, sub_))
                rep.ob(R, sub_, not any(k in o for k in ('default_value', 'default_missing_value', 'env')),
                       '%s of %s has a default' % (n, sub_))
            if n in DEFAULT:
                d = o.get('default_value')
                rep.ob(R, sub_, d is not None and (default_text(prog, d) == DEFAULT[n] or
                                                (None if default_text(prog, d) is None else False)),
                       'the default of %s in %s is %s' % (n, sub_, show(d, 3) if d is not None else 'missing'))
        if sub_ == 'list':
            for n in ('domain', 'name'):
                o = next((o for o in os if o['id'] == n), {})
                d = o.get('default_value')
                rep.ob(R, sub_, d is not None and text(d) == '*', 'the default of %s in list is not *' % n)
        for o in os:
            for k in ('conflicts_with', 'overrides_with', 'requires', 'requires_if', 'exclusive', 'last',
                      'multiple_values', 'multiple_occurrences', 'env', 'ignore_case'):
                if k in o:
                    rep.ob(R, sub_, None, '%s of %s has %s' % (o['id'], sub_, k))


# ------------------------------------------------------------------------- C20
FLAG = {'Lower': 'no_lower', 'Upper': 'no_upper', 'Digit': 'no_digit', 'Symbol': 'no_symbol'}


def c20(prog, rep):
    c = Cli(prog, rep)
    R1, R2 = 'the length is the one the user gave', 'the character sets are those not switched off'
    R3 = 'the length is from 4 to 24'
    ln = c.opt('Add', 'length')
    n = 0
    checked = None
    for p, e, f in events(c.paths('Add'), 'pw'):
        if e.name != 'Passwords::set_generated' or len(e.args) < 6:
            continue
        n += 1
        rep.want(R1, 'Add', uncast(e.args[4]) is ln, e.args[4], 'another length is stored', e.span)
        sets(c, rep, R2, e)
        lo = prove(e.facts, sub(ln, integer(4)))
        hi = prove(e.facts, sub(integer(24), ln))
        if not (lo and hi):
            if checked is None:
                checked = validated(prog, rep, R3)
                o = next((o for o in (option_table(prog) or {}).get('add', ()) if o['id'] == 'length'), {})
                d = default_text(prog, o['default_value']) if o.get('default_value') is not None else None
                if d is not None:
                    rep.ob(R3, 'Add', d.isdigit() and 4 <= int(d) <= 24, 'the default length is ' + d)
            if checked is False:
                rep.ob(R3, 'Add', False, 'a length outside of 4 to 24 is not refused', e.span)
        else:
            rep.ob(R3, 'Add', True)
    rep.ob('add stores something', 'Add', n > 0, 'nothing is stored')
    R4 = 'no character sets at all are refused'
    off = {}
    for x in FLAG.values():
        off = assume(off, c.opt('Add', x), True)
    n = 0
    for p in c.paths('Add'):
        if p.kind != 'ret' or any(truth(p.facts, c.opt('Add', x)) is not True for x in FLAG.values()):
            continue
        for oc, f in c.outcomes(p):
            n += 1
            rep.ob(R4, 'Add', oc == 'Err', 'add succeeds without a character set')
            if oc == 'Err':
                k = nonempty_text(f, vfield(p.val, 'Err'))
                rep.ob(R4, 'Add', True if k else k, 'the refusal has no text')
    rep.ob(R4, 'Add', n > 0, 'all character sets can be switched off')
    shown(c, rep)


def sets(c, rep, R, e):
    x = P.plain_set(e.args[5])
    f = e.facts
    want, unknown = set(), []
    for n, o in FLAG.items():
        k = truth(f, c.opt('Add', o))
        if k is None:
            unknown.append(n)
        elif k is False:
            want.add(n)
    got = set_of(x)
    if got is None:
        rep.want(R, 'Add', False, x, 'the character sets are', e.span)
        return
    if unknown:
        for n in unknown:
            rep.ob(R, 'Add', False, 'the option %s is not looked at' % FLAG[n], e.span)
        return
    rep.ob(R, 'Add', got == want, 'the character sets stored are not those that were not switched off: %s '
           'instead of %s' % ('+'.join(sorted(got)) or 'none', '+'.join(sorted(want)) or 'none'), e.span)
    rep.ob(R, 'Add', bool(got), 'a password without characters is stored', e.span)


def set_of(x):
    """The types in a set that is known completely."""
    if x.op == 'set0':
        return set()
    if x.op == 'setall':
        return set(FLAG)
    if x.op == 'set':
        b = set_of(P.plain_set(x.a[0]))
        if b is None:
            return None
        pl = {type_name(t) for t in x.a[1]}
        mi = {type_name(t) for t in x.a[2]}
        if None in pl or None in mi:
            return None
        return (b | pl) - mi
    return None


def validated(prog, rep, R):
    """The length option refuses what is not from 4 to 24."""
    tab = option_table(prog)
    if tab is None:
        rep.ob(R, 'add', None, 'the options are not understood')
        return None
    o = next((o for o in tab.get('add', ()) if o['id'] == 'length'), None)
    if o is None:
        return False
    if o.get('value_parser') is not None and not L.closed(o['value_parser']) and 'validator' not in o:
        rep.ob(R, 'add', None, 'a value parser')
        return None
    v = o.get('validator')
    if v is None or v.op not in ('fn', 'closure'):
        return None if v is not None and not L.closed(v) else False
    name = v.a[0]
    b = prog.body(name)
    if b is None:
        rep.ob(R, 'add', None, 'the validator is ' + show(v, 2))
        return None
    n = 0
    for p in prog.paths(name, crate='pfp_cli'):
        if p.kind == 'panic':
            rep.ob(R, 'add', None, 'the validator can panic')
            continue
        vals = {}
        for k, x in p.facts.items():
            if isinstance(k, tuple) and k[1].op == 'call' and 'parse' in k[1].a[0] and x in ('Ok', 'Err'):
                vals[k[1]] = x
        from rules.common import outcomes
        same = all(len(t.a) > 1 and parsed_as(t) == stored_as(prog) for t in vals)
        for oc, f in outcomes(prog, p):
            num = [vfield(t, 'Ok') for t, x in vals.items() if x == 'Ok']
            if oc == 'Ok':
                if not num and any(x == 'Err' for x in vals.values()):
                    # not a number: refused when it is turned into one, which has
                    # to go by the same type
                    rep.ob(R, 'add', same, 'a length that is no number for the check (%s) can be one for '
                           'the option (%s)' % (', '.join(sorted(str(parsed_as(t)) for t in vals)),
                                                stored_as(prog)))
                    continue
                n += 1
                ok = any(prove(f, sub(x, integer(4))) and prove(f, sub(integer(24), x)) for x in num)
                und = not ok and any(not L.closed(k[1] if isinstance(k, tuple) else k) and
                                     not find(k[1] if isinstance(k, tuple) else k,
                                              lambda z: z.op == 'call' and 'parse' in z.a[0]) for k in f)
                rep.ob(R, 'add', ok or (None if und else False), 'a length outside of 4 to 24 is accepted')
            elif oc == 'Err' and num:
                n += 1
                g = f
                for x in num:
                    g = assume(g, ge0(sub(x, integer(4))), True) if g is not None else None
                    g = assume(g, ge0(sub(integer(24), x)), True) if g is not None else None
                ok = g is None or any(not isinstance(k, tuple) and k.op == 'and' and v is False and
                                      truth(g, k.a[0]) is True and truth(g, k.a[1]) is True
                                      for k, v in g.items()) or any(prove(f, sub(integer(3), x)) or prove(f, sub(x, integer(25))) for x in num)
                rep.ob(R, 'add', ok, 'a length from 4 to 24 is refused')
    rep.ob(R, 'add', n > 0, 'the validator does not look at the number')
    return True


def parsed_as(t):
    """The type that a call of str::parse makes."""
    return next((x.a[0] for x in t.a[1] if x.op == 'ty'), None) if len(t.a) > 1 else None


def stored_as(prog):
    """The type of the field of the length option."""
    for a in prog.crates['pfp_cli']['adts']:
        if a['path'].endswith('::Commands'):
            for v in a['vs']:
                for f in v['f']:
                    if v['n'] == 'Add' and f['n'] == 'length':
                        return f['ty']
    return None


CLASSES = {'Lower': str.islower, 'Upper': str.isupper, 'Digit': str.isdigit}


def word_class(w):
    for n, f in CLASSES.items():
        if all(f(ch) for ch in w):
            return n
    if all(33 <= ord(ch) < 127 and not ch.isalnum() for ch in w):
        return 'Symbol'
    return None


def shown(c, rep):
    R1, R2 = 'verbose lists show the length', 'verbose lists show the character sets'
    gen = set()
    n1 = n2 = 0
    for p, e, f in events(c.paths('List'), 'print'):
        if e.name != 'io::_print':
            continue
        ps = parts(e.args[0])
        t = ps[0].a[0] if ps and ps[0].op == 'str' else ''
        if re.match(r'\s*Length', t):
            n1 += 1
            x = ps[1] if len(ps) > 1 else None
            y = uncast(x.a[0]) if x is not None and x.op == 'disp' else x
            ok = y is not None and y.op == 'f' and y.a[1] == 'length' and find(
                y, lambda z: z.op == 'call' and z.a[0] == 'Passwords::list')
            ok = ok and (len(ps) == 3 and ps[2].op == 'str' and not re.match(r'\w', ps[2].a[0]) or len(ps) == 2)
            rep.want(R1, 'List', bool(ok), e.args[0], 'the length shown is not that of the password', e.span)
            rep.ob(R1, 'List', truth(e.facts, c.opt('List', 'verbose')) is True, 'shown without --verbose')
        if re.match(r'\s*Allowed', t):
            n2 += 1
            charset_line(c, rep, R2, p, e)
    rep.ob(R1, 'List', n1 > 0, 'the length is not shown')
    rep.ob(R2, 'List', n2 > 0, 'the character sets are not shown')
    # every generated password of a verbose list
    R3 = 'verbose lists describe all generated passwords'
    paths = [p for p in c.paths('List') if p.kind == 'ret']
    n = 0
    for rec in Loops(paths):
        if not any(any(fields_of(e, 'name') for e in p.direct()) for p in rec.passes):
            continue
        for p in rec.passes:
            xs = [x for it, x in p.next() if find(x, lambda z: z.op == 'call' and z.a[0] == PWS)]
            if not xs or truth(p.facts, c.opt('List', 'verbose')) is not True or \
                    variant(p.facts, xs[0]) != 'Generated':
                continue
            n += 1
            und = None if not closed_facts(p.facts) else False
            for what in ('Length', 'Allowed'):
                ok = must(p.evs, lambda e: e.kind == 'print' and e.name == 'io::_print' and any(
                    y.op == 'str' and re.search(r'\b' + what, y.a[0]) for y in parts(e.args[0])))
                rep.ob(R3, 'List', ok or und, '%s of a generated password is not shown' % what)
    rep.ob(R3, 'List', True if n else None, 'no verbose listing of generated passwords is understood')


def charset_line(c, rep, R, p, e):
    t = e.args[0]
    if t.op != 'str':
        rep.ob(R, 'List', None, 'the character sets are shown as ' + show(t, 4))
        return
    got = set()
    for w in t.a[0].split(':', 1)[-1].split():
        k = word_class(w)
        if k is None:
            rep.ob(R, 'List', None, 'the character sets are shown as %r' % w)
            return
        got.add(k)
    known = {}
    for k, v in e.facts.items():
        if not isinstance(k, tuple) and k.op == 'setin' and v in (True, False):
            s = P.plain_set(k.a[0])
            if s.op == 'f' and s.a[1] == 'charset' and find(
                    s, lambda z: z.op == 'call' and z.a[0] == 'Passwords::list'):
                known[type_name(k.a[1])] = v
    for n in FLAG:
        if n not in known:
            rep.ob(R, 'List', False, 'whether the set %s is allowed is not looked at' % n, e.span)
        else:
            rep.ob(R, 'List', known[n] == (n in got), 'the set %s is shown wrongly' % n, e.span)


RULES = {'C19': c19, 'C20': c20}
