"""The interactive shell survives errors and keeps its restrictions (C26)."""
import re
import lib as L
from lib import Missing
from terms import *
from rules.cmd import Cli, events, first, known_fact, mutators, NAMES
from rules.lists import Loops, must
from rules.common import alts

FALLIBLE = re.compile(r'^(shellwords::split|App::try_get_matches\w*|Args::from_arg_matches|COMMAND|Args::try_\w+|'
                      r'Parser::try_parse\w*)$')
LEAVES = re.compile(r'^(App::get_matches\w*|Parser::parse(_from)?|process::(exit|abort)|Error::exit|ExitCode::exit_process|'
                    r'App::error|panic::\w+)$')
# the program may give up when it cannot use its own output or input streams
STREAMS = re.compile(r'^(Write::\w+|StreamWriter::\w+|StreamReader::\w+|io::\w+|app_dirs2::\w+|COMMAND)$')


def want(rep, rule, where, cond, value, msg, span=None):
    """Like Report.want; the results of the libraries used are understood here."""
    rep.ob(rule, where, True if cond else False if known_fact(value) else None,
           '' if cond else msg + ': ' + show(value, 7), span)


def kebab(n):
    return re.sub(r'(?<!^)([A-Z])', r'-\1', n).lower()


class Pass:
    """What the facts say about the line of one pass."""

    def __init__(self, c, facts, names):
        self.f = facts
        self.read = self.last('Editor::readline')
        self.none = any(isinstance(k, tuple) and v == 'None' and k[1].op == 'call' and
                        k[1].a[0] in ('ArgMatches::subcommand', 'ArgMatches::subcommand_name')
                        for k, v in facts.items())
        self.sub = {}
        for k, v in facts.items():
            if isinstance(k, tuple) or k.op != 'eq' or v not in (True, False):
                continue
            for x, y in (k.a, k.a[::-1]):
                if y.op == 'str' and is_name(x):
                    self.sub[y.a[0]] = v
        for k, v in facts.items():
            if isinstance(k, tuple) and is_command(k[1]):
                if v in names:
                    self.sub[names[v]] = True
                elif not isinstance(v, str):
                    for n in v:
                        if n in names:
                            self.sub[names[n]] = False

    def last(self, name):
        r = None
        for k, v in self.f.items():
            if isinstance(k, tuple) and k[1].op == 'call' and k[1].a[0] == name and v in ('Ok', 'Err'):
                r = (k[1], v)
        return r

    def errors(self):
        """Calls of this pass that failed."""
        return [k[1] for k, v in self.f.items() if isinstance(k, tuple) and v == 'Err' and
                k[1].op == 'call' and FALLIBLE.match(k[1].a[0])]

    def how(self):
        """How reading the line ended."""
        if self.read is None:
            return None
        t, v = self.read
        return 'line' if v == 'Ok' else variant(self.f, vfield(t, 'Err')) or 'Err'


def is_name(x):
    """The name of the subcommand of the matches."""
    if x.op == 'f' and x.a[1] in ('0', 0):
        y = x.a[0]
        return y.op == 'vf' and y.a[1] == 'Some' and y.a[0].op == 'call' and y.a[0].a[0] == 'ArgMatches::subcommand'
    return x.op == 'vf' and x.a[1] == 'Some' and x.a[0].op == 'call' and x.a[0].a[0] == 'ArgMatches::subcommand_name'


def is_command(t):
    """The command of the parsed arguments."""
    if t.op != 'f' or t.a[1] != 'command':
        return False
    y = t.a[0]
    return y.op == 'vf' and y.a[0].op == 'call' and y.a[0].a[0] == 'Args::from_arg_matches'


def command_names(prog):
    """Variant of Commands -> name of the subcommand, from the code clap derived."""
    names = [b['name'] for b in prog.crates['pfp_cli']['bodies'] if re.search(
        r'args::Commands as clap.*FromArgMatches>::from_arg_matches(_mut)?$', b['name'])]
    r = {}
    for n in names:
        for p in prog.paths(n, crate='pfp_cli', limit=4000):
            if p.result != 'Ok':
                continue
            v = vfield(p.val, 'Ok')
            if v.op != 'adt':
                continue
            for k, y in p.facts.items():
                if not isinstance(k, tuple) and k.op == 'eq' and y is True:
                    for z in k.a:
                        if z.op == 'str':
                            r[v.a[1]] = z.a[0]
    return r or {n: kebab(n) for n in NAMES}


# ------------------------------------------------------------------------- C26
def c26(prog, rep):
    c = Cli(prog, rep)
    names = command_names(prog)
    paths = c.paths('Shell')
    recs = [r for r in Loops(paths) if any(any(is_ext(e, 'Editor::readline') for e in direct(p.evs))
                                           for p in r.passes)]
    rep.ob('the shell reads lines', 'shell', bool(recs), 'no loop that reads lines found')
    leaving(c, rep, names, paths)
    for rec in recs:
        for p in rec.passes:
            one(c, rep, names, p)
    uses(c, rep, names, paths)
    history(c, rep, paths)
    grammar(c, rep, paths)
    crashes(c, rep)


def is_ext(e, name):
    return e.kind == 'ext' and e.name == name


def direct(evs):
    for e in evs:
        if e.kind == 'alt':
            for l in e.extra:
                yield from direct(l)
        else:
            yield e


def leaving(c, rep, names, paths):
    R = 'only exit and the end of input leave the shell'
    n = 0
    for p in paths:
        w = Pass(c, p.facts, names)
        how = w.how()
        if p.kind == 'exit':
            rep.ob(R, 'shell', False, 'the shell ends the program')
            continue
        if how is None:
            continue
        if p.kind == 'panic' or p.kind != 'ret':
            bad = [t for t in w.errors() if t.a[0] != 'COMMAND' or True]
            if bad and newest(p.facts) in bad:
                rep.ob(R, 'shell', False, 'the shell panics when %s fails' % bad[-1].a[0])
            elif newest(p.facts) is not None and newest(p.facts) is w.read[0]:
                rep.ob(R, 'shell', False, 'the shell panics when a line cannot be read')
            continue
        n += 1
        if how == 'Eof' or w.sub.get('exit') is True:
            rep.ob(R, 'shell', True)
        else:
            und = None if not all(known_fact(k) for k in p.facts) else False
            errs = w.errors()
            rep.ob(R, 'shell', und, 'the shell is left %s' % (
                'when %s fails' % errs[-1].a[0] if errs else 'after a line' if how == 'line' else
                'on ' + str(how)))
    rep.ob(R, 'shell', n > 0, 'the shell cannot be left')
    for p, e, f in events(paths):
        if e.kind in ('ext', 'effect') and LEAVES.match(e.name):
            rep.ob(R, 'shell', False, '%s may end the program' % e.name, e.span)


def newest(facts):
    """What the last decision was about."""
    for k in reversed(list(facts)):
        return k[1] if isinstance(k, tuple) else k
    return None


def one(c, rep, names, p):
    """A pass after which the shell goes on."""
    w = Pass(c, p.facts, names)
    how = w.how()
    R = 'errors are printed'
    evs = p.evs
    if how is None:
        return
    if how == 'Eof':
        rep.ob('the end of input leaves the shell', 'shell', False, 'the shell goes on at the end of input')
        return
    if w.sub.get('exit') is True:
        rep.ob('exit leaves the shell', 'shell', False, 'exit does not leave the shell')
        return
    failed = w.errors()
    if how not in ('line', 'Interrupted') and isinstance(how, str):
        failed = failed + [w.read[0]]
    for t in failed:
        err = vfield(t, 'Err')
        ok = must(evs, lambda e: e.kind == 'print' and any(err.id in deps(a) or a is err for a in e.args if
                                                          hasattr(a, 'op')))
        some = any(e.kind == 'print' and e.name == 'io::_eprint' for e in direct(evs))
        rep.ob(R, t.a[0], ok or (None if some and not any(
            e.args[0].op == 'str' for e in direct(evs) if e.kind == 'print') else False),
            'the error of %s is not printed' % t.a[0])
    cmds = [e for e in direct(evs) if e.kind == 'cmd']
    for e in cmds:
        if variant(p.facts, e.res) not in ('Ok', 'Err'):
            rep.ob(R, 'COMMAND', False if all(known_fact(k) for k in p.facts) else None,
                   'whether a command failed is not looked at', e.span)
    pw = [e for e in direct(evs) if e.kind == 'pw']
    if w.sub.get('lock') is True:
        ok = must(evs, lambda e: e.kind == 'pw' and e.name == 'Passwords::lock')
        rep.ob('lock locks the passwords', 'shell', ok, 'lock does not lock the passwords')
        rep.ob('lock locks the passwords', 'shell', not cmds and all(e.name != 'Passwords::unlock' for e in pw),
               'something else is done for lock')
        return
    no = [n for n in ('set-primary', 'shell') if w.sub.get(n) is True]
    if no:
        rep.ob('set-primary and shell are refused', 'shell', not cmds, '%s is run from the shell' % no[0])
        return
    # everything else is run
    m = w.last('App::try_get_matches_from')
    if how == 'line' and not failed and m is not None and m[1] == 'Ok':
        ok = must(evs, lambda e: e.kind == 'cmd')
        und = None if not all(known_fact(k) for k in p.facts) else False
        rep.ob('commands are run', 'shell', ok or und, 'a command is not run')


def uses(c, rep, names, paths):
    R = 'set-primary and shell are refused'
    inv = {names.get('SetPrimary', 'set-primary'): 'SetPrimary', names.get('Shell', 'shell'): 'Shell'}
    n = 0
    for p, e, f in events(paths):
        if e.kind == 'cmd':
            n += 1
            w = Pass(c, e.facts, names)
            a = e.args[c.ai - 1]
            v = variant(e.facts, mk('f', a, 'command'))
            for name, var in inv.items():
                ok = w.sub.get(name) is False or w.none or v is not None and v != var
                und = None if not all(known_fact(k) for k in e.facts) else False
                rep.ob(R, 'shell', ok or und, '%s can be run from the shell' % name, e.span)
            rep.ob('lock locks the passwords', 'shell', w.sub.get('lock') is not True, 'lock is run as a command')
            # the arguments are those of the line
            cmd = field(a, 'command')
            src = first(cmd, lambda z: z.op == 'call' and z.a[0] == 'Args::from_arg_matches')
            want(rep, 'the command run is the one that was typed', 'shell',
                 src is not None and cmd is mk('f', vfield(src, 'Ok'), 'command'), cmd,
                 'another command is run than the one that was typed', e.span)
            sp = field(a, 'stdin_passwords')
            want(rep, 'passwords are read like in the program call', 'shell', sp is mk('f', c.args, 'stdin_passwords'),
                     sp, 'commands of the shell read passwords from another place than the shell was told', e.span)
            want(rep, 'commands use the storage of the shell', 'shell', c.receiver(p.E, e.args[c.pi - 1]),
                     e.args[c.pi - 1], 'a command uses other passwords', e.span)
            for x in e.args:
                if x is e.args[c.ai - 1] or x is e.args[c.pi - 1] or c.path_arg is None:
                    continue
                want(rep, 'commands use the storage of the shell', 'shell', x is c.path_arg, x,
                         'a command is given another storage path', e.span)
        elif e.kind == 'io':
            rep.ob('commands use the storage of the shell', 'shell', False, 'the shell calls ' + e.name, e.span)
        elif e.kind == 'pw':
            m = e.name.split('::')[-1]
            if m in mutators(c.prog):
                rep.ob('the shell itself only locks', 'shell', m == 'lock', 'the shell calls ' + m, e.span)
            if m == 'lock':
                want(rep, 'lock locks the passwords', 'shell', c.receiver(p.E, e.args[0]), e.args[0],
                         'lock locks something else', e.span)
    rep.ob('commands are run', 'shell', n > 0, 'the shell runs no commands')


def history(c, rep, paths):
    R = 'the history contains only command lines'
    load, save = set(), set()
    for p, e, f in events(paths, 'ext'):
        if e.name.startswith('Editor::'):
            n = e.name.split('::')[-1]
            if n in ('add_history_entry',):
                x = e.args[-1]
                y = x
                ok = y.op == 'vf' and y.a[1] == 'Ok' and y.a[0].op == 'call' and y.a[0].a[0] == 'Editor::readline'
                t = strip_ws(x)
                ok = ok or t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == 'Editor::readline'
                want(rep, R, 'shell', ok, x, 'something else than the line goes into the history', e.span)
            elif n == 'load_history':
                load.add((e.args[-1], e.span))
            elif n in ('save_history', 'append_history'):
                save.add((e.args[-1], e.span))
        elif e.name.startswith('History::') and len(e.args) > 1 and e.name.split('::')[-1] in ('add', 'set', 'insert'):
            x = e.args[-1]
            want(rep, R, 'shell', x.op == 'vf' and x.a[0].op == 'call' and x.a[0].a[0] == 'Editor::readline', x,
                     'something else than the line goes into the history', e.span)
        elif re.match(r'^(fs|File|OpenOptions)::', e.name):
            rep.ob('the shell writes no files', 'shell', False, 'the shell calls ' + e.name, e.span)
    for x, span in save:
        for y in alts(x):
            ok = any(y is z for z0, s in load for z in alts(z0)) or not load
            want(rep, 'the history is kept in its own file', 'shell', ok, y,
                     'the history is saved to another file than it was loaded from', span)
            rep.ob('the history is kept in its own file', 'shell', c.path_arg is None or not find(
                y, lambda z: z is c.path_arg), 'the history is written next to the storage', span)
            hist = vfield(c.opt('Shell', 'history'), 'Some')
            own = y is hist or bool(find(y, lambda z: z.op == 'call' and z.a[0].startswith('app_dirs2::')))
            want(rep, 'the history is kept in its own file', 'shell', own, y, 'the history is saved to another file', span)
            if y.op == 'vf' and y.a[0].op == 'call' and y.a[0].a[0].startswith('app_dirs2::'):
                rep.ob('the history is kept in its own file', 'shell', False,
                       'the history is saved to a folder, not to a file', span)
            if y is not hist and own:
                n = [s for z in find(y, lambda z: z.op == 'str') for s in [z.a[0]]]
                rep.ob('the history is kept in its own file', 'shell', not any(s.endswith('storage.json') for s in n),
                       'the history overwrites the default storage', span)
    for p in paths:
        if p.kind != 'ret':
            continue
        k = variant(p.facts, c.opt('Shell', 'history'))
        ld = [e for e, f, l, m in p.walk() if is_ext(e, 'Editor::load_history') or is_ext(e, 'Editor::save_history')]
        for e in ld:
            hist = vfield(c.opt('Shell', 'history'), 'Some')
            if k == 'Some':
                want(rep, '--history is honoured', 'shell', e.args[-1] is hist, e.args[-1],
                         'another history file than that given is used', e.span)
    rep.floor(R, 1)


def strip_ws(t):
    while t.op == 'call' and t.a[0] in ('str::trim', 'str::trim_start', 'str::trim_end'):
        t = t.a[1][0]
    return t


def grammar(c, rep, paths):
    """Lines are parsed as commands: all words, and exit and lock are known."""
    R = 'lines are parsed as commands'
    n = 0
    for p, e, f in events(paths, 'ext'):
        if not re.match(r'^App::try_get_matches_from', e.name) or len(e.args) < 2:
            continue
        n += 1
        w = e.args[1]
        src = first(w, lambda z: z.op == 'call' and z.a[0] == 'shellwords::split')
        line = src is not None and src.a[1][0]
        ok = src is not None and w is vfield(src, 'Ok') and line.op == 'vf' and line.a[0].op == 'call' and \
            line.a[0].a[0] == 'Editor::readline'
        if src is not None and not ok and strip_ws(line).op == 'vf' and w is vfield(src, 'Ok'):
            ok = True
        want(rep, R, 'shell', ok, w, 'what is parsed are not the words of the line', e.span)
        app = e.args[0]
        made = list(L.value_terms(app))
        subs = {y.a[0] for x in made if x.op == 'call' and x.a[0] == 'App::subcommand' for z in x.a[1][1:]
                for a in find(z, lambda q: q.op == 'call' and q.a[0] == 'App::new') for y in a.a[1][:1] if y.op == 'str'}
        nob = [x.a[1][1] for x in made if x.op == 'call' and x.a[0] in ('App::no_binary_name', 'App::multicall')]
        basic = any(x.op == 'call' and x.a[0] == 'CommandFactory::command' for x in made)
        if basic:
            for name in ('exit', 'lock'):
                opaque = any(x.op in ('unk', 'opaque', 'undef') for x in made)
                rep.ob(R, 'shell', name in subs or (None if opaque else False), '%s is not a command' % name, e.span)
            rep.ob(R, 'shell', any(x is boolean(True) for x in nob) if all(x.op == 'bool' or x in (
                boolean(True), boolean(False)) for x in nob) else None,
                'the first word of a line is taken for the name of the program', e.span)
        else:
            rep.ob(R, 'shell', None, 'the commands of the shell are not understood')
    rep.ob(R, 'shell', n > 0 or None, 'lines are not parsed by clap')


# -------------------------------------------------------------------- no crash
def crashes(c, rep):
    """Commands do not panic when something fails, and do not ask a closed input
    again and again."""
    R = 'a command that fails does not end the shell'
    R2 = 'the end of input ends a prompt'
    for cmd in sorted(NAMES):
        if cmd in ('Shell', 'SetPrimary'):
            continue
        paths = c.paths(cmd)
        n = 0
        for p in paths:
            if p.kind == 'ret':
                n += 1
                rep.ob(R, cmd, True)
                continue
            why = newest(p.facts)
            k = next(reversed(p.facts), None)
            v = p.facts.get(k)
            if p.kind == 'exit':
                rep.ob(R, cmd, False, 'the command ends the program')
                continue
            if p.kind != 'panic' or why is None:
                rep.ob(R, cmd, None, 'the command ends in ' + p.kind)
                continue
            why = root(why)
            if why.op == 'call' and STREAMS.match(why.a[0]):
                continue
            if why.op == 'isutf8' and v is False:
                rep.ob(R, cmd, False, 'input that is not UTF-8 makes the command panic')
            elif isinstance(k, tuple) and why.op == 'call' and why.a[0].startswith('Passwords::') and \
                    variant(p.facts, why) == 'Err' or \
                    isinstance(k, tuple) and v == 'Err' and why.op == 'call' and known_fact(k):
                rep.ob(R, cmd, False, 'the command panics when %s fails' % why.a[0])
            else:
                rep.ob(R, cmd, None, 'whether the command can panic is not known: %s' % show(why, 4))
        rep.ob(R, cmd, n > 0, 'the command never ends')
        for p, e, f in events(paths):
            if e.kind in ('ext', 'effect') and LEAVES.match(e.name):
                rep.ob(R, cmd, False, '%s ends the shell' % e.name, e.span)
        for rec in Loops(paths):
            for q in rec.passes:
                asks(rep, R2, cmd, q)


def root(t):
    while t.op in ('vf', 'f'):
        t = t.a[0]
    return t


def asks(rep, R, cmd, q):
    for k, v in q.facts.items():
        if isinstance(k, tuple) and v == 'Err' and k[1].op == 'call' and k[1].a[0].startswith('rpassword::') and any(
                e.res is k[1] for e in direct(q.evs)):
            rep.ob(R, cmd, False, 'the user is asked again when the input cannot be read')
    for e in deep(q.evs):
        if e.kind != 'ext' or e.name != 'Read::read':
            continue
        r = e.res
        end = variant(q.facts, r) == 'Err' or truth(q.facts, mk('eqz', vfield(r, 'Ok'), 1)) is False
        if not end or any(e is g for g in q.evs) and False:
            continue
        # the text read so far is empty
        some = any(not isinstance(k, tuple) and v is False and k.op == 'empty' and k.a[0].op == 'phi'
                   for k, v in q.facts.items())
        rep.ob(R, cmd, some, 'the user is asked again and again at the end of input')


def deep(evs):
    for e in evs:
        yield e
        if e.kind == 'alt':
            for l in e.extra:
                yield from deep(l)


RULES = {'C26': c26}
