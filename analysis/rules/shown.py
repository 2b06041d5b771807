"""What is displayed and entered is exact (C30)."""
import re
import lib as L
from lib import arg
from terms import *
from rules.cmd import (Cli, events, known_fact, bare, uncast, untrim, TRIMS, read_result, first)
from rules.lists import Loops, Pass, must, PWS, fields_of, entry_of, closed_facts

OUT = re.compile(r'^(io::_print|io::_eprint|Write::write\w*|QrCode::encode_text)$')
WRITES = ('Write::write_all', 'Write::write', 'Write::write_fmt', 'Write::write_vectored')
GET = {'Passwords::get': 'password', 'Passwords::get_notes': 'notes'}


def secret_of(t):
    """'password' or 'notes' if t is exactly what the library returns."""
    if t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] in GET:
        return GET[t.a[0].a[0]]
    if t.op == 'f' and t.a[1] in ('notes', 'password'):
        x = t.a[0]
        while x.op in ('vf', 'f'):
            x = x.a[0]
        if x.op in ('elem', 'idx', 'item', 'elt') and first(x, lambda z: z.op == 'call' and z.a[0] == PWS):
            return t.a[1]
    return None


def within(t):
    """The secrets in a value.  (A QR code is drawn; it is looked at elsewhere.)"""
    r, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'loopctx' or x.op == 'call' and x.a[0].startswith('QrCode::'):
            continue
        seen.add(x.id)
        if secret_of(x):
            r.append(x)
        st.extend(kids(x))
    return r


def text(e):
    """What an output event outputs."""
    if e.kind == 'print':
        return e.args[0]
    if e.name == 'QrCode::encode_text':
        return e.args[0]
    return e.args[1] if len(e.args) > 1 else None


def is_out(e):
    return e.kind in ('print', 'ext') and bool(OUT.match(e.name)) and e.name != 'io::_eprint'


def is_write(e):
    return e.kind == 'ext' and e.name in WRITES


def pieces(t):
    """The parts of a text, without what only says how they got into it."""
    r = []
    for y in parts(t):
        while y.op in ('disp', 'item', 'elt'):
            y = y.a[0]
        r += parts(y) if y.op == 'cat' else [y]
    return r


def shows(e, s):
    t = text(e) if is_out(e) else None
    return t is not None and s in pieces(t)


def outputs(evs):
    """Does any of these events output something?"""
    for e in evs:
        if is_out(e) and e.name != 'QrCode::encode_text':
            return True
        if e.kind == 'alt' and any(outputs(l) for l in e.extra):
            return True
        if e.kind == 'loop' and any(outputs(t[2]) for t in e.extra[0].trans):
            return True
    return False


def beside(evs, i, d):
    """The text output next to event i: a term, '' (there is none) or None."""
    j = i + d
    while 0 <= j < len(evs):
        e = evs[j]
        if is_out(e) and e.name != 'QrCode::encode_text':
            return text(e)
        if e.kind in ('alt', 'loop') and outputs([e]):
            return None
        j += d
    return ''


def own_line(evs, i, s):
    """Is the secret on a line of its own?  (before, after)"""
    ps = pieces(text(evs[i]))
    k = ps.index(s)
    before, after = edge(ps[:k], -1), edge(ps[k + 1:], 1)
    if before == '':
        before = edge(neighbour(evs, i, -1), -1)
    if after == '':
        after = edge(neighbour(evs, i, 1), 1)
    return before, after


def neighbour(evs, i, d):
    t = beside(evs, i, d)
    return t if t is None or t == '' else pieces(t)


def edge(ps, d):
    """True: the edge of the text is a line end; '' there is no text."""
    if ps is None:
        return None
    if ps == '' or not ps:
        return ''
    y = ps[-1] if d < 0 else ps[0]
    if y.op != 'str':
        return None if not L.closed(y) else False
    b = y.a[0]
    if b == '':
        return edge(ps[:-1] if d < 0 else ps[1:], d)
    return b.endswith('\n') if d < 0 else b.startswith('\n')


def rest(t):
    return any(y.op in ('slice', 'phi', 'skip', 'drop') for y in pieces(t))


def piecewise(t, s):
    """Is t one of the pieces that together make up the secret?"""
    for y in pieces(t):
        if y.op == 'array' and len(y.a[0] if isinstance(y.a[0], tuple) else y.a) == 1:
            y = (y.a[0] if isinstance(y.a[0], tuple) else y.a)[0]
        if y.op != 'elem':
            continue
        x = y.a[0]
        if x.op == 'pieces' and x.a[0] == 'str::split_inclusive':
            x = x.a[1][0]
        elif x.op == 'chunks':
            x = x.a[0]
        if x is s:
            return True
    return False


def once(c, cmd):
    """Is what Write::write leaves over never written?"""
    return not any(x.name == 'Write::write' and rest(t)
                   for p in c.paths(cmd) for x, f, loop, maybe in p.walk() if is_out(x)
                   for t in [text(x)] if t is not None)


# ------------------------------------------------------------------------- C30
def c30(prog, rep):
    c = Cli(prog, rep)
    R = 'secrets are shown unchanged'
    for cmd in ('Show', 'List', 'Notes'):
        for p, e, f in events(c.paths(cmd)):
            if e.kind not in ('print', 'ext') or not OUT.match(e.name):
                continue
            t = text(e)
            for s in within(t) if t is not None else ():
                if e.name == 'Write::write' and not once(c, cmd):
                    rep.ob(R, cmd, None, 'the %s is written piece by piece' % secret_of(s), e.span)
                    continue
                if e.name == 'Write::write':
                    rep.ob(R, cmd, False, 'the %s may be shown in part: write is called once and '
                           'need not write all it is given' % secret_of(s), e.span)
                if piecewise(t, s):
                    rep.ob(R, cmd, None, 'the %s is written piece by piece' % secret_of(s), e.span)
                    continue
                rep.want(R, cmd, s in pieces(t), t, 'what is shown is not exactly the %s' % secret_of(s), e.span)
    rep.floor(R, 3)
    show_cmd(c, rep)
    notes_cmd(c, rep)
    listing(c, rep)
    pending(c, rep)
    typed(c, rep)


def ok_paths(c, cmd):
    return [p for p in c.paths(cmd) if p.kind == 'ret' and any(oc == 'Ok' for oc, f in c.outcomes(p))]


def show_cmd(c, rep):
    R, R2, R3 = 'show shows the password', 'the password is on a line of its own', 'the QR code is that of the password'
    qr = c.opt('Show', 'qrcode')
    n = {True: 0, False: 0}
    for p in ok_paths(c, 'Show'):
        k = truth(p.facts, qr)
        evs = list(flat(p.events))
        got = [(i, s) for i, e in enumerate(evs) if is_out(e) and e.name != 'QrCode::encode_text'
               for s in pieces(text(e)) if secret_of(s) == 'password']
        code = [e for e in evs if e.name == 'QrCode::encode_text']
        if k is None:
            rep.ob(R, 'Show', None, 'whether a QR code is asked for is not known')
            continue
        n[k] += 1
        if not k:
            und = None if not closed_facts(p.facts) else False
            rep.ob(R, 'Show', bool(got) or und, 'the password is not shown')
            for i, s in got:
                b, a = own_line(evs, i, s)
                a = False if a == '' else a
                rep.ob(R2, 'Show', False if False in (b, a) else None if None in (a, b) else True,
                       'the password is not on a line of its own', evs[i].span)
        else:
            calls = [t for t in deepcalls(p.facts, 'QrCode::encode_text')]
            rep.ob(R3, 'Show', any(secret_of(t.a[1][0]) == 'password' for t in calls) or
                   (None if not calls and not closed_facts(p.facts) else False), 'there is no QR code of the password')
            qrcode(c, rep, p)
    rep.ob(R, 'Show', n[False] > 0, 'show shows nothing')
    rep.ob(R3, 'Show', n[True] > 0, 'show makes no QR codes')


def deepcalls(facts, name):
    seen = set()
    for k in facts:
        t = k[1] if isinstance(k, tuple) else k
        for x in find(t, lambda z: z.op == 'call' and z.a[0] == name):
            if x not in seen:
                seen.add(x)
                yield x


def flat(evs):
    """Events in order, alternatives that are single put in their place."""
    for e in evs:
        if e.kind == 'alt' and len(e.extra) == 1:
            yield from flat(e.extra[0])
        else:
            yield e


BLOCKS = {' ': (False, False), '\u2580': (True, False), '\u2584': (False, True), '\u2588': (True, True)}


def qrcode(c, rep, p):
    """Every block stands for the two modules it covers."""
    R = 'blocks stand for the modules of the QR code'
    n = 0
    for rec in Loops([p]):
        for ps in rec.passes:
            for e in ps.evs:
                if not is_write(e) or text(e).op != 'str' or text(e).a[0] not in BLOCKS:
                    continue
                n += 1
                mods = {}
                for k, v in ps.facts.items():
                    if not isinstance(k, tuple) and k.op == 'call' and k.a[0] == 'QrCode::get_module' and \
                            v in (True, False):
                        mods[k.a[1][1:]] = v
                xs = {x for x, y in mods}
                if len(mods) == 2 and len(xs) == 2 and all(L.closed(a) for xy in mods for a in xy):
                    rep.ob(R, 'Show', False, 'a block stands for modules that are not one above the other', e.span)
                    continue
                if len(mods) != 2 or len(xs) != 1:
                    rep.ob(R, 'Show', None, 'the modules a block stands for are not understood')
                    continue
                (y1, v1), (y2, v2) = [(y, v) for (x, y), v in mods.items()]
                if L.closed(y1) and y2 is add(y1, integer(1)):
                    up, low = v1, v2
                elif y1 is add(y2, integer(1)):
                    up, low = v2, v1
                else:
                    rep.ob(R, 'Show', None, 'the modules a block stands for are not understood')
                    continue
                rep.ob(R, 'Show', BLOCKS[text(e).a[0]] == (up, low), 'a block of the QR code is wrong', e.span)
                ranges(rep, p, y1 if y2 is add(y1, integer(1)) else y2, 2, 'rows')
                ranges(rep, p, xs.pop(), 1, 'columns')
    rep.ob(R, 'Show', True if n >= 4 else None, 'the blocks of the QR code are not understood')


def ranges(rep, p, t, step, what):
    """t runs over all modules of the QR code, two rows at a time."""
    R = 'every module of the QR code is drawn once'
    if t.op != 'elem' or t.a[0].op != 'range':
        return
    its = {e.args[0] for e, f, l, m in p.walk() if e.kind == 'none' and e.name == 'exhausted'}
    its = [it for it in its if it.op == 'it' and any(x is t.a[0] for x in (it.a[0], *it.a[0].a[:1]))]
    by = {it.a[0].a[1] if it.a[0].op == 'stepby' else integer(1) for it in its}
    lo, hi = t.a[0].a[:2]
    size = find(hi, lambda y: y.op == 'call' and y.a[0] == 'QrCode::size')
    over = sub(hi, size[0]) if size else None
    bad = step > 1 and its and integer(step) not in by and all(x.op == 'int' for x in by) or \
        lo.op == 'int' and lo.a[0] > 0 or over is not None and over.op == 'int' and over.a[0] < 0
    if hi.op == 'int' and lo.op == 'int':
        # the range ends at a fixed module: some code is known to be larger
        bad = bad or any(p.facts.get(lt(hi, x)) is True for x in deepcalls(p.facts, 'QrCode::size'))
    good = lo.op == 'int' and over is not None and over.op == 'int' and integer(step) in by
    if any(it.a[1] or it.a[0].op not in ('range', 'stepby') for it in its):
        bad = good = False
    rep.ob(R, 'Show', False if bad else True if good else None,
           what + ' are left out or drawn twice: ' + show(t, 4))


def notes_cmd(c, rep):
    R = 'notes shows the notes'
    n = 0
    for p in ok_paths(c, 'Notes'):
        for t in deepcalls(p.facts, 'Passwords::get_notes'):
            s = vfield(t, 'Ok')
            if truth(p.facts, empty(s)) is True:
                continue
            n += 1
            evs = list(flat(p.events))
            got = [i for i, e in enumerate(evs) if shows(e, s)]
            part = [e for e, f, l, m in p.walk() if is_out(e) and text(e) is not None and s in within(text(e))]
            rep.ob(R, 'Notes', bool(got) or (None if part or not closed_facts(p.facts) else False),
                   'notes are not shown')
            for i in got:
                b, a = own_line(evs, i, s)
                rep.ob(R, 'Notes', a is not False, 'something else follows the notes on the same line', evs[i].span)
    rep.ob(R, 'Notes', n > 0, 'no notes are shown')


def listing(c, rep):
    """Every listed password with --show, its notes and recovery code."""
    R, R2, R3 = 'list --show shows the passwords', 'list --verbose shows the notes', \
        'list --recovery shows the recovery code'
    paths = [p for p in c.paths('List') if p.kind == 'ret']
    n = 0
    for rec in Loops(paths):
        if not any(any(fields_of(e, 'name') for e in p.direct()) for p in rec.passes):
            continue
        for p in rec.passes:
            its = [x for it, x in p.next() if first(x, lambda z: z.op == 'call' and z.a[0] == PWS)]
            if not its:
                continue
            n += 1
            x = its[0]
            site = first(x, lambda z: z.op == 'call' and z.a[0] == PWS).a[1][1]
            und = None if not closed_facts(p.facts) else False
            asked = truth(p.facts, c.opt('List', 'show'))
            mine = [s for e in p.direct() if is_out(e) for s in pieces(text(e))
                    if secret_of(s) == 'password' and of(s, x, site)]
            if asked is True:
                ok = must(p.evs, lambda e: is_out(e) and any(
                    secret_of(s) == 'password' and of(s, x, site) for s in pieces(text(e))))
                rep.ob(R, 'List', ok or und, 'a password is not shown')
            elif asked is False:
                rep.ob(R, 'List', not mine, 'a password is shown without --show')
            other = [s for e in p.direct() if is_out(e) for s in pieces(text(e))
                     if secret_of(s) and of(s, x, site) is False]
            rep.ob(R, 'List', not other, 'the secret of another password is shown')
            for i, e in enumerate(p.evs):
                for s in pieces(text(e)) if is_out(e) else ():
                    if secret_of(s):
                        a = own_line(p.evs, i, s)[1]
                        rep.ob('secrets end a line', 'List', True if a is True else None if a is None else False,
                               'something else follows a secret on the same line', e.span)
            verbose = truth(p.facts, c.opt('List', 'verbose'))
            if verbose is True:
                k = [t for t in notes_terms(p.facts) if of(t, x, site) and truth(p.facts, empty(t)) is True]
                if not k:
                    ok = must(p.evs, lambda e: is_out(e) and any(
                        secret_of(s) == 'notes' and of(s, x, site) for s in pieces(text(e))))
                    rep.ob(R2, 'List', ok or und, 'the notes of a password are not shown')
            if truth(p.facts, c.opt('List', 'recovery')) is True and variant(p.facts, x) == 'Stored':
                recovery(c, rep, R3, p, x, und)
    rep.ob(R, 'List', n > 0, 'no passwords are listed')
    rep.floor(R3, 1)


def notes_terms(facts):
    for k, v in facts.items():
        if not isinstance(k, tuple) and k.op == 'empty' and secret_of(k.a[0]) == 'notes':
            yield k.a[0]


def of(s, x, site):
    """Is s the secret of the listed password x?"""
    if s.op == 'f':
        y = s.a[0]
        while y.op == 'vf':
            y = y.a[0]
        return y is x
    a = s.a[0].a[1]
    if len(a) != 4:
        return None
    ok = bare(a[1]) is bare(site) and all(
        y.op == 'f' and y.a[1] == n and entry_of(y) is x for y, n in zip(a[2:], ('name', 'revision')))
    return ok or (None if not all(L.closed(y) for y in a[1:]) else False)


def recovery(c, rep, R, p, x, und):
    calls = {t for t in deepcalls(p.facts, 'Passwords::get_recovery_code')}
    mine = [t for t in calls if strip(t.a[1][1]) is x]
    if not mine:
        rep.ob(R, 'List', und, 'the recovery code of a password is not shown')
        return
    code = vfield(mine[0], 'Ok')

    def whole(e):
        return is_out(e) and code in pieces(text(e))

    def lines(e):
        if e.kind != 'loop':
            return False
        for q in e.extra[0].passes:
            el = [(it, y) for it, y in q.next() if code in L.value_terms(it.a[0])]
            if not el or not plain(el[0][0], code):
                return False
            y = el[0][1]
            if not must(q.evs, lambda g: is_out(g) and y in pieces(text(g)) and
                        edge(pieces(text(g)), -1) is True):
                return False
        return True
    ok = must(p.evs, whole)
    if not ok:
        for i, e in enumerate(p.evs):
            if lines(e) and any(g.kind == 'none' and g.name == 'exhausted' and first(
                    g.args[0], lambda z: z is code) for g in p.evs[i:]):
                ok = True
    opaque = any(g.kind in ('loop', 'alt') for g in p.evs) and not any(
        e.kind == 'loop' and any(code in L.value_terms(it.a[0]) for q in e.extra[0].passes for it, y in q.next())
        for e in p.evs)
    rep.ob(R, 'List', ok or (None if opaque else und), 'the recovery code of a password is not shown completely')


def plain(it, code):
    """The lines of the code, all of them."""
    s = it
    while s.op == 'it' and not s.a[1]:
        s = s.a[0]
    return s.op == 'pieces' and s.a[0] in ('str::split', 'str::lines', 'str::split_terminator',
                                           'str::split_inclusive') and s.a[1][0] is code


def strip(y):
    while y.op == 'vf':
        y = y.a[0]
    return y


# ------------------------------------------------------------------ what waits
def pending(c, rep):
    """Text that waits in the buffer of print! goes out before secrets do."""
    R = 'output comes in order'

    def go(cmd, evs, wait):
        """wait: True, False, None"""
        for e in evs:
            if e.kind == 'print' and e.name == 'io::_print':
                t = edge(pieces(e.args[0]), -1)
                wait = wait if t == '' else False if t is True else True if t is False else None
            elif e.kind == 'ext' and e.name in ('Write::flush', 'FLUSH'):
                if any(find(a, lambda z: z.op == 'call' and z.a[0] == 'io::stdout') for a in e.args):
                    wait = False
            elif is_write(e) and find(e.args[0], lambda z: z.op == 'call' and z.a[0] == 'StreamWriter::stdout'):
                rep.ob(R, cmd, wait is not True, 'a secret is written before text that was printed earlier', e.span)
            elif e.kind == 'alt':
                ws = {go(cmd, l, wait) for l in e.extra}
                wait = True if True in ws else None if None in ws else False
            elif e.kind == 'loop':
                ws = {wait}
                for k, k2, evs2, b in e.extra[0].trans:
                    if id(evs2) not in seen:
                        seen.add(id(evs2))
                        ws.add(go(cmd, evs2, wait))
                wait = wait if len(ws) == 1 else None
        return wait
    for cmd in ('Show', 'Notes', 'List'):
        seen = set()
        done = 0
        for p in c.paths(cmd):
            if p.kind == 'ret' and done < 60:
                done += 1
                go(cmd, p.events, False)


# ---------------------------------------------------------------------- typing
def typed(c, rep):
    R, R2, R3 = 'notes are stored as typed', 'passwords are stored as typed', \
        'the primary password is treated the same everywhere'
    trims = {}
    spans = {}
    for cmd in ('Notes', 'AddStored', 'SetPrimary', 'Show'):
        for p, e, f in events(c.paths(cmd), 'pw'):
            m = e.name.split('::')[-1]
            if m == 'set_notes':
                x = e.args[4] if len(e.args) > 4 else None
                if x is not None:
                    if x.op == 'call' and x.a[0] in TRIMS:
                        rep.ob(R, cmd, False, 'white space is removed from notes', e.span)
                    line(c, rep, R, cmd, p, e, untrim(x))
            elif m == 'set_stored':
                x = e.args[4] if len(e.args) > 4 else None
                if x is not None:
                    line(c, rep, R2, cmd, p, e, untrim_ws(x))
            elif m in ('unlock', 'reset'):
                x = e.args[1]
                line(c, rep, R2, cmd, p, e, untrim_ws(x))
                k = []
                y = x
                while y.op == 'call' and y.a[0] in TRIMS:
                    k.append(y.a[0])
                    y = y.a[1][0]
                trims.setdefault(m, set()).add(tuple(sorted(set(k))))
                spans[m] = e.span
    for m, ks in sorted(trims.items()):
        other = trims.get('reset' if m == 'unlock' else 'unlock', ks)
        rep.ob(R3, m, ks == other and len(ks) == 1,
               'the primary password is trimmed in one place and not in another', spans[m])
    rep.floor(R3, 2)
    rep.floor(R, 1)
    rep.floor(R2, 2)


def closed_above(t, leaf):
    """Is a value understood down to the leaves?"""
    if leaf(t):
        return True
    if t.op in L.OPAQUE_OPS or t.op == 'call' and t.a[2] is not None:
        return False
    return all(closed_above(y, leaf) for y in kids(t))


WS = {'str::trim', 'str::trim_start', 'str::trim_end'}


def untrim_ws(x):
    while x.op == 'call' and x.a[0] in WS and len(x.a[1]) == 1:
        x = x.a[1][0]
    return x


def line(c, rep, R, cmd, p, e, x):
    """Is x a line that the user typed, all of it?"""
    if x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call' and (
            x.a[0].a[0].startswith('rpassword::') or x.a[0].a[0] == 'Passwords::decode_recovery_code'):
        rep.ob(R, cmd, True)
        return
    E = p.E
    ups = E.phiup.get(x, ()) if x.op == 'phi' else ()
    if not ups:
        if x.op in ('str', 'int') or secret_of(x):
            rep.ob(R, cmd, False, 'what is stored was not typed in', e.span)
        else:
            rep.want(R, cmd, False, x, 'what is stored is not exactly what was typed in', e.span)
        return
    if not (x.a[2] is EMPTY or x.a[2] is string('')):
        rep.want(R, cmd, False, x.a[2], 'the line typed in is stored after something else', e.span)
    reads = set()
    for v, f, rec in ups:
        if v is x:
            rep.ob(R, cmd, None if not closed_facts(f) else False, 'some bytes typed in are left out', e.span)
            continue
        ps = parts(v)
        y = ps[1] if len(ps) == 2 and ps[0] is x else None
        while y is not None and (y.op in ('item', 'elt') or y.op == 'array' and len(y.a[0]) == 1):
            y = y.a[0][0] if y.op == 'array' else y.a[0]
        if y is None or not read_result(y) or uncast(y) is not y:
            k = closed_above(v, lambda z: z is x or read_result(z) and uncast(z) is z)
            rep.ob(R, cmd, False if k else None, 'a byte typed in is changed: ' + show(v, 6), e.span)
            continue
        reads |= set(find(y, lambda z: z.op == 'call' and z.a[0].startswith('Read::')))
        rep.ob(R, cmd, True)
    if not reads:
        return
    # how the line ends
    ends = set()
    for k, v in e.facts.items():
        t = k[1] if isinstance(k, tuple) else k
        rs = [r for r in reads if r.id in deps(t)]
        if not rs:
            continue
        r = rs[0]
        n = vfield(r, 'Ok')
        if isinstance(k, tuple):
            if t is r and v == 'Err':
                ends.add(True)
            continue
        if t.op == 'eqz' and t.a[0] is n:
            if t.a[1] == 1 and v is False or t.a[1] == 0 and v is True:
                ends.add(True)
        elif t.op == 'eqz' and read_result(t.a[0]):
            if v is True:
                ends.add(t.a[1] in (10, 13))
        elif t.op not in ('isutf8', 'empty', 'eqz'):
            ends.add(None)
    ok = True in ends
    if not ok:
        vague = None in ends or not ends and not any(
            r.id in deps(k[1] if isinstance(k, tuple) else k) for r in reads for k in e.facts)
        rep.ob(R, cmd, None if vague else False, 'reading may stop before the end of the line', e.span)
    elif False in ends:
        rep.ob(R, cmd, False, 'reading may stop before the end of the line', e.span)


RULES = {'C30': c30}
