"""Typing a recovery code line by line (C36)."""
import re
import lib as L
from terms import *
from rules.cmd import Cli, events
from rules.lists import Loops
from rules.common import outcomes

ALPHABET = set('ABCDEFGHJKLMNPQRSTUVWXYZ23456789')
DECODE, ASK, CONFIRM = 'Passwords::decode_recovery_code', 'Question::ask', 'Question::confirm'
FORMAT = 'recovery_codes::format_code'
GOES_ON = {'RecoveryCodeIncomplete', 'RecoveryCodeChecksumMismatch'}


def calls(t, name):
    return t.op == 'call' and t.a[0] == name


def typed(t):
    """The question a line was the answer to."""
    if t.op == 'vf' and t.a[1] == 'RESPONSE':
        t = t.a[0]
        if t.op == 'vf' and t.a[1] == 'Some' and calls(t.a[0], ASK):
            return t.a[0]
    return None


def atoms(t):
    """What a code consists of, without what decoding ignores."""
    if t.op == 'call' and t.a[0] in (FORMAT, 'str::trim', 'str::trim_end', 'str::trim_start',
                                     'str::to_ascii_uppercase', 'str::to_uppercase', 'str::to_ascii_lowercase') and \
            typed(t.a[1][0] if t.a[0] != FORMAT else EMPTY) is not None or calls(t, FORMAT):
        return atoms(t.a[1][0])
    out = []
    for x in parts(t):
        if x.op == 'str' and not (set(x.a[0].upper()) & ALPHABET):
            continue
        if x.op == 'disp':
            x = x.a[0]
        if x is t:
            out.append(x)
        else:
            out.extend(atoms(x))
    return out


def lines_of(t):
    """(code, n) if t are the first n lines of the code, n is None for all of them."""
    if t.op == 'join':
        s, sep = t.a
        if s.op == 'pieces':
            s = mk('slice', s, integer(0), EMPTY)
        if sep.op == 'str' and not (set(sep.a[0].upper()) & ALPHABET) and s.op == 'slice' and \
                s.a[1] is integer(0) and s.a[0].op == 'pieces' and s.a[0].a[0] in (
                    'str::split', 'str::lines', 'str::split_terminator'):
            src = s.a[0].a[1]
            if calls(src[0], FORMAT) and src[0].a[1][1] is TRUE and (
                    len(src) < 2 or src[1].op in ('str', 'char', 'int') and src[1].a[0] in ('\n', 10)):
                return src[0].a[1][0], None if s.a[2] is EMPTY else s.a[2]
    return None


def first(t, code, n, facts):
    """Are these the first n lines of the code?"""
    ls = lines_of(t)
    if ls is None or atoms(ls[0]) != code:
        return False
    if ls[1] is None:
        return prove(facts, sub(n, length(t.a[0])))
    return ls[1] is n


def failure(facts, d):
    """The variant of the error with which a decoding failed."""
    if variant(facts, d) != 'Err':
        return None
    return variant(facts, vfield(d, 'Err'))


def decodings(facts):
    return [k[1] for k, v in facts.items() if isinstance(k, tuple) and calls(k[1], DECODE)]


def line_of(d, name):
    return mk('vf', vfield(d, 'Err'), name, 'line')


def opaque(t):
    """Is there something in it that is not understood?"""
    def known(x):
        return x.op == 'call' and (x.a[0] in (FORMAT, ASK, CONFIRM) or x.a[0].startswith('Passwords::'))
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen or x.op == 'loopctx':
            continue
        seen.add(x.id)
        if x.op in L.OPAQUE_OPS or x.op == 'call' and x.a[2] is not None and not known(x):
            return True
        if not known(x) or x.a[0] == FORMAT:
            todo.extend(kids(x))
    return False


def want(rep, R, ok, value, msg, span=None):
    rep.ob(R, 'AddStored', ok or (None if opaque(value) else False), '%s: %s' % (msg, show(value, 4)), span)


def c36(prog, rep):
    c = Cli(prog, rep)
    R1, R2 = 'what was accepted and the new line are decoded', 'what is kept is what was accepted'
    R3, R4 = 'what is stored was decoded', 'an aborted or hopeless input stores nothing'
    R5, R6 = 'the lines shown are those accepted', 'the user can go on after a wrong line'
    paths = c.paths('AddStored')
    kept, seen = [], set()
    # the text that is carried from line to line
    for p, e, f in events(paths):
        if e.name != DECODE:
            continue
        x = e.args[1]
        ls = lines_of(x)
        if ls is not None:
            continue
        at = atoms(x)
        ok = len(at) == 2 and at[0].op == 'phi' and typed(at[1]) is not None
        und = any(opaque(y) for y in at)
        rep.ob(R1, 'AddStored', ok or (None if und or len(at) == 1 and at[0].op in ('join', 'phi') else False),
               'decoded is not what was accepted so far and the line typed: ' + show(x, 4), e.span)
        if ok and at[0] not in seen:
            seen.add(at[0])
            kept.append((at[0], p.E))
        q = typed(at[1]) if ok else None
        if q is not None:
            rep.ob(R1, 'AddStored', variant(f, q) == 'Some', 'a line that was not typed', e.span)
    rep.ob(R1, 'AddStored', bool(kept), 'recovery codes are not decoded line by line')
    good = {}
    for ph, E in kept:
        if ph.a[2] is not EMPTY:
            rep.ob(R2, 'AddStored', None if opaque(ph.a[2]) else False, 'the code does not start empty: ' + show(ph.a[2], 3))
        for v, f, rec in E.phiup.get(ph, ()):
            ds = [d for d in decodings(f) if atoms(d.a[1][1])[:1] == [ph]]
            if not ds:
                want(rep, R2, atoms(v) == [ph], v, 'what was accepted changes without a new line')
                continue
            d = ds[-1]
            code = atoms(d.a[1][1])
            name = failure(f, d)
            if name == 'RecoveryCodeIncomplete':
                want(rep, R2, atoms(v) == code, v, 'a line is not kept although it was accepted')
            elif name == 'RecoveryCodeChecksumMismatch':
                want(rep, R2, first(v, code, line_of(d, name), f), v,
                         'what is kept after a wrong line are not the lines before it')
            elif isinstance(name, str):
                rep.ob(R6, 'AddStored', False, 'another line is asked for after the error ' + name)
            else:
                rep.ob(R6, 'AddStored', None, 'another line is asked for after an unknown error')
            if isinstance(name, str):
                good.setdefault(name, True)
    for n in sorted(GOES_ON):
        rep.ob(R6, n, bool(good.get(n)) or (None if not kept else False), 'no other line can be entered after ' + n)
    # what is shown as accepted
    for p, e, f in events(paths):
        if e.kind != 'print':
            continue
        ps = parts(e.args[0])
        code = [x for x in ps if x.op != 'str']
        if not code or not any(find(x, lambda z: calls(z, DECODE) or typed(z) is not None or z in seen) for x in code):
            continue
        for x in code:
            shown(rep, R5, f, x.a[0] if x.op == 'disp' else x, e, seen)
    # questions that show a code
    for p, e, f in events(paths):
        if e.kind == 'ext' and e.name == CONFIRM:
            q = e.args[0]
            for x in (parts(q.a[0]) if q.op == 'question' or q.a else ()):
                x = x.a[0] if x.op == 'disp' else x
                if x.op != 'str' and not opaque(x):
                    shown(rep, R5, f, x, e, seen)
    # results
    n = 0
    for p in paths:
        rec = truth(p.facts, c.opt('AddStored', 'recovery'))
        if rec is not True:
            continue
        sets = [(e, f) for e, f, loop, maybe in p.walk() if e.name == 'Passwords::set_stored']
        for e, f in sets:
            n += 1
            stored(rep, R3, p, e, f)
        for res, f in outcomes(prog, p):
            last = [d for d in decodings(f)]
            end = abort(f)
            if end and sets:
                rep.ob(R4, 'AddStored', False, 'a password is stored although ' + end, sets[0][0].span)
            elif end:
                rep.ob(R4, 'AddStored', res == 'Err', 'the command succeeds although ' + end)
            elif any(failure(f, d) == 'RecoveryCodeExtraData' for d in last) and not sets and p.kind == 'ret' and \
                    asked(f, 'YES'):
                rep.ob(R4, 'AddStored', any(
                    failure(f, d) is not None and lines_of(d.a[1][1]) for d in last),
                    'the code is not decoded although the user agreed to ignore extra data')
            elif last and not sets and res == 'Ok' and p.kind == 'ret':
                rep.ob(R4, 'AddStored', False, 'the code is decoded and the password is not stored')
            elif not end and res == 'Err' and p.kind == 'ret' and not answered(f) and not any(
                    variant(f, d) == 'Ok' for d in last) and \
                    any(failure(f, d) == 'RecoveryCodeExtraData' for d in last):
                rep.ob(R4, 'AddStored', False, 'extra data behind a valid code ends the command whatever the user answers')
            bad = [d for d in last if isinstance(failure(f, d), str) and failure(f, d) != 'RecoveryCodeExtraData']
            if bad and p.kind == 'ret':
                rep.ob(R4, 'AddStored', not sets and res == 'Err',
                       'a password is stored or the command succeeds after ' + failure(f, bad[-1]))
    rep.ob(R3, 'AddStored', n > 0, 'nothing is stored')
    rep.floor(R3, 1)


def shown(rep, R, facts, x, e, kept):
    """A text with a code: the lines that were accepted."""
    ls = lines_of(x)
    ds = decodings(facts)
    d = next((d for d in ds if isinstance(failure(facts, d), str)), None)
    if x.op == 'vf' or x.op == 'call' and x.a[0] != FORMAT or not (
            ls or x in kept or find(x, lambda z: calls(z, FORMAT) or typed(z) is not None)):
        return
    if d is None and x in kept:
        return
    if d is None:
        rep.ob(R, 'AddStored', None, 'a code is shown: ' + show(x, 3), e.span)
        return
    name = failure(facts, d)
    code = atoms(d.a[1][1])
    if name in ('RecoveryCodeChecksumMismatch', 'RecoveryCodeExtraData'):
        ok = first(x, code, line_of(d, name), facts)
    else:
        ok = atoms(x) == code
    want(rep, R, ok, x, 'the lines shown are not those that were accepted', e.span)


def stored(rep, R, p, e, f):
    v = e.args[4]
    if v.op != 'vf' or v.a[1] != 'Ok' or not calls(v.a[0], DECODE):
        want(rep, R, False, v, 'what is stored is not what was decoded', e.span)
        return
    d = v.a[0]
    at = atoms(d.a[1][1])
    ls = lines_of(d.a[1][1])
    if ls is None:
        ok = len(at) == 2 and at[0].op == 'phi' and typed(at[1]) is not None
        want(rep, R, ok, d.a[1][1], 'decoded is not the code that was typed', e.span)
        return
    # a valid code with something behind it
    code = atoms(ls[0])
    d0 = next((y for y in decodings(f) if atoms(y.a[1][1]) == code and y is not d), None)
    name = failure(f, d0) if d0 is not None else None
    want(rep, R, name == 'RecoveryCodeExtraData' and first(d.a[1][1], code, line_of(d0, name), f), d.a[1][1],
             'only a part of the code is decoded, and not because of extra data', e.span)
    rep.ob(R, 'AddStored', asked(f, 'YES'), 'extra data is ignored without asking', e.span)


def answered(f):
    return any(isinstance(k, tuple) and calls(k[1], CONFIRM) or not isinstance(k, tuple) and
               find(k, lambda z: calls(z, CONFIRM)) for k in f)


def asked(f, answer):
    """Was a question about the code answered like this?"""
    return any(isinstance(k, tuple) and calls(k[1], CONFIRM) and x == answer and
               find(k[1], lambda z: z.op == 'join' or calls(z, DECODE) or typed(z) is not None)
               for k, x in f.items())


def abort(f):
    """Why nothing may be stored: an empty line or a refusal."""
    for k, x in f.items():
        if not isinstance(k, tuple) and k.op == 'empty' and x is True and typed(k.a[0]) is not None:
            return 'the input was ended with an empty line'
    return 'the user refused' if asked(f, 'NO') else None


RULES = {'C36': c36}
