"""Secrets are shown only where asked (C16)."""
import re
import lib as L
from lib import arg
from terms import *
from rules.cmd import Cli, events, first, NAMES
from rules.shown import secret_of, is_write, text, WRITES

THROUGH = re.compile(r'^(str|String|char|\[T\]|Vec|u8|slice|Cow|Iterator|Index|AsRef|ToString|fmt|Arguments|'
                     r'Option|Result|format|base64|PathBuf|Path|OsString)::|^b64|^join$')
STOP = {'len', 'empty', 'isutf8', 'eq', 'eqz', 'ge0', 'lt', 'utf8error', 'setin', 'hmac', 'hash', 'sha256',
        'ovf', 'loopctx', 'closure', 'exists'}
PLAIN = ('Aead::decrypt',)


def typed(t):
    """What the user typed at a prompt for a secret."""
    if t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call':
        return t.a[0].a[0].startswith('rpassword::') or t.a[0].a[0] == 'Passwords::decode_recovery_code'
    return t.op == 'out' and t.a[0].op == 'call' and t.a[0].a[0].startswith(('Read::', 'BufRead::')) and t.a[1] == 1


def leaks(t, E=None, own=(), debug=False):
    """The secrets that this value contains, in whatever form."""
    r, st, seen = [], [(t, debug)], set()
    while st:
        x, debug = st.pop()
        debug = debug or x.op == 'debug'
        if (x.id, debug) in seen or x.op in STOP:
            continue
        seen.add((x.id, debug))
        s = secret_of(x) or ('input' if typed(x) else 'secret' if x in own else None)
        if x.op == 'vf' and x.a[1] == 'Ok' and x.a[0].op == 'call' and x.a[0].a[0] in PLAIN:
            s = 'decrypted data'
        if s:
            if (s, x) not in r:
                r.append((s, x))
            continue
        if x.op == 'call' and not THROUGH.match(x.a[0]):
            continue
        if x.op == 'out' and x.a[0].op == 'call' and not THROUGH.match(x.a[0].a[0]):
            continue
        if x.op == 'vf' and x.a[1] == 'Err' and x.a[0].op == 'call':
            continue
        if x.op == 'fromutf8error' and not debug:
            continue
        st.extend((y, debug and x.op != 'disp') for y in kids(x))
        if x.op == 'phi' and E is not None:
            st.extend((v, debug) for v, f, rec in E.phiup.get(x, ()))
    return r


def stream(e):
    """Where a write goes: 'out' (standard output, unbuffered), 'buffered' or None."""
    t = e.args[0]
    if find(t, lambda z: z.op == 'call' and re.match(r'(BufWriter|LineWriter|io::stdout|io::stderr)', z.a[0])):
        return 'buffered'
    if find(t, lambda z: z.op == 'call' and z.a[0] == 'StreamWriter::stdout'):
        return 'out'
    return None


ALLOWED = {('Show', 'password'): None, ('Notes', 'notes'): None, ('List', 'password'): 'show',
           ('List', 'notes'): 'verbose'}
SINK = re.compile(r'^(fs|File|OpenOptions|Write|Editor|History|Command|env|io|process|Question|rpassword|StreamWriter|'
                  r'BufWriter|LineWriter|TcpStream|thread|FileIO|Permissions|panic|log)::')


# ------------------------------------------------------------------------- C16
def c16(prog, rep):
    c = Cli(prog, rep)
    n = 0
    for cmd in sorted(NAMES):
        paths = c.paths(cmd)
        for p, e, f in events(paths):
            if e.kind in ('pw', 'loop', 'alt', 'none', 'cmd'):
                continue
            n += 1
            sink(c, rep, cmd, p.E, e)
        for p in paths:
            errors(rep, cmd, p)
    for p, e, f in events(c.main()):
        if e.kind not in ('pw', 'loop', 'alt', 'none', 'cmd'):
            sink(c, rep, 'main', p.E, e)
    rep.floor('secrets go nowhere else', 9)
    rep.floor('secrets are written unbuffered to standard output', 3)
    library(prog, rep)
    debug(prog, rep)


def sink(c, rep, cmd, E, e):
    R, R2 = 'secrets go nowhere else', 'secrets are written unbuffered to standard output'
    R3 = 'secrets are shown only when asked for'
    if e.kind == 'print':
        ls = leaks(e.args[0], E)
        rep.ob(R, cmd, not ls, 'the %s is printed with %s, which keeps it in a buffer' % (
            kind(ls), 'print!' if e.name == 'io::_print' else 'eprint!') if ls else '', e.span)
        return
    if e.name.startswith(('Read::', 'BufRead::', 'StreamReader::')):
        return
    ls = [x for a in e.args if hasattr(a, 'op') for x in leaks(a, E)]
    if not ls:
        rep.ob(R, cmd, True)
        return
    if e.name == 'QrCode::encode_text':
        k = truth(e.facts, c.opt('Show', 'qrcode')) if cmd == 'Show' else False
        rep.ob(R3, cmd, k is True, 'a QR code of the %s is made' % kind(ls), e.span)
        return
    if is_write(e) and stream(e) == 'out':
        rep.ob(R2, cmd, True)
        t = text(e)
        for s, x in leaks(t, E):
            if (cmd, s) not in ALLOWED:
                rep.ob(R3, cmd, False, 'the %s is shown' % s, e.span)
                continue
            if cmd == 'Show':
                rep.ob(R3, cmd, truth(e.facts, c.opt('Show', 'qrcode')) is not True,
                       'the password is shown as text with --qrcode', e.span)
            o = ALLOWED[cmd, s]
            rep.ob(R3, cmd, o is None or truth(e.facts, c.opt(cmd, o)) is True,
                   'the %s is shown without --%s' % (s, o), e.span)
            if e.name == 'Write::write_all':
                rep.ob('secrets are not put into other texts', cmd, t.op != 'cat',
                       'the %s is put into a formatted text' % s, e.span)
        return
    if is_write(e) and stream(e) == 'buffered':
        rep.ob(R2, cmd, False, 'the %s is written to a buffered stream' % kind(ls), e.span)
        return
    rep.ob(R, cmd, False if SINK.match(e.name) else None, 'the %s is passed to %s' % (kind(ls), e.name), e.span)


def kind(ls):
    return ls[0][0] if ls else ''


def errors(rep, cmd, p):
    R = 'errors and panics contain no secrets'
    if p.kind == 'ret' and p.result == 'Err':
        t = vfield(p.val, 'Err')
        ls = leaks(t, p.E)
        rep.ob(R, cmd, not ls, 'the error contains the %s' % kind(ls))
    elif p.kind == 'panic' and p.val is not None:
        what = p.val.a[0]
        if what in ('Result::unwrap', 'Result::expect', 'panic', 'Result::unwrap_err', 'Option::expect') or \
                'unwrap' in str(what) or 'expect' in str(what):
            t = p.val.a[3]
            ls = leaks(t, p.E, debug=True) if getattr(t, 'op', '') != 'eq' else []
            rep.ob(R, cmd, not ls, 'the panic message contains the %s' % kind(ls))


def library(prog, rep):
    """The library prints nothing, and its errors contain no secrets."""
    R, R2 = 'the library prints nothing', 'errors and panics contain no secrets'
    for n, b in sorted(prog.api().items()):
        body = prog.body(b)
        own = {arg(i) for i in range(1, body['argc'] + 1) if re.search(r'\bSecret<|SecretString|SecretVec',
                                                                      body['locals'][i]['ty']) and i > 1}
        own |= {mk('f', arg(1), x) for x in ('key', 'hmac_secret')}
        for p in prog.paths(b):
            bad = [e for e, f, l, m in p.all('print')]
            rep.ob(R, n, not bad, '%s prints something' % n, bad[0].span if bad else None)
            if p.kind == 'ret' and p.result == 'Err':
                ls = leaks(vfield(p.val, 'Err'), p.E, own, debug=True)
                rep.ob(R2, n, not ls, 'the error contains the %s' % kind(ls))
            elif p.kind == 'panic' and p.val is not None and p.val.a[0] in ('Result::unwrap', 'Result::expect', 'panic'):
                ls = leaks(p.val.a[3], p.E, own, debug=True)
                rep.ob(R2, n, not ls, 'the panic message contains the %s' % kind(ls))
            for e, f, l, m in p.all('ext'):
                if SINK.match(e.name) and not e.name.startswith('StorageIO'):
                    ls = [x for a in e.args if hasattr(a, 'op') for x in leaks(a, p.E, own)]
                    rep.ob(R, n, not ls, 'the %s is passed to %s' % (kind(ls), e.name), e.span)
    rep.floor(R, 15)


def debug(prog, rep):
    """No Debug or Display implementation looks into a secret."""
    R = 'secrets cannot be formatted'
    for cr in prog.crates:
        bodies = {b['name']: b for b in prog.crates[cr]['bodies']}
        calls = {}
        for n, b in bodies.items():
            for bb in b['bbs']:
                t = bb['t']
                f = t.get('f') if isinstance(t, dict) else None
                c = f.get('c', {}) if isinstance(f, dict) else {}
                if c.get('path'):
                    calls.setdefault(n, set()).add(c['path'])
        for n, b in bodies.items():
            tr = str(b.get('trait') or '')
            if not re.search(r'fmt::(Debug|Display|LowerHex|UpperHex|Pointer)', tr) and 'ToString' not in tr:
                continue
            seen, st, bad = set(), [n], None
            while st and not bad:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for y in calls.get(x, ()):
                    if re.search(r'expose_secret', y):
                        bad = x
                    k = next((z for z in (y, cr + '#' + y, cr + '#' + re.sub(r'^\w+::', '', y)) if z in bodies), None)
                    if k:
                        st.append(k)
                st += [z for z in bodies if z.startswith(x + '::{closure')]
            rep.ob(R, n, bad is None, '%s formats a secret' % L.fname(n))


RULES = {'C16': c16}
