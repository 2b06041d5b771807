"""Anchors for the command line crate: the library's interface is not followed."""
from terms import *
import models as M
from engine import Ev


def pw_call(E, c, st, a):
    """A method of pfp::passwords::Passwords."""
    vals = tuple(E.deep(st, x) for x in a)
    mut = bool(a) and a[0].op == 'ptr'
    name = 'Passwords::' + c.path.split('::')[-1]
    if mut:
        r = mk('call', name, vals, '%s@%d' % (c.site.split('#')[-1], st.n))
        st.n += 1
    else:
        r = mk('call', name, vals, None)
    st.event(Ev('pw', name, vals, r, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))
    if mut:
        E.write(st, a[0], mk('out', r, 0))
    return [('ret', st, r)]


def pure_call(E, c, st, a):
    vals = tuple(E.deep(st, x) for x in a)
    return [('ret', st, mk('call', c.key, vals, None))]


def matches_call(E, c, st, a):
    """Args::from_arg_matches: the arguments that matches contain."""
    vals = tuple(E.deep(st, x) for x in a)
    return [('ret', st, mk('call', 'Args::from_arg_matches', vals, None))]


def io_call(E, c, st, a):
    vals = tuple(E.deep(st, x) for x in a)
    r = mk('call', c.key, vals, None)
    st.event(Ev('io', c.key, vals, r, st.facts, c.span, c.fr.stack + ((c.fr.name, c.span),)))
    return [('ret', st, r)]


def anchors(key, path):
    if 'pfp::passwords::Passwords' in path or 'pfp#passwords::Passwords' in path:
        return pw_call
    if 'pfp::recovery_codes::' in path or 'pfp#recovery_codes::' in path:
        return pure_call
    if key in ('FileIO::load', 'FileIO::new'):
        return io_call
    return None
