"""Listings are complete and in order, whatever order the storage has (C31)."""
import re
import lib as L
from lib import arg
from terms import *
from rules.cmd import Cli, events, known_fact, bare, lookup, collection, uncast
from rules.common import alts
from models import KEYS

SITES, PWS = 'Passwords::list_sites', 'Passwords::list'


class Pass:
    """One pass through a loop."""

    def __init__(self, rec, k, k2, evs, facts):
        self.rec, self.k, self.k2, self.evs, self.facts = rec, k, k2, evs, facts

    def direct(self, evs=None):
        for e in (self.evs if evs is None else evs):
            if e.kind == 'alt':
                for l in e.extra:
                    for x in self.direct(l):
                        yield x
            else:
                yield e

    def next(self):
        """[(iterator, element)] of the steps this pass makes."""
        return [(e.args[0], e.args[1]) for e in self.direct() if e.kind == 'none' and e.name == 'next']


def must(evs, pred):
    """Does an event with pred happen on every way through evs?"""
    return any(pred(e) or e.kind == 'alt' and e.extra and all(must(l, pred) for l in e.extra) for e in evs)


class Loops:
    def __init__(self, paths):
        self.recs = {}
        for p in paths:
            self.walk(p.events)

    def walk(self, evs):
        for e in evs:
            if e.kind == 'loop':
                rec = e.extra[0]
                if id(rec) not in self.recs:
                    self.recs[id(rec)] = rec
                    rec.passes = [Pass(rec, k, k2, es, b.facts) for k, k2, es, b in rec.trans]
                    for k, k2, es, b in rec.trans:
                        self.walk(es)
            elif e.kind == 'alt':
                for l in e.extra:
                    self.walk(l)

    def __iter__(self):
        return iter(self.recs.values())


def closed_facts(f):
    return all(known_fact(k) for k in f)


def is_list(e, name=PWS):
    return e.kind == 'pw' and e.name == name


# ------------------------------------------------------------------- the order
def components(t):
    if t.op == 'tuple':
        return [y for x in t.a[0] for y in components(x)]
    if t.op in ('item', 'elt'):
        return components(t.a[0])
    return [t]


def ends(t, field, key):
    """Is t the field of the key, such as key.id.name?"""
    x = t
    if x.op != 'f' or x.a[1] != field:
        return False
    while x is not key:
        if x.op in ('f', 'vf'):
            x = x.a[0]
        else:
            return False
    return True


def sorts(key, fields):
    """Does sorting by this key put things in the order of the fields?"""
    if key is None or key.op != 'key' or key.a[0] == '?' or not key.a[1]:
        return None
    res = []
    for t in key.a[1]:
        if key.a[0] == 'by':
            cs = components(t)
            ok = len(cs) >= len(fields) and all(ends(c, f, KEYS[0]) for c, f in zip(cs, fields))
            res.append(True if ok else False if L.closed(t) else None)
        else:
            res.append(compares(t, fields))
    return False if False in res else None if None in res else True


def compares(t, fields):
    if t.op == 'call' and t.a[0].split('::')[-1] in ('cmp',) and len(t.a[1]) == 2:
        a, b = t.a[1]
        ca, cb = components(a), components(b)
        n = len(fields)
        if len(ca) >= n and len(cb) >= n and all(
                ends(x, f, KEYS[0]) and ends(y, f, KEYS[1]) for x, y, f in zip(ca, cb, fields)):
            return True
        return False if L.closed(a) and L.closed(b) else None
    return None


def order(E, src, fields, seen=()):
    """Are the elements of this sequence in the order of the fields?
    None: not understood."""
    op = src.op
    if op == 'it':
        if any(k in ('flat_map', 'flatten') for k, _ in src.a[1]):
            return None
        return order(E, src.a[0], fields, seen)
    if op == 'sorted':
        return sorts(src.a[1], fields)
    if op == 'dedup' or op in ('skip', 'take', 'stepby'):
        return order(E, src.a[0], fields, seen)
    if op == 'rev':
        k = order(E, src.a[0], fields, seen)
        return False if k else None if k is None else unsorted(src.a[0])
    if op == 'choice':
        ks = {order(E, x, fields, seen) for x in src.a[0]}
        return False if False in ks else None if None in ks else True
    if op == 'phi' and collection(E, src) and src not in seen:
        ks = set()
        for v, f, rec in E.phiup[src]:
            if v is src:
                continue
            ps = parts(v)
            if not ps or ps[0] is not src or len(ps) != 2 or ps[1].op not in ('item', 'elt'):
                ks.add(False if len(ps) == 2 and ps[1] is src else None)
                continue
            its = [it for it, x in steps(rec, f) if same_element(x, ps[1].a[0])]
            ks |= {order(E, it, fields, seen + (src,)) for it in its} or {None}
        return False if False in ks else None if None in ks else True
    if unsorted(src) is False:
        return False
    return None


def unsorted(src):
    """False: what the storage lists, in the order of the storage."""
    while src.op in ('it', 'rev', 'dedup'):
        src = src.a[0]
    for x in parts(src):
        if x.op == 'call' and x.a[0] in (SITES, PWS):
            return False
    return None


def same_element(x, y):
    a, b = site_in(x), site_in(y)
    return bare(x) is bare(y) or a is not None and a is b


def steps(rec, facts):
    """The steps of the pass that ends with these facts."""
    r = []
    for k, k2, evs, b in rec.trans:
        if b.facts is facts:
            r += Pass(rec, k, k2, evs, facts).next()
    return r


def stages(E, src, seen=()):
    """The sequences that src is made of, last one first."""
    out = [src]
    if src.op in ('it', 'sorted', 'dedup', 'rev', 'skip', 'take', 'stepby'):
        out += stages(E, src.a[0], seen)
    elif src.op == 'phi' and collection(E, src) and src not in seen:
        for v, f, rec in E.phiup[src]:
            if v is src:
                continue
            ps = parts(v)
            for it, x in steps(rec, f):
                if len(ps) == 2 and ps[1].op in ('item', 'elt') and same_element(x, ps[1].a[0]):
                    for y in stages(E, it, seen + (src,)):
                        if y not in out:
                            out.append(y)
    return out


# ------------------------------------------------------------------------- C31
HEAD = re.compile(r'\bfor\b')


def named(t, x):
    """Does the text contain the name of x?"""
    return any(y is x or y.op in ('disp', 'item', 'elt') and y.a[0] is x for y in parts(t))


def site_of(t):
    """The site whose name a header shows."""
    for y in parts(t):
        y = y.a[0] if y.op in ('disp', 'item', 'elt') else y
        if y.op == 'f' and y.a[1] == 'name' and find(y, lambda z: z.op == 'call' and z.a[0] == SITES) and \
                not find(y, lambda z: z.op == 'call' and z.a[0] == PWS):
            return y
    return None


def is_out(e):
    return e.kind == 'print' and e.name == 'io::_print'


def is_header(e):
    if not is_out(e):
        return False
    ps = parts(e.args[0])
    return site_of(e.args[0]) is not None and ps[0].op == 'str' and \
        bool(re.match(r'\s*Passwords', ps[0].a[0]))


def is_nothing(e):
    t = e.args[0] if is_out(e) else None
    return t is not None and t.op == 'str' and bool(re.match(r'\s*No (matching )?passwords', t.a[0], re.I))


def entry_of(t):
    """The listed password whose name or revision t is."""
    x = t
    if x.op == 'f' and x.a[1] in ('name', 'revision'):
        x = x.a[0]
        if x.op == 'f' and x.a[1] == 'id':
            x = x.a[0]
        while x.op == 'vf':
            x = x.a[0]
        if find(x, lambda z: z.op == 'call' and z.a[0] == PWS):
            return x
    return None


def fields_of(e, name):
    """The listed passwords of which this output shows the field."""
    if not is_out(e):
        return []
    r = []
    for y in parts(e.args[0]):
        y = y.a[0] if y.op in ('disp', 'item', 'elt') else y
        if y.op == 'f' and y.a[1] == name and entry_of(y) is not None:
            r.append(y)
    return r


def empty_list(f, site=None):
    """Do the facts know whether the list of passwords of the site is empty?"""
    for k, y in f.items():
        t = k[1] if isinstance(k, tuple) else k
        v = y if not isinstance(k, tuple) and k.op == 'empty' and y in (True, False) else None
        if isinstance(k, tuple) and y in ('None', 'Some'):
            v = y == 'None'
        if v is None:
            continue
        g = t.a[0] if t.op == 'empty' else t
        while g.op in ('sorted', 'it', 'rev', 'dedup') or g.op == 'call' and g.a[1] and \
                g.a[0].split('::')[-1] in ('peek', 'first', 'next'):
            g = g.a[0] if g.op != 'call' else g.a[1][0]
        if g.op == 'call' and g.a[0] == PWS and (site is None or bare(g.a[1][1]) is bare(site)):
            return v
    return None


def c31(prog, rep):
    c = Cli(prog, rep)
    paths = [p for p in c.paths('List') if p.kind == 'ret']
    E = paths[0].E
    loops = Loops(paths)
    heads = [r for r in loops if any(any(is_header(e) for e in p.direct()) for p in r.passes)]
    lists = [r for r in loops if any(any(fields_of(e, 'name') for e in p.direct()) for p in r.passes)]
    rep.ob('sites are listed', 'List', bool(heads), 'no listing of sites found')
    rep.ob('passwords are listed', 'List', bool(lists), 'no listing of passwords found')
    for r in heads:
        site_loop(c, rep, E, r)
    for r in lists:
        entry_loop(c, rep, E, r)
    sources(c, rep, E, loops, heads)
    to_the_end(c, rep, paths, loops)
    nothing_found(c, rep, E, paths, heads)
    aliases(c, rep, E, loops, heads)
    stored_names(c, rep)
    matching(prog, rep)


def stored_names(c, rep):
    """A lookup takes a www. off the name it is given. The names of sites that are stored
    went through that: looking one up again must not take off another one."""
    R = 'stored site names are looked up as they are'
    for p, e, f in events(c.paths('List'), 'pw'):
        if e.name not in BY_SITE or len(e.args) < 2:
            continue
        s = e.args[1]
        if not find(s, lambda z: z.op == 'call' and z.a[0] == SITES):
            continue
        rep.want(R, 'List', lookup(s) is not None, s, '%s takes the www. off the stored name %s' % (
            e.name, show(s, 3)), e.span)
    rep.floor(R, 1)


BY_SITE = tuple('Passwords::' + m for m in (
    'list', 'get', 'has', 'get_notes', 'set_notes', 'remove', 'get_alias', 'set_generated', 'set_stored'))


def site_in(x):
    """The site in an element of a list of sites, perhaps with other things."""
    xs = x.a[0] if x.op == 'tuple' else [x]
    xs = [bare(y.a[0] if y.op in ('item', 'elt') else y) for y in xs]
    xs = [y for y in xs if find(y, lambda z: z.op == 'call' and z.a[0] == SITES) and
          not find(y, lambda z: z.op == 'call' and z.a[0] == PWS)]
    return xs[0] if len(xs) == 1 else None


def site_loop(c, rep, E, rec):
    R, R2 = 'sites come in the order of their names', 'no site is left out'
    for p in rec.passes:
        shown = [site_of(e.args[0]) for e in p.direct() if is_header(e)]
        its = p.next()
        mine = [(it, x) for it, x in its if not shown or any(bare(s) is site_in(x) for s in shown)]
        if not mine:
            rep.ob(R, 'List', None, 'a site that does not come from the iteration')
            continue
        it, x = mine[0]
        x = site_in(x)
        if x is None:
            rep.ob(R, 'List', None, 'a site that does not come from the iteration')
            continue
        rep.ob(R, 'List', order(E, it, ('name',)), 'sites are listed in another order: ' + show(it, 4))
        name = mk('f', x, 'name')
        if must(p.evs, is_header):
            rep.ob('a site is listed once', 'List', len(shown) == 1, 'a site is listed twice')
            ok = empty_list(p.facts, name) is False
            rep.ob('only sites with passwords are listed', 'List', ok or (None if not closed_facts(p.facts) else False),
                   'a site without passwords is listed')
            # its passwords follow
            inner = [e for e in p.evs if e.kind == 'loop' and any(
                any(fields_of(x2, 'name') for x2 in Pass(e.extra[0], *t[:3], None).direct())
                for t in e.extra[0].trans)]
            rep.ob('the passwords of a site follow', 'List', bool(inner) or None, 'the passwords are not listed')
        elif shown:
            rep.ob(R2, 'List', None, 'some site may be listed')
        else:
            k = empty_list(p.facts, name)
            if k is None and variant(p.facts, mk('f', x, 'alias')) == 'Some':
                k = True
            rep.ob(R2, 'List', k is True or (None if not closed_facts(p.facts) else False),
                   'a site that has passwords is left out')


def to_the_end(c, rep, paths, loops):
    """Loops over sites and passwords are not left early."""
    R = 'listing goes on to the end'

    def check(evs):
        for i, e in enumerate(evs):
            if e.kind == 'alt':
                for l in e.extra:
                    check(l)
            if e.kind != 'loop':
                continue
            its = {it.a[0] for p in getattr(e.extra[0], 'passes', ()) for it, x in p.next() if find(
                it, lambda z: z.op == 'call' and z.a[0] in (SITES, PWS) or z.op == 'phi')}
            if not its:
                continue
            ends = [x for x in evs[i + 1:] if x.kind == 'none' and x.name == 'exhausted']
            rep.ob(R, 'List', any(x.args[0].a[0] in its for x in ends), 'the loop over %s may be left early'
                   % show(sorted(its, key=lambda t: t.id)[0], 3))
    for r in loops:
        for p in r.passes:
            check(p.evs)
    for p in paths:
        if any(oc == 'Ok' for oc, f in c.outcomes(p)):
            check(p.events)


def entry_loop(c, rep, E, rec):
    R, R2 = 'passwords come in the order of name and revision', 'no password is left out'
    for p in rec.passes:
        its = [(it, x) for it, x in p.next() if find(x, lambda z: z.op == 'call' and z.a[0] == PWS)]
        if not its:
            rep.ob(R, 'List', None, 'a password that does not come from the iteration')
            continue
        it, x = its[0]
        rep.ob(R, 'List', order(E, it, ('name', 'revision')), 'passwords are listed in another order: ' + show(it, 4))
        und = None if not closed_facts(p.facts) else False

        def shows(field):
            return lambda e: any(entry_of(y) is x for y in fields_of(e, field))
        rep.ob(R2, 'List', must(p.evs, shows('name')) or und, 'a password is left out')
        wrong = [y for e in p.direct() for n in ('name', 'revision') for y in fields_of(e, n) if entry_of(y) is not x]
        rep.ob(R2, 'List', not wrong, 'another password is listed')
        if not must(p.evs, shows('revision')):
            k = any(v is True and not isinstance(t, tuple) and t.op == 'empty' and
                    t.a[0].op == 'f' and t.a[0].a[1] == 'revision' and entry_of(t.a[0]) is x
                    for t, v in p.facts.items())
            rep.ob('revisions are shown', 'List', k or und, 'the revision of a password is not shown')
        # all of the list
        for s in stages(E, it):
            if s.op in ('skip', 'take', 'stepby', 'dedup'):
                rep.ob(R2, 'List', False, 'some passwords are left out: ' + show(s, 4))
            if s.op == 'it' and any(k in ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while')
                                    for k, _ in s.a[1]):
                rep.ob(R2, 'List', None, 'some passwords are left out: ' + show(s, 4))


def sources(c, rep, E, loops, heads):
    """Where the sites come from: everything that matches and what it is an alias of."""
    R = 'matching sites and the sites they are aliases of are listed'
    R2 = 'a site is listed once'
    for rec in heads:
        for it in {it for p in rec.passes for it, x in p.next() if find(
                it, lambda z: z.op == 'call' and z.a[0] == SITES or z.op == 'phi')}:
            st = stages(E, it)
            for s in st:
                if s.op in ('skip', 'take', 'stepby'):
                    rep.ob(R, 'List', False, 'some sites are left out: ' + show(s, 4))
            ks = [kept(c, rep, E, s) for s in st if s.op == 'phi' and s.a[2] is EMPTY]
            # lists that a loop adds to in place
            grown = [s for s in st if s.op == 'phi' and s.a[2] is not EMPTY]
            ks.append(all(variant(p.facts, mk('f', x, 'alias')) == 'None' for p in rec.passes
                          for it2, y in p.next()[:1] for x in [site_in(y)] if x is not None and
                          any(is_header(e) for e in p.direct())))
            rep.ob('aliases are not listed as sites', 'List', True if True in ks else None if None in ks or any(
                s.op == 'it' and s.a[1] for s in st) else False, 'an alias is listed like a site')
            base = [s for s in st if s.op not in ('it', 'sorted', 'dedup', 'rev', 'phi', 'skip', 'take')]
            dd = [s for s in st if s.op == 'dedup']
            for b in base:
                ps = [y.a[0] if y.op == 'chain' else y for y in parts(b)]
                call = [y for y in ps if y.op == 'call' and y.a[0] == SITES]
                more = [y for y in ps if y not in call]
                und = None if grown or more and not all(collection(E, y) for y in more) else False
                rep.ob(R, 'List', bool(call) or und, 'the sites listed are ' + show(b, 4))
                add = [y for y in more if y.op == 'phi' and additions(c, rep, E, loops, y)]
                rep.ob(R, 'List', bool(add) or und, 'the sites that aliases stand for are not listed')
                if add:
                    ok = any(once(E, s) for s in dd)
                    rep.ob(R2, 'List', ok or (None if any(s.op not in (
                        'it', 'sorted', 'dedup', 'rev', 'phi', 'cat') for s in st) or len(st) < 2 else False),
                        'sites may be listed twice')


def once(E, d):
    """Does dedup really remove all sites of the same name?"""
    key = d.a[1]
    if key.op != 'key' or len(key.a[1]) != 1:
        return None
    t = key.a[1][0]
    ok = key.a[0] == 'by' and (t is KEYS[0] or ends(t, 'name', KEYS[0])) or \
        key.a[0] == 'cmp' and t.op == 'eq' and {ends(x, 'name', k) for x, k in zip(t.a, KEYS)} | {
            ends(x, 'name', k) for x, k in zip(t.a, KEYS[::-1])} >= {True}
    return ok and order(E, d.a[0], ('name',)) is True


def kept(c, rep, E, B):
    """Sites taken over into another list: all but the aliases."""
    R = 'matching sites and the sites they are aliases of are listed'
    recs = {id(r): r for v, f, r in E.phiup[B] if v is not B}
    res = True
    for rec in recs.values():
        for p in getattr(rec, 'passes', [Pass(rec, *t[:3], t[3].facts) for t in rec.trans]):
            xs = [x for it, x in p.next() if find(x, lambda z: z.op == 'call' and z.a[0] == SITES)]
            if not xs:
                continue
            x = site_in(xs[0])
            if x is None:
                res = None
                continue
            took = [v for v, f, r in E.phiup[B] if f is p.facts and r is rec]
            und = None if not closed_facts(p.facts) else False
            a = variant(p.facts, mk('f', x, 'alias'))
            if not took:
                rep.ob(R, 'List', None, 'what a pass keeps is unknown')
            elif all(v is B for v in took):
                rep.ob(R, 'List', a == 'Some' or und, 'a site that is no alias is left out')
            elif a != 'None':
                res = None if res is None or und is None else False
    return res


def additions(c, rep, E, loops, y):
    """The list of the sites that matching sites are aliases of."""
    R = 'matching sites and the sites they are aliases of are listed'
    if not collection(E, y):
        return None
    n = 0
    recs = {id(r): r for v, f, r in E.phiup[y] if v is not y}
    for rec in recs.values():
        for p in [Pass(rec, *t[:3], t[3].facts) for t in rec.trans]:
            xs = [(it, x) for it, x in p.next() if find(x, lambda z: z.op == 'call' and z.a[0] == SITES)]
            if not xs:
                continue
            it, x = xs[0]
            und = None if not closed_facts(p.facts) else False
            if x.op == 'adt':
                g = find(x, lambda z: z.op == 'elem' and z.a[0].op == 'call' and z.a[0].a[0] == SITES)
                x = g[0] if g else x
                for k in p.facts:
                    t = k[1] if isinstance(k, tuple) else k
                    if x.id in deps(t) and not (isinstance(k, tuple) and t is mk('f', x, 'alias')):
                        rep.ob(R, 'List', und, 'a site that an alias stands for is left out')
            al = mk('f', x, 'alias')
            took = [v for v, f, r in E.phiup[y] if f is p.facts and r is rec and v is not y]
            a = variant(p.facts, al)
            if not took:
                rep.ob(R, 'List', a == 'None' or und, 'a site that an alias stands for is left out')
                continue
            for v in took:
                ps = parts(v)
                it2 = ps[1].a[0] if len(ps) == 2 and ps[0] is y and ps[1].op in ('item', 'elt') else None
                if it2 is None:
                    rep.want(R, 'List', False, v, 'the sites that aliases stand for are')
                    continue
                n += 1
                rep.want(R, 'List', field(it2, 'name') is vfield(al, 'Some'), it2,
                         'another site than the one the alias stands for is listed')
                k = field(it2, 'alias')
                rep.want('aliases are not listed as sites', 'List', k is not None and k.op == 'adt' and
                         k.a[1] == 'None', it2, 'the site an alias stands for is not listed')
    return n > 0


def nothing_found(c, rep, E, paths, heads):
    R = 'nothing found is said exactly if nothing was listed'
    ids = {id(r): r for r in heads}
    n = 0
    for p in paths:
        said = must(p.events, is_nothing)
        maybe = not said and any(is_nothing(e) for e, f, l, m in p.walk())
        if maybe:
            rep.ob(R, 'List', None, 'it may be said')
            continue
        oks = [f for oc, f in c.outcomes(p) if oc == 'Ok']
        if not oks and not said:
            continue
        ls = [e for e in p.events if e.kind == 'loop' and id(e.extra[0]) in ids]
        got = {False}
        vague = False
        for e in ls:
            got = {a or b for a in got for b in listed(*e.extra)}
            vague = vague or any(find(k[1] if isinstance(k, tuple) else k, lambda z: z.op == 'phi' and
                                      z in E.phiup and any(r is e.extra[0] for v, g, r in E.phiup[z]))
                                 for k in p.facts if k not in e.facts and not (
                                     isinstance(k, tuple) and k[1].op == 'call' and
                                     k[1].a[0].startswith('Passwords::')))
        n += 1
        if said:
            rep.ob(R, 'List', True not in got or (None if vague else False),
                   '"No matching passwords" although some were listed')
        else:
            rep.ob(R, 'List', False not in got or (None if vague else False),
                   'nothing was listed and nothing is said')
    rep.ob(R, 'List', n > 1, 'list never says that it found nothing')


def listed(rec, key):
    """Has a header been shown when the loop is left in this state?"""
    seen, todo = set(), [(rec.entry, False)]
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        for p in rec.passes:
            if p.k == s[0]:
                todo.append((p.k2, s[1] or any(is_header(e) for e in p.direct())))
    r = {b for k, b in seen if k == key}
    return r or {True, False}


# --------------------------------------------------------------------- aliases
def aliases(c, rep, E, loops, heads):
    R = 'aliases are listed in order'
    maps = set()
    n = 0
    for rec in heads:
        for p in rec.passes:
            hs = [e for e in p.direct() if is_header(e)]
            if not hs:
                continue
            name = site_of(hs[0].args[0])
            verbose = truth(p.facts, c.opt('List', 'verbose'))
            lines = [e for e in p.direct() if is_out(e) and parts(e.args[0])[0].op == 'str' and
                     re.match(r'\s*Alias', parts(e.args[0])[0].a[0])]
            for e in lines:
                n += 1
                rep.ob(R, 'List', verbose is True, 'aliases are shown without --verbose')
                j = first_join(e.args[0])
                if j is None:
                    rep.ob(R, 'List', None, 'aliases are shown as ' + show(e.args[0], 4))
                    continue
                g = j.a[1][0] if j.op == 'call' else j.a[0]
                while g.op in ('it', 'sorted', 'vf'):
                    g = g.a[0]
                if g.op == 'call' and g.a[0] == 'HashMap::get':
                    maps.add(g.a[1][0])
                    rep.want(R, 'List', g.a[1][1] is name, g.a[1][1], 'the aliases of another site are shown')
                else:
                    rep.ob(R, 'List', None, 'aliases are shown as ' + show(e.args[0], 4))
            if verbose is True and not lines:
                known = [v for k, v in p.facts.items() if isinstance(k, tuple) and k[1].op == 'call' and
                         k[1].a[0] == 'HashMap::get' and k[1].a[1][1] is name]
                rep.ob(R, 'List', 'None' in known or (None if not closed_facts(p.facts) else False),
                       'aliases are not shown')
    rep.ob(R, 'List', n > 0, 'aliases are not shown')
    for m in maps:
        filled(c, rep, E, m)


def first_join(t):
    g = [z for y in parts(t) for z in find(y, lambda z: z.op == 'join')]
    return g[0] if g else None


def filled(c, rep, E, m):
    """The map from sites to their aliases."""
    R = 'aliases are listed in order'
    if m.op != 'phi' or m.a[2].op != 'map0':
        rep.ob(R, 'List', None, 'the aliases are in ' + show(m, 4))
        return
    recs = {id(r): r for v, f, r in E.phiup.get(m, ())}
    n = 0
    for rec in recs.values():
        for p in [Pass(rec, *t[:3], t[3].facts) for t in rec.trans]:
            xs = [(it, x) for it, x in p.next() if find(x, lambda z: z.op == 'call' and z.a[0] == SITES)]
            if not xs:
                continue
            it, x = xs[0]
            al = mk('f', x, 'alias')
            ups = [v for v, f, r in E.phiup[m] if f is p.facts and r is rec]
            a = variant(p.facts, al)
            und = None if not closed_facts(p.facts) else False
            for v in ups or [m]:
                if v is m:
                    rep.ob('no alias is left out', 'List', a == 'None' or und, 'an alias is left out')
                    continue
                n += 1
                if v.op != 'minsert':
                    rep.ob(R, 'List', None, 'the aliases are ' + show(v, 4))
                    continue
                rep.want(R, 'List', v.a[1] is vfield(al, 'Some'), v.a[1], 'an alias is shown with another site')
                ps = parts(v.a[2])
                last = ps[-1].a[0] if ps and ps[-1].op in ('item', 'elt') else None
                rep.want('no alias is left out', 'List', last is not None and bare(last) is bare(x), v.a[2],
                         'an alias is not added at the end')
                got = [y for y in ps[:-1] if y.op == 'vf' and y.a[0].op == 'call' and
                       y.a[0].a[0] == 'HashMap::get' and y.a[0].a[1][1] is v.a[1]]
                rep.want('no alias is left out', 'List', bool(got) or not ps[:-1] and any(
                    isinstance(k, tuple) and k[1].op == 'call' and k[1].a[0] == 'HashMap::get' and y == 'None' and
                    k[1].a[1][1] is v.a[1] for k, y in p.facts.items()), v.a[2], 'other aliases are forgotten')
                rep.ob(R, 'List', order(E, it, ('name',)), 'aliases come in another order: ' + show(it, 4))
    rep.ob(R, 'List', n > 0 or None, 'no aliases are collected')


# ------------------------------------------------------- what the library lists
def matching(prog, rep):
    """list_sites and list yield exactly what matches the pattern."""
    from rules.store import World, elements
    w = World(prog, rep)
    w.need('list', 'list_sites')
    R = 'what matches the pattern is listed, and nothing else'
    for fn, pat in (('list_sites', arg(2)), ('list', arg(3))):
        got = []
        wm = None
        for p in w.paths(fn):
            for x, f, q in elements(w, p):
                pats = {k.a[1][0] for k in f if not isinstance(k, tuple) and k.op == 'call' and
                        k.a[0] == 'WildMatch::matches' and x.id in deps(k.a[1][1])}
                for y in pats:
                    rep.want(R, fn, y.op == 'call' and y.a[0] == 'WildMatch::new' and y.a[1][0] is pat, y,
                             'another pattern is matched')
                al = field(x, 'alias')
                tests = {}
                rest = []
                for k, v in f.items():
                    t = k[1] if isinstance(k, tuple) else k
                    if x.id not in deps(t) and t is not x:
                        continue
                    if isinstance(k, tuple) and (t is al or t is x) and fn == 'list_sites':
                        tests['alias'] = v
                    elif isinstance(k, tuple) and t is x:
                        tests['kind'] = v
                    elif t.op == 'call' and t.a[0] == 'WildMatch::matches':
                        z = t.a[1][1]
                        if fn == 'list_sites' and z is vfield(al, 'Some'):
                            tests['by alias'] = v
                        elif z.op == 'f' and z.a[1] == 'name' and (z.a[0] is x or fn == 'list' and entry_root(z) is x):
                            tests['by name'] = v
                        else:
                            rest.append(t)
                    else:
                        rest.append(t)
                for t in rest:
                    rep.want(R, fn, False, t, 'what is listed depends on ' + show(t, 4))
                ok = tests.get('by name') is True or tests.get('by alias') is True
                rep.ob(R, fn, ok or (None if rest and not all(L.closed(t) for t in rest) else False),
                       'something that does not match is listed')
                got.append(tests)
        readable(w, rep, fn)
        if fn == 'list_sites':
            want = [{'alias': a, 'by alias': m, 'by name': n} for a, m in (
                ('None', False), ('Some', True), ('Some', False)) for n in (True, False) if m or n]
        else:
            want = [{'kind': k, 'by name': True} for k in ('Stored', 'Generated')]
        for c in want:
            ok = any(all(t.get(k, v) == v or k == 'by alias' and c.get('alias') == 'None' for k, v in c.items())
                     for t in got)
            rep.ob(R, fn, ok, 'something that matches is not listed: ' + ', '.join(
                '%s %s' % kv for kv in sorted(c.items())))
    rep.floor(R, 2)


def swap(t, a, b, memo=None):
    """t with b for a."""
    memo = {a: b} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(swap(x, a, b, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t not in memo:
        memo[t] = mk(t.op, *[swap(x, a, b, memo) for x in t.a])
    return memo[t]


def readable(w, rep, fn):
    """Every entry that can be read on its own is looked at by the listing."""
    from rules.store import elements, decrypts, mentions_keys, PARTIAL
    R = 'every readable entry is looked at'
    hole = mk('hole')
    alone = set()
    for p in w.paths('get_notes' if w.prog.api().get('get_notes') else 'get'):
        keys = {t.a[1][1] for k in p.facts for t in [k[1] if isinstance(k, tuple) else k]
                for t in find(t, lambda z: z.op == 'call' and z.a[0] == 'StorageIO::get')}
        for k, v in p.facts.items():
            for key in keys:
                t = k[1] if isinstance(k, tuple) else k
                if find(t, lambda z: z is key):
                    alone.add((isinstance(k, tuple), swap(t, key, hole), v))
    for p in w.paths(fn):
        if p.kind != 'ret':
            continue
        cut = partial(p.E.read(p.st, p.val), PARTIAL)
        rep.ob(R, fn, not cut, 'the listing ends early or leaves out entries: %s' % cut)
        for x, f, q in elements(w, p):
            key = None
            for d in decrypts(x):
                s = L.decrypt_source(d)
                if s is not None and mentions_keys(s[1]):
                    key = s[1]
            if key is None:
                continue                # reported by C12
            here = {y.id for y in subterms(x)}
            for k, v in f.items():
                t = k[1] if isinstance(k, tuple) else k
                if not find(t, lambda z: z is key) or find(t, lambda z: z is x) or \
                        isinstance(k, tuple) and t.id in here:
                    continue
                if t.op == 'call' and t.a[0] in ('str::starts_with', 'str::find', 'str::contains',
                                                 'str::strip_prefix', 'str::split_once'):
                    continue            # which entries: C12
                ok = (isinstance(k, tuple), swap(t, key, hole), v) in alone
                rep.want(R, fn, ok, t, 'an entry is left out if not ' + show(t, 4) if v is True else
                         'an entry is left out because of ' + show(t, 4))
    rep.floor(R, 1)


def partial(v, kinds):
    while True:
        if v.op == 'it':
            for k, f in v.a[1]:
                if k in kinds:
                    return k
            v = v.a[0]
        elif v.op in ('take', 'skip', 'stepby', 'slice', 'dedup'):
            return v.op
        elif v.op in ('rev', 'sorted'):
            v = v.a[0]
        else:
            return None


def entry_root(z):
    while z.op in ('f', 'vf'):
        z = z.a[0]
        if z.op == 'vf' and z.a[1] in ('Stored', 'Generated'):
            return z.a[0]
        if z.op == 'vf' and z.a[1] == 'Ok':
            return z
    return z


RULES = {'C31': c31}
