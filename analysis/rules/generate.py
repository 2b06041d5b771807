"""C10: generated passwords use exactly the allowed character sets."""
import lib as L
from terms import *
from rules.common import World, alts, run_events
from rules.recovery import const_bytes
import rules.panics as P

AMBIGUOUS = b'IliOo01"\'\\'
CLASS = {'Lower': lambda c: 97 <= c <= 122, 'Upper': lambda c: 65 <= c <= 90, 'Digit': lambda c: 48 <= c <= 57,
         'Symbol': lambda c: 33 <= c <= 126 and not chr(c).isalnum()}


def variant(t):
    """The name of a constant character type."""
    if t.op == 'adt' and not t.a[3]:
        return t.a[1]
    if t.op == 'const' and isinstance(t.a[1], str):
        return t.a[1].split('::')[-1]
    return None


def uncast(t):
    while t.op == 'cast':
        t = t.a[2]
    return t


def membership(facts):
    """[(set, variant, True|False)] known in the facts."""
    r = []
    for k, v in facts.items():
        if not isinstance(k, tuple) and k.op == 'setin' and v in (True, False):
            n = variant(k.a[1])
            if n:
                r.append((P.plain_set(k.a[0]), n, v))
    return r


def c10(prog, rep):
    w = World(prog, rep)
    w.need('get')
    done = set()
    n = 0
    for p in w.paths('get'):
        for oc, f in w.outcomes(p):
            if oc != 'Ok':
                continue
            for x in alts(p.val):
                v = vfield(x, 'Ok')
                if not any(t.op == 'scrypt' for t in L.value_terms(v, p.E)):
                    continue
                n += 1
                Generated(w, rep, p, f, v, done).check()
    rep.ob('there are generated passwords', 'get', n > 0, 'no password is derived')
    if rep.undecided:
        return
    for r in ('characters come from an enabled set', 'a set has its own characters',
              'every set is represented', 'every character can be chosen', 'one character per position'):
        rep.floor(r, 1)
    rep.floor('all four sets exist', 1)


class Generated:
    def __init__(self, w, rep, p, f, v, done):
        self.w, self.rep, self.p, self.f, self.v, self.E, self.done = w, rep, p, f, v, p.E, done

    def check(self):
        rep, E, q = self.rep, self.E, self.v
        R1 = 'one character per position'
        if q.op != 'phi' or not E.phiup.get(q):
            rep.want(R1, 'get', False, q, 'the generated password is not collected position by position')
            return
        if q.id in self.done:
            self.complete(q)
            return
        self.done.add(q.id)
        rep.want(R1, 'get', q.a[2] is EMPTY or q.a[2] is string(''), q.a[2],
                 'the generated password starts with something else than the characters chosen')
        self.draws = [t for t in L.value_terms(q, E) if t.op == 'scrypt']
        self.found = {}
        self.picks = {}
        self.counts = {}
        empty_positions = False
        skipped = []
        self.over = set()
        for v, f, rec in E.phiup[q]:
            ps = parts(v)
            if v is q:
                empty_positions = True
                skipped.append((f, rec))
                continue
            if not ps or ps[0] is not q:
                rep.want(R1, 'get', False, v, 'a position of the generated password replaces the earlier ones')
                continue
            new = ps[1:]
            if len(new) != 1 or new[0].op not in ('item', 'elt'):
                rep.want(R1, 'get', False, v, 'a position of the generated password is not one character')
                continue
            rep.ob(R1, 'get', True)
            self.position(q, new[0].a[0], f, rec)
        # A position without a character is impossible if the choice is made from the
        # characters of the sets that are looked at, and of no others.
        for A, total in self.counts.items():
            for n in total:
                rep.ob(R1, 'get', n in self.picks[A] or not empty_positions,
                       'the choice can fall on the set %s, which no character is taken from' % n)
        for f, rec in skipped:
            evs = [e for k, k2, es, b in rec.trans if b.facts is f for e in es]
            ok = any(e.kind == 'loop' and id(e.extra[0]) in self.over for e in flat(evs))
            rep.ob(R1, 'get', ok or (None if not self.over else False),
                   'a position of the generated password can be left empty')
        if empty_positions and not self.counts:
            rep.ob(R1, 'get', None, 'a position may stay empty')
        self.tables()
        self.complete(q)

    # ------------------------------------------------------------- the positions
    def complete(self, q):
        """The loop is not left before all derived bytes are used, and it is about all of them."""
        rep, p = self.rep, self.p
        R = 'all positions are filled'
        recs = {id(r): r for v, f, r in self.E.phiup[q]}

        def step(e, facts, st):
            if e.kind == 'none' and e.name == 'exhausted' and self.whole(e.args[0]):
                return frozenset('done' if x == 'in' else x for x in st)
            return st

        def run(events, facts, st):
            for e in events:
                if e.kind == 'loop' and id(e.extra[0]) in recs:
                    st = frozenset({'in'})
                elif e.kind == 'alt':
                    n = frozenset()
                    for l in e.extra:
                        n |= run(l, facts, st)
                    st = n
                elif e.kind != 'loop':
                    st = step(e, facts, st)
            return st
        ends = run(p.events, p.facts, frozenset({'out'}))
        rep.ob(R, 'get', 'in' not in ends or (None if self.counted_out() else False),
               'the loop over the positions of a generated password can end early')

    def whole(self, it):
        """The iterator goes over all of the derived data."""
        src, chain, pos = it.a
        if any(k not in ('enumerate', 'map', 'cloned', 'copied', 'inspect', 'peekable', 'by_ref') for k, _ in chain):
            return False
        if src.op == 'range':
            return src.a[0] is integer(0) and any(src.a[1] is ln for C, ln in self.charset())
        if src.op == 'rev':
            src = src.a[0]
        return any(src is d for d in self.draws)

    def counted_out(self):
        """There is a loop that counts positions instead of going over the data: not followed."""
        return not any(t.op == 'elem' and any(find(t.a[0], lambda z: z is d) for d in self.draws)
                       for t in L.value_terms(self.v, self.E))

    def position(self, q, c, f, rec):
        rep = self.rep
        c = uncast(c)
        if c.op != 'idx':
            rep.ob('characters come from an enabled set', 'get', None, 'a character is ' + show(c, 5))
            return
        tab, j = c.a[0], uncast(c.a[1])
        t = const_bytes(tab)
        if t is None:
            self.pool(q, tab, j, f, rec)
            return
        ms = [(A, n) for A, n, x in membership(f) if x and self.own(n, t)]
        R = 'characters come from an enabled set'
        if not ms:
            rep.ob(R, 'get', False, 'characters are taken from %s without asking whether that set is enabled'
                   % show(tab, 3))
            return
        # the set asked last is the one of this position
        A, n = ms[-1]
        self.allowed(A, f)
        self.seen(q, A, n, f, rec)
        self.found.setdefault(n, set()).add(t)
        self.picks.setdefault(A, set()).add(n)
        self.choice(A, n, t, j, f)

    def own(self, n, t):
        """The table is meant for the set: most of its characters are of that class."""
        k = CLASS.get(n)
        return k is not None and sum(1 for c in t if k(c)) * 2 > len(t)

    def charset(self):
        r = []
        for d in self.draws:
            ln = uncast(d.a[3])
            x = self.w.record_with('GeneratedPassword', 'length', ln)
            if x is not None:
                r.append((self.w.rec.get('GeneratedPassword', 'charset', x), ln))
        return r

    def base(self, A):
        """'all' | ('missing', tracker) | None for the set a position chooses from."""
        for C, ln in self.charset():
            if A is P.plain_set(C):
                return 'all', C, ln
            if A.op == 'setsub' and P.plain_set(A.a[0]) is P.plain_set(C):
                return 'rest', C, ln
            if A.op == 'phi' and P.plain_set(A.a[2]) is P.plain_set(C):
                return 'rest', C, ln
        return None, None, None

    def allowed(self, A, f):
        R = 'characters come from an enabled set'
        rep = self.rep
        ok = any(P.within(self.E, A, C) for C, ln in self.charset())
        if not ok and A.op == 'phi':
            ok = any(self.shrinks(A, C) for C, ln in self.charset())
        rep.want(R, 'get', ok, A, 'characters are chosen from a set that is not a part of the one in the entry')

    def shrinks(self, A, C):
        if P.plain_set(A.a[2]) is not P.plain_set(C):
            return False
        for v, f, r in self.E.phiup.get(A, ()):
            x = P.plain_set(v)
            while x is not A:
                if x.op == 'set' and not x.a[1] or x.op == 'setsub':
                    x = P.plain_set(x.a[0])
                else:
                    return False
        return True

    # ------------------------------------------------- one of each enabled set
    def seen(self, q, A, n, f, rec):
        R = 'every set is represented'
        rep, E = self.rep, self.E
        kind, C, ln = self.base(A)
        if kind == 'rest':
            S = P.plain_set(A.a[1]) if A.op == 'setsub' else A
            ok = self.tracks(q, S, C)
            und = S.op == 'phi' and any(not L.closed(u[0]) for u in E.phiup.get(S, ()))
            rep.ob(R, 'get', ok or (None if und else False),
                     'what is kept as the sets seen so far is not the sets of the characters chosen: ' + show(S, 5))
            return
        if kind is None:
            rep.ob(R, 'get', None, 'choosing from ' + show(A, 5))
            return
        trackers = [s for s in self.sets(f) if self.tracks(q, s, C)]
        sizes = []
        for s in trackers:
            if P.plain_set(s.a[2]) is P.plain_set(C):
                sizes.append(mk('setlen', s))
            else:
                sizes.append(sub(mk('setlen', P.plain_set(C)), mk('setlen', s)))
                sizes.append(mk('setlen', mk('setsub', P.plain_set(C), s)))
                sizes.append(mk('setlen', mk('setsub', C, s)))
                sizes.append(sub(mk('setlen', C), mk('setlen', s)))
        for rest in self.remaining(q, ln, f):
            for m in sizes:
                if prove(f, sub(sub(rest, m), integer(1))):
                    rep.ob(R, 'get', True)
                    return
        und = any(not closed_fact(k) for k in f if touches(k, trackers))
        rep.ob(R, 'get', None if und else False,
               'a position is filled from all enabled sets even if there may be no position left for '
               'the sets that did not occur so far')

    def sets(self, f):
        r = []
        for k in f:
            t = k[1] if isinstance(k, tuple) else k
            for y in subterms(t):
                if y.op == 'phi' and y not in r and self.E.phiup.get(y) and \
                        any(P.plain_set(v).op in ('set', 'setsub') for v, ff, rr in self.E.phiup[y]):
                    r.append(y)
        return r

    def tracks(self, q, S, C):
        """S holds the sets of the characters chosen so far (or, starting with C, the others)."""
        E = self.E
        S = P.plain_set(S)
        if S.op != 'phi' or not E.phiup.get(S):
            return False
        down = P.plain_set(S.a[2]) is P.plain_set(C)
        if not down and S.a[2].op != 'set0' and P.plain_set(S.a[2]).op != 'set0':
            return False
        by = {}
        for v, f, rec in E.phiup[q]:
            by.setdefault(id(f), [None, None])[0] = v
        for v, f, rec in E.phiup[S]:
            by.setdefault(id(f), [None, None])[1] = v
        for v, s in by.values():
            if v is None and s is None:
                continue
            if v is None or s is None:
                return False
            ps = parts(v)
            names = set()
            if v is not q:
                c = uncast(ps[1].a[0]) if len(ps) > 1 and ps[1].op in ('item', 'elt') else None
                t = const_bytes(c.a[0]) if c is not None and c.op == 'idx' else None
                if t is None:
                    return False
                names = {n for n in CLASS if self.own(n, t)}
            got = set()
            x = P.plain_set(s)
            while x is not S:
                if x.op != 'set':
                    return False
                for m in x.a[2 if down else 1]:
                    got.add(variant(m))
                if x.a[1 if down else 2]:
                    return False
                x = P.plain_set(x.a[0])
            if got != names:
                return False
        return True

    def remaining(self, q, ln, f):
        """Terms for the number of positions left, this one included."""
        r = [sub(ln, length(q))]
        for k in f:
            t = k[1] if isinstance(k, tuple) else k
            for y in subterms(t):
                if y.op == 'index' and any(find(y, lambda z: z is d) for d in self.draws):
                    r.append(sub(ln, y))
                elif y.op == 'elem' and y.a[0].op == 'range' and y.a[0].a[0] is integer(0):
                    r.append(sub(ln, y))
                elif y.op == 'phi' and self.E.phiup.get(y) and y.a[0] is q.a[0]:
                    ups = [u[0] for u in self.E.phiup[y]]
                    if y.a[2] is integer(0) and all(u is add(y, integer(1)) for u in ups):
                        r.append(sub(ln, y))
                    elif y.a[2] is ln and all(u is sub(y, integer(1)) for u in ups):
                        r.append(y)
        s = []
        for x in r:
            if x not in s:
                s.append(x)
        return s

    # ------------------------------------------------------ which one is chosen
    def choice(self, A, n, t, j, f):
        """The index runs over the characters of all allowed sets: it starts below their
        number, and each set passed over takes away exactly its size."""
        R = 'every character can be chosen'
        rep, E = self.rep, self.E
        if j.op != 'phi':
            rep.ob(R, 'get', None, 'the position in the table is ' + show(j, 4))
            return
        start = uncast(j.a[2])
        if start.op != 'rem':
            rep.want(R, 'get', False, start, 'the choice is not taken from the whole number of characters')
            return
        b, num = uncast(start.a[0]), uncast(start.a[1])
        ok = b.op in ('elem', 'idx') and any(b.a[0] is d or find(b.a[0], lambda z: z is d) and
                                             b.a[0].op != 'slice' for d in self.draws)
        rep.want(R, 'get', ok, b, 'the choice is not a byte of the derived data')
        self.inside(n, t, j)
        steps = {}
        for v, ff, rec in E.phiup.get(j, ()):
            d = sub(j, v)
            self.over.add(id(rec))
            ms = [(B, m) for B, m, x in membership(ff) if x]
            if d is integer(0):
                continue
            if d.op != 'int' or not ms:
                rep.want(R, 'get', False, v, 'passing over a set changes the position by something else '
                         'than the size of an allowed set')
                return
            B, m = ms[-1]
            if B is not A:
                continue
            steps.setdefault(m, set()).add(d.a[0])
            rep.ob(R, 'get', prove(ff, sub(j, d)) or None if self.vague(ff, j) else prove(ff, sub(j, d)),
                   'a set is passed over although the choice may fall on it (%s)' % m)
        total = self.total(num, A)
        if total is None:
            rep.ob(R, 'get', None, 'the number of characters is ' + show(num, 4))
            return
        rep.ob(R, 'get', total.get(n) == {len(t)},
               'the number of characters to choose from counts %s for the set %s of %d characters'
               % (sorted(total.get(n, {0})), n, len(t)))
        for m in set(steps) | set(total):
            if m in steps:
                rep.ob(R, 'get', total.get(m) == steps[m],
                       'passing over the set %s takes %s positions, it counts for %s'
                       % (m, sorted(steps[m]), sorted(total.get(m, {0}))))
        self.counts[A] = total

    def inside(self, n, t, j):
        """What is asked before a character is taken rules out all positions past the end."""
        last = sub(integer(len(t) - 1), j)
        for (fn, kind, span), (count, fails) in self.E.obligs.items():
            for what, ff, stack in fails:
                if what is not ge0(last):
                    continue
                asked = any(not isinstance(k, tuple) and k.op == 'ge0' and x and lin(k.a[0])[1].get(j, 0) < 0
                            for k, x in ff.items())
                self.rep.ob('the choice is in the table', 'get', None if self.vague(ff, j) or not asked else False,
                            'what is asked about the choice lets one past the end of the set %s through' % n, span)

    def vague(self, ff, j):
        return any(not closed_fact(k) for k in ff if touches(k, [j]))

    def total(self, num, A):
        """{set: numbers it counts for} of a sum over the allowed sets."""
        if num.op != 'phi' or num.a[2] is not integer(0):
            return None
        r = {}
        for v, ff, rec in self.E.phiup.get(num, ()):
            d = sub(v, num)
            ms = [(B, m) for B, m, x in membership(ff) if x]
            if d is integer(0):
                continue
            if d.op != 'int' or not ms:
                return None
            B, m = ms[-1]
            r.setdefault(m if B is A else m + ' of another selection', set()).add(d.a[0])
        return r

    def pool(self, q, tab, j, f, rec):
        """The characters of all allowed sets in one list."""
        rep, E = self.rep, self.E
        R = 'every character can be chosen'
        if tab.op != 'phi' or not E.phiup.get(tab):
            rep.ob('characters come from an enabled set', 'get', None, 'a table is ' + show(tab, 5))
            return
        ok = j.op == 'rem' and uncast(j.a[1]) is length(tab)
        rep.want(R, 'get', ok, j, 'the choice is not taken from the whole number of characters')
        rep.ob('every set is represented', 'get', None, 'a list of characters to choose from')

    # ---------------------------------------------------------------- the tables
    def tables(self):
        rep = self.rep
        R = 'a set has its own characters'
        used = {}
        for n, ts in sorted(self.found.items()):
            rep.ob(R, n, len(ts) == 1, 'the set %s is not the same everywhere' % n)
            for t in ts:
                rep.ob(R, n, bool(t) and all(CLASS[n](c) for c in t),
                       'the set %s has characters of another class: %s'
                       % (n, ''.join(chr(c) for c in t if not CLASS[n](c))))
                bad = [c for c in t if c in AMBIGUOUS]
                rep.ob(R, n, not bad, 'the set %s has a character that is easily confused or mangled: %s'
                       % (n, ''.join(map(chr, bad))))
                rep.ob(R, n, len(set(t)) == len(t), 'the set %s has a character twice' % n)
                for c in set(t):
                    o = used.setdefault(c, n)
                    rep.ob(R, n, o == n, 'the character %s is in the sets %s and %s' % (chr(c), o, n))
        if self.found:
            rep.ob('all four sets exist', 'get', set(self.found) == set(CLASS),
                   'there are no characters for %s' % ', '.join(sorted(set(CLASS) - set(self.found))))


def flat(evs):
    for e in evs:
        if e.kind == 'alt':
            for l in e.extra:
                yield from flat(l)
        else:
            yield e


def closed_fact(k):
    t = k[1] if isinstance(k, tuple) else k
    return L.closed(t)


def touches(k, ts):
    t = k[1] if isinstance(k, tuple) else k
    return any(x.id in deps(t) or x is t for x in ts)


RULES = {'C10': c10}
