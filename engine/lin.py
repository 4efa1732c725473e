"""Linear expressions over named integer quantities, and conjunctions of linear constraints (the numeric domain).

Entailment is decided by exact rational linear arithmetic (equality substitution + Fourier-Motzkin elimination)
with integer tightening of every constraint.  No solver is involved."""
from math import gcd
from functools import lru_cache

UMAX = (1 << 64) - 1


class Lin:
    """sum(coef * atom) + const.  Atoms are strings or tuples; tuples may contain Lin (and are substituted into)."""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t=(), c=0):
        self.t = t          # sorted tuple of (atom, coef)
        self.c = c
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __repr__(self):
        s = ''
        for a, k in self.t:
            n = astr(a)
            s += (f' + ' if k > 0 else ' - ') if s else ('-' if k < 0 else '')
            s += n if abs(k) == 1 else f'{abs(k)}*{n}'
        if self.c or not s:
            s += (f' {"+" if self.c >= 0 else "-"} {abs(self.c)}') if s else str(self.c)
        return s

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        if not o.t:
            return Lin(self.t, self.c + o.c)
        if not self.t:
            return Lin(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                del d[a]
        return Lin(norm(d), self.c + o.c)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((a, -k) for a, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return ZERO
        return Lin(tuple((a, c * k) for a, c in self.t), self.c * k)

    def atoms(self):
        return [a for a, _ in self.t]

    def coef(self, a):
        for x, k in self.t:
            if x == a:
                return k
        return 0


def akey(a):
    return (0, a) if isinstance(a, str) else (1, repr(a))


def norm(d):
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


def astr(a):
    if isinstance(a, str):
        return a
    if isinstance(a, tuple):
        if a[0] == 'mul':
            return '(' + '*'.join(astr(x) for x in a[1:]) + ')'
        return f"{a[0]}({', '.join(str(x) for x in a[1:])})"
    return str(a)


ZERO = Lin()
ONE = Lin((), 1)


def const(n):
    return Lin((), n)


def atom(a):
    return Lin(((a, 1),), 0)


def mul(x, y):
    """Product; products of atoms become monomials."""
    if x.is_const():
        return y.scale(x.c)
    if y.is_const():
        return x.scale(y.c)
    r = ZERO
    xt = list(x.t) + ([((), x.c)] if x.c else [])
    yt = list(y.t) + ([((), y.c)] if y.c else [])
    for a, k in xt:
        for b, m in yt:
            fs = []
            for z in (a, b):
                if z == ():
                    continue
                if isinstance(z, tuple) and z and z[0] == 'mul':
                    fs.extend(z[1:])
                else:
                    fs.append(z)
            fs.sort(key=akey)
            if not fs:
                r = r + k * m
            elif len(fs) == 1:
                r = r + atom(fs[0]).scale(k * m)
            else:
                r = r + atom(('mul',) + tuple(fs)).scale(k * m)
    return r


def subst_atom(a, m):
    """Substitutes inside a composite atom; returns a Lin."""
    if a in m:
        return m[a]
    if isinstance(a, tuple):
        if a[0] == 'mul':
            r = ONE
            for f in a[1:]:
                r = mul(r, subst_atom(f, m))
            return r
        return atom(tuple(subst_any(x, m) for x in a))
    return atom(a)


def subst_any(x, m):
    if isinstance(x, Lin):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


def mentions(x, names):
    if isinstance(x, Lin):
        return any(mentions_atom(a, names) for a, _ in x.t)
    if isinstance(x, tuple):
        return any(mentions(y, names) for y in x)
    return False


def mentions_atom(a, names):
    if a in names:
        return True
    if isinstance(a, tuple):
        return any(mentions_atom(y, names) if isinstance(y, (str,)) else mentions(y, names) or (isinstance(y, tuple) and mentions_atom(y, names)) for y in a[1:])
    return False


def subst(l, m):
    if not l.t:
        return l
    names = m.keys()
    if not any(mentions_atom(a, names) for a, _ in l.t):
        return l
    r = Lin((), l.c)
    for a, k in l.t:
        r = r + subst_atom(a, m).scale(k)
    return r


# --- constraints: Lin >= 0 ---------------------------------------------------------------------------------------

def tighten(l):
    """Integer tightening of l >= 0."""
    if not l.t:
        return l
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(tuple((a, k // g) for a, k in l.t), l.c // g)   # floor
    return l


class Infeasible(Exception):
    pass


LIMIT = 4000


@lru_cache(maxsize=400000)
def _feasible(cs):
    """cs: frozenset of Lin (>= 0). Rational feasibility with integer tightening."""
    work = set()
    for l in cs:
        l = tighten(l)
        if not l.t:
            if l.c < 0:
                return False
            continue
        work.add(l)
    # keep, for each linear form, the strongest constant
    while True:
        best = {}
        for l in work:
            o = best.get(l.t)
            if o is None or l.c < o:
                best[l.t] = l.c
        # opposite pairs: contradictions and equalities
        eq = None
        for t, c in best.items():
            nt = tuple((a, -k) for a, k in t)
            o = best.get(nt)
            if o is not None:
                if c + o < 0:
                    return False
                if c + o == 0 and eq is None:
                    # t + c == 0: find a unit coefficient
                    for a, k in t:
                        if abs(k) == 1:
                            eq = (a, k, Lin(t, c))
                            break
        if not best:
            return True
        if eq is not None:
            a, k, l = eq
            # a = -(l - k a)/k
            rest = l - Lin(((a, k),), 0)
            val = -rest if k == 1 else rest
            nw = set()
            for t, c in best.items():
                x = Lin(t, c)
                q = x.coef(a)
                if q:
                    x = x - Lin(((a, q),), 0) + val.scale(q)
                    x = tighten(x)
                if not x.t:
                    if x.c < 0:
                        return False
                    continue
                nw.add(x)
            work = nw
            continue
        # Fourier-Motzkin: eliminate the cheapest atom
        pos, neg = {}, {}
        for t, c in best.items():
            for a, k in t:
                (pos if k > 0 else neg).setdefault(a, []).append((t, c, k))
        names = set(pos) | set(neg)
        a = min(names, key=lambda n: (len(pos.get(n, ())) * len(neg.get(n, ())) - len(pos.get(n, ())) - len(neg.get(n, ())), akey(n)))
        ps, ns = pos.get(a, []), neg.get(a, [])
        gone = {x[0] for x in ps} | {x[0] for x in ns}
        nw = {Lin(t, c) for t, c in best.items() if t not in gone}
        for (t1, c1, k1) in ps:
            for (t2, c2, k2) in ns:
                x = Lin(t1, c1).scale(-k2) + Lin(t2, c2).scale(k1)
                x = tighten(x)
                if not x.t:
                    if x.c < 0:
                        return False
                    continue
                nw.add(x)
        if len(nw) > LIMIT:
            return True     # give up: not refuted
        work = nw


def connected(cs, goal_atoms):
    """The constraints which share atoms, transitively, with the goal."""
    known = set(goal_atoms)
    rest = list(cs)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nr = []
        for l in rest:
            if any(a in known for a, _ in l.t) or not l.t:
                out.append(l)
                for a, _ in l.t:
                    if a not in known:
                        known.add(a)
                        changed = True
            else:
                nr.append(l)
        rest = nr
    return out


def atom_bounds(a):
    """Constraints which hold of an atom by its name."""
    if isinstance(a, tuple):
        if a[0] == 'byte':
            return [atom(a), const(255) - atom(a)]
        if a[0] == 'bool':
            return [atom(a), ONE - atom(a)]
        if a[0] in ('mul', 'mod', 'div', 'nat'):
            return [atom(a)]
    return []


def with_bounds(cs):
    seen = set()
    out = list(cs)
    for l in cs:
        for a, _ in l.t:
            if a not in seen:
                seen.add(a)
                out.extend(atom_bounds(a))
    return out


def feasible(cs):
    return _feasible(frozenset(with_bounds(cs)))


def refutes(cs, extra):
    """cs and extra (list of Lin >= 0) cannot hold together. cs is assumed feasible on its own."""
    atoms = [a for l in extra for a, _ in l.t]
    sub = connected(cs, atoms)
    return not _feasible(frozenset(with_bounds(list(sub) + list(extra))))


def entails(cs, goal):
    """cs |= goal >= 0 (integers)."""
    if not goal.t:
        return goal.c >= 0
    return refutes(cs, [-goal - 1])


def entails_eq(cs, l):
    if not l.t:
        return l.c == 0
    return entails(cs, l) and entails(cs, -l)
