"""Integer polynomial domain: values are polynomials over named symbols and
opaque terms, with interval facts (constant lower bounds, polynomial upper
bounds) on the symbols.  This is the numeric abstract domain of the analysis:
it answers sign questions soundly (never a wrong "yes"), and says None when it
does not know."""
import itertools


class Sym:
    """A named integer unknown."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    @property
    def key(self):
        return ("sym", self.name)

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name


def akey(a):
    return a.key


class Poly:
    """Immutable polynomial with integer coefficients: {monomial: coeff};
    a monomial is a tuple of (atom, exponent) sorted by atom key."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})

    @property
    def key(self):
        return ("poly", tuple(sorted(((tuple((akey(a), e) for a, e in m), c) for m, c in self.t.items()), key=repr)))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        t = self.t
        return not t or len(t) == 1 and () in t

    def constval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        if o.__class__ is int:
            o = Poly.const(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    __radd__ = __add__

    def __rsub__(self, o):
        return Poly.const(o) - self

    def __mul__(self, o):
        if o.__class__ is int:
            o = Poly.const(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mulmono(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)

    __rmul__ = __mul__

    def atoms(self):
        return list(dict.fromkeys(a for m in self.t for a, _ in m))

    def subst(self, mp):
        """mp: {atom: Poly}"""
        if not mp or not any(a in mp for m in self.t for a, _ in m):
            return self
        r = Poly({})
        for m, c in self.t.items():
            p = Poly.const(c)
            for a, e in m:
                q = mp.get(a)
                if q is None:
                    p = p * Poly({((a, e),): 1})
                else:
                    for _ in range(e):
                        p = p * q
            r = r + p
        return r

    def linear_in(self, a):
        """(coefficient, rest) if the atom occurs only as a linear term with a
        constant coefficient, else None"""
        coef = self.t.get(((a, 1),), 0)
        if coef == 0:
            return None
        rest = {}
        for m, c in self.t.items():
            if m == ((a, 1),):
                continue
            if any(x == a for x, _ in m):
                return None
            rest[m] = c
        return coef, Poly(rest)

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in sorted(self.t.items(), key=lambda kv: (len(kv[0]), repr(kv[0]))):
            s = "*".join(repr(a) if e == 1 else f"{a!r}^{e}" for a, e in m)
            if not s:
                s = str(abs(c))
            elif abs(c) != 1:
                s = f"{abs(c)}*{s}"
            parts.append(("-" if c < 0 else "+") + s)
        r = "".join(parts)
        return r[1:] if r[0] == "+" else r


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda ae: repr(akey(ae[0]))))


def divmono(m, d):
    """m / d as a monomial, or None"""
    dd = dict(m)
    for a, e in d:
        k = dd.get(a, 0) - e
        if k < 0:
            return None
        dd[a] = k
    return tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda ae: repr(akey(ae[0]))))


class Facts:
    """Interval facts of one path."""

    def __init__(self):
        self.lo = {}      # atom -> int
        self.hi = {}      # atom -> Poly
        self.eq = {}      # atom -> Poly
        self.nonneg = []  # extra polynomials known to be >= 0
        self._memo = {}
        self._stamp = None

    def _m(self):
        """memo of sign and normalisation queries, valid for the current facts"""
        st = (len(self.lo), len(self.hi), len(self.eq), len(self.nonneg), self._ver)
        if st != self._stamp:
            self._stamp = st
            self._memo = {}
        return self._memo

    _ver = 0

    def declare(self, a, lo=None, hi=None):
        self._ver += 1
        if lo is not None:
            self.lo[a] = lo
        if hi is not None:
            self.hi[a] = hi if isinstance(hi, Poly) else Poly.const(hi)
            self._tighten(a)

    def _tighten(self, a):
        # hi - lo >= 0 gives a lower bound on the leading atom of hi
        if a in self.lo and a in self.hi:
            h = self.hi[a]
            at = h.atoms()
            if len(at) == 1:
                lr = h.linear_in(at[0])
                if lr and lr[0] == 1 and lr[1].is_const():
                    need = self.lo[a] - lr[1].constval()
                    b = at[0]
                    if b in self.lo and self.lo[b] < need:
                        self.lo[b] = need
                        self._ver += 1

    def norm(self, p):
        if not self.eq or p.is_const():
            return p
        memo = self._m()
        k = ("n", p)
        r = memo.get(k)
        if r is not None:
            return r
        p0 = p
        for _ in range(8):
            q = p.subst(self.eq)
            if q == p:
                break
            p = q
        memo[("n", p0)] = p
        return p

    # -- sign queries ----------------------------------------------------
    def nonneg_p(self, p, depth=1):
        p = self.norm(p)
        if p.is_const():
            return p.constval() >= 0
        memo = self._m()
        k = ("g", p, depth)
        r = memo.get(k)
        if r is None:
            r = memo[k] = self._nonneg_p(p, depth)
        return r

    def _nonneg_p(self, p, depth):
        if self._nn(p):
            return True
        if depth > 0:
            for f in self.nonneg:
                q = p - self.norm(f)
                if q.is_const():
                    if q.constval() >= 0:
                        return True
                elif self.nonneg_p(q, depth - 1):
                    return True
        return False

    def _nn(self, p):
        return any(all(c >= 0 for c in q.t.values()) for q, _ in self._forms(p))

    def _forms(self, p):
        """p written in the distances of its atoms from their bounds, which are
        never negative: (polynomial, {distance: (atom, end)})"""
        ats = p.atoms()
        # atoms with upper bounds may be written from below or from above
        bounded = [a for a in ats if a in self.hi]
        for a in list(ats):
            if a not in self.lo and a not in self.hi:
                # only usable with even powers; keep it simple
                return
        if len(bounded) > 5:
            bounded = bounded[:5]
        for choice in itertools.product((0, 1), repeat=len(bounded)):
            mp, dist, ok = {}, {}, True
            for a, c in zip(bounded, choice):
                if c == 0:
                    if a not in self.lo:
                        ok = False
                        break
                    d = Sym("'" + _nm(a))
                    mp[a] = Poly.const(self.lo[a]) + Poly.atom(d)
                    dist[d] = (a, 0)
                else:
                    d = Sym("'^" + _nm(a))
                    mp[a] = self.norm(self.hi[a]) - Poly.atom(d)
                    dist[d] = (a, 1)
            if not ok:
                continue
            q = p
            for _ in range(4):
                rest = [a for a in q.atoms() if a not in dist]
                if not rest:
                    break
                for a in rest:
                    if a not in mp:
                        if a not in self.lo:
                            ok = False
                            break
                        d = Sym("'" + _nm(a))
                        mp[a] = Poly.const(self.lo[a]) + Poly.atom(d)
                        dist[d] = (a, 0)
                if not ok:
                    break
                q = q.subst(mp)
            if ok and all(a in dist for a in q.atoms()):
                yield q, dist

    def _vanish(self, p):
        """p is zero and, written in nonnegative terms of one sign, so is each of
        them: atoms that are then known to be at one of their bounds"""
        out = {}
        for q, dist in self._forms(p):
            if () in q.t or not q.t or len({c > 0 for c in q.t.values()}) != 1:
                continue
            for m in q.t:
                if len(m) == 1 and m[0][0] in dist:
                    a, end = dist[m[0][0]]
                    out.setdefault(a, self.norm(self.hi[a]) if end else Poly.const(self.lo[a]))
        return out

    def sign(self, p):
        """one of 0, '>', '<', '>=', '<=', None"""
        p = self.norm(p)
        if p.is_const():
            c = p.constval()
            return 0 if c == 0 else ('>' if c > 0 else '<')
        one = Poly.const(1)
        if self.nonneg_p(p - one):
            return '>'
        if self.nonneg_p(-p - one):
            return '<'
        ge = self.nonneg_p(p)
        le = self.nonneg_p(-p)
        if ge and le:
            return 0
        if ge:
            return '>='
        if le:
            return '<='
        return None

    # -- refinement --------------------------------------------------------
    def assume_eq0(self, p, truth):
        """returns False when the assumption contradicts the facts"""
        p = self.norm(p)
        s = self.sign(p)
        self._ver += 1
        if truth:
            if s in ('>', '<'):
                return False
            if s == 0:
                return True
            if s in ('>=', '<='):
                at = {a: v for a, v in self._vanish(p).items() if a not in self.eq and a not in v.atoms()}
                for a, v in at.items():
                    if a not in self.norm(v).atoms():
                        self.eq[a] = self.norm(v)
                        self._ver += 1
                if at:
                    p = self.norm(p)
                    if p.is_const():
                        self._collapse()
                        return p.constval() == 0
            cands = sorted(p.atoms(), key=lambda a: (a not in self.hi, a not in self.lo, _nm(a)))
            for a in cands:
                lr = p.linear_in(a)
                if lr and lr[0] in (1, -1):
                    expr = lr[1] if lr[0] == -1 else -lr[1]
                    lo, hi = self.lo.get(a), self.hi.get(a)
                    self.eq[a] = expr
                    if lo is not None:
                        self.nonneg.append(expr - Poly.const(lo))
                        self._lift(expr - Poly.const(lo))
                    if hi is not None:
                        self.nonneg.append(hi - expr)
                        self._lift(hi - expr)
                    self._collapse()
                    return True
            return True
        if s == 0:
            return False
        if s in ('>', '<'):
            return True
        for a in p.atoms():
            lr = p.linear_in(a)
            if not lr or lr[0] not in (1, -1):
                continue
            expr = lr[1] if lr[0] == -1 else -lr[1]   # a != expr
            if a in self.lo and expr.is_const() and expr.constval() == self.lo[a]:
                self.lo[a] += 1
                self._ver += 1
                self._tighten(a)
                return True
            if a in self.hi and self.norm(self.hi[a]) == expr:
                self.hi[a] = expr - Poly.const(1)
                self._ver += 1
                self._tighten(a)
                return True
        if s == '>=':
            self.nonneg.append(p - Poly.const(1))
            self._lift(p - Poly.const(1))
        elif s == '<=':
            self.nonneg.append(-p - Poly.const(1))
            self._lift(-p - Poly.const(1))
        return True

    def _collapse(self):
        """atoms whose bounds have met are that value"""
        for a, h in self.hi.items():
            if a not in self.eq and a in self.lo:
                h = self.norm(h)
                if h.is_const() and h.constval() == self.lo[a]:
                    self.eq[a] = h
                    self._ver += 1

    def assume_nonneg(self, p):
        p = self.norm(p)
        s = self.sign(p)
        if s == '<':
            return False
        if s in (0, '>', '>='):
            return True
        self.nonneg.append(p)
        self._lift(p)
        return True

    def _lift(self, p):
        """p >= 0 with p = a - c tightens a's lower bound; p = c - a its upper"""
        p = self.norm(p)
        ats = p.atoms()
        if len(ats) == 1:
            lr = p.linear_in(ats[0])
            if lr and lr[1].is_const():
                a = ats[0]
                if lr[0] == 1:
                    lo = -lr[1].constval()
                    if a not in self.lo or self.lo[a] < lo:
                        self.lo[a] = lo
                        self._ver += 1
                        self._tighten(a)
                elif lr[0] == -1:
                    hi = lr[1]
                    h = self.hi.get(a)
                    if h is None or (h.is_const() and h.constval() > hi.constval()):
                        self.hi[a] = hi
                        self._ver += 1
                        self._tighten(a)

    # -- division ------------------------------------------------------------
    def divmod(self, num, den):
        """exact (quotient, remainder) with 0 <= r < den, or None; needs den a
        single positive monomial"""
        num, den = self.norm(num), self.norm(den)
        if den.is_const() and den.constval() == 0:
            return None
        if num.is_const() and den.is_const():
            q, r = divmod(num.constval(), den.constval())
            return Poly.const(q), Poly.const(r)
        if self.sign(den) != '>':
            return None
        if len(den.t) == 1:
            (dm, dc), = den.t.items()
            q, r = {}, {}
            for m, c in num.t.items():
                k = divmono(m, dm)
                if k is not None and (c % dc == 0 or dm == ()):
                    q[k] = q.get(k, 0) + c // dc
                    if c % dc:
                        r[m] = r.get(m, 0) + c % dc
                else:
                    r[m] = r.get(m, 0) + c
            q, r = Poly(q), Poly(r)
        else:
            q, r = Poly({}), num
            # exact multiple of the denominator?
            qq = _exact_div(num, den)
            if qq is not None:
                return qq, Poly({})
        one = Poly.const(1)
        for shift in (0, -1, 1, -2, 2):
            qq = q + Poly.const(shift)
            rr = r - den * Poly.const(shift)
            if self.nonneg_p(rr) and self.nonneg_p(den - one - rr):
                return self.norm(qq), self.norm(rr)
        return None


def _exact_div(num, den):
    """polynomial division, exact or None"""
    if not den.t:
        return None
    order = lambda m: (sum(e for _, e in m), repr([(akey(a), e) for a, e in m]))
    lead = max(den.t, key=order)
    lc = den.t[lead]
    q, r = Poly({}), num
    for _ in range(40):
        if not r.t:
            return q
        m = max(r.t, key=order)
        k = divmono(m, lead)
        if k is None or r.t[m] % lc:
            return None
        step = Poly({k: r.t[m] // lc})
        q = q + step
        r = r - step * den
    return None


def _nm(a):
    return a.name if isinstance(a, Sym) else repr(a)
