"""Exact multivariate polynomial arithmetic and the field normaliser (a decision procedure for equalities of
rational functions with square roots, modulo polynomial hypotheses)."""
from fractions import Fraction
import struct


class TooBig(Exception):
    pass


LIMIT = 60000


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def var(a):
    return {((a, 1),): Fraction(1)}


def add(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mulmono(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def mul(p, q, limit=LIMIT):
    if len(p) * len(q) > limit * 40:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mulmono(m, n)
            v = r.get(k)
            if v is None:
                r[k] = c * d
            else:
                v += c * d
                if v:
                    r[k] = v
                else:
                    del r[k]
    if len(r) > limit:
        raise TooBig()
    return r


def scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def power(p, k):
    r = const(1)
    for _ in range(k):
        r = mul(r, p)
    return r


def coeffs(p, a):
    """p as univariate in a: {degree: poly}"""
    out = {}
    for m, c in p.items():
        e = 0
        rest = m
        for i, (x, k) in enumerate(m):
            if x == a:
                e = k
                rest = m[:i] + m[i + 1:]
                break
        out.setdefault(e, {})[rest] = c
    return out


def atoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


def key(p):
    return tuple(sorted(p.items()))


def primitive(p):
    """(unit constant u, q) with p = u*q and q's first coefficient 1"""
    if not p:
        return Fraction(0), p
    m = min(p)
    u = p[m]
    return u, {k: v / u for k, v in p.items()}


def frac_of_hex(h):
    v = struct.unpack('>d', bytes.fromhex(h))[0]
    return Fraction(v)


class Canon:
    """canonical polynomials of the terms of one unit"""

    def __init__(self, nodes, bools, limit=4000, defs=None):
        self.defs = defs or {}
        self.nodes, self.bools, self.limit = nodes, bools, limit
        self.memo = {}
        self.atom = {}      # canonical key -> atom number
        self.info = []      # atom number -> (kind, data..., node)
        self.nodeatom = {}
        self.opaque = 0

    def mkatom(self, k, info):
        a = self.atom.get(k)
        if a is None:
            a = len(self.info)
            self.atom[k] = a
            self.info.append(info)
        return a

    def poly(self, i):
        r = self.memo.get(i)
        if r is not None:
            return r
        # iterative over depth to avoid recursion limits
        n = self.nodes[i]
        t = n[0]
        try:
            if t == 'c':
                r = const(frac_of_hex(n[1]))
            elif t == 'pi':
                r = var(self.mkatom(('pi',), ('pi', i)))
            elif t == 'v' and i in self.defs:
                r = self.poly(self.defs[i])
            elif t == 'v':
                r = var(self.mkatom(('v', n[1]), ('v', i)))
            elif t == '+':
                r = add(self.poly(n[1]), self.poly(n[2]))
            elif t == '-':
                r = add(self.poly(n[1]), self.poly(n[2]), -1)
            elif t == 'n':
                r = scale(self.poly(n[1]), -1)
            elif t == '*':
                r = mul(self.poly(n[1]), self.poly(n[2]), self.limit)
            elif t == 'i':
                p = self.poly(n[1])
                if not p:
                    r = var(self.mkatom(('z', i), ('opaque', i)))
                else:
                    u, q = primitive(p)
                    if len(q) == 1:
                        (m, _), = q.items()
                        r = const(Fraction(1) / u)
                        for a, e in m:
                            r = mul(r, power(var(self.invatom(a, i)), e))
                    else:
                        r = scale(var(self.mkatom(('i', key(q)), ('inv', q, i))), 1 / u)
            elif t == 's':
                p = self.poly(n[1])
                r = var(self.mkatom(('s', key(p)), ('sqrt', p, i)))
            elif t == 'f':
                k = ('f', n[1], key(self.poly(n[2])), key(self.poly(n[3])))
                r = var(self.mkatom(k, ('fun', n[1], self.poly(n[2]), self.poly(n[3]), i)))
            elif t == '?':
                k = ('?', self.bkey(n[1]), key(self.poly(n[2])), key(self.poly(n[3])))
                r = var(self.mkatom(k, ('ite', i)))
            if len(r) > self.limit:
                raise TooBig()
        except TooBig:
            self.opaque += 1
            r = var(self.mkatom(('o', i), ('opaque', i)))
        self.memo[i] = r
        return r

    def invatom(self, a, i):
        inf = self.info[a]
        if inf[0] == 'inv':
            # inverse of an inverse: keep it as an atom over the inner atom
            pass
        return self.mkatom(('i', key(var(a))), ('inv', var(a), i))

    def bkey(self, b):
        n = self.bools[b]
        t = n[0]
        if t in '<=':
            return (t, key(add(self.poly(n[1]), self.poly(n[2]), -1)))
        return (t,) + tuple(self.bkey(x) for x in n[1:])

    def is_zero(self, p, hyps, nonzero, depth=0):
        """p == 0 under hyps (list of polys equal to 0), clearing inverses of polynomials known to be nonzero.
        Sound; complete for rational functions without hypotheses."""
        rules = []
        for h in hyps:
            r = self.rule(h)
            if r:
                rules.append(r)
        rules.sort(key=lambda r: -r[0])
        return self._zero(p, rules, nonzero, 0)

    def rule(self, h):
        """h = 0 as rewrite rule  a^d -> q (a not in q), d in {1,2}, constant leading coefficient"""
        best = None
        for a in sorted(atoms(h), reverse=True):
            if self.info[a][0] == 'inv':
                continue
            cs = coeffs(h, a)
            d = max(cs)
            if d > 2 or (d == 2 and 1 in cs):
                continue
            lead = cs[d]
            if len(lead) == 1 and () in lead:
                # atoms that depend on a (through aux definitions) would make the rule circular
                q = scale(cs.get(0, {}), Fraction(-1) / lead[()])
                if any(self.depends(x, a) for x in atoms(q)):
                    continue
                if best is None or d < best[1]:
                    best = (a, d, q)
        return best

    def depends(self, x, a):
        if x == a:
            return True
        inf = self.info[x]
        if inf[0] in ('inv', 'sqrt'):
            return any(self.depends(y, a) for y in atoms(inf[1]))
        if inf[0] == 'fun':
            return any(self.depends(y, a) for y in atoms(inf[2]) | atoms(inf[3]))
        if inf[0] in ('ite', 'opaque'):
            return True
        return False

    def reduce(self, p, a, d, q):
        while True:
            cs = coeffs(p, a)
            m = max(cs) if cs else 0
            if m < d:
                return p
            out = {}
            for e, c in cs.items():
                k, r = divmod(e, d)
                t = c
                if k:
                    t = mul(t, power(q, k))
                if r:
                    t = mul(t, {((a, r),): Fraction(1)})
                out = add(out, t)
            p = out
            if len(p) > LIMIT:
                raise TooBig()

    def _zero(self, p, rules, nonzero, depth):
        steps = 0
        while p:
            steps += 1
            if steps > 200:
                return False
            ats = sorted(atoms(p), reverse=True)
            if not ats:
                return False
            changed = False
            for a in ats:
                inf = self.info[a]
                if inf[0] == 'inv':
                    b = inf[1]
                    if not nonzero(b):
                        continue
                    cs = coeffs(p, a)
                    k = max(cs)
                    out = {}
                    for e, c in cs.items():
                        out = add(out, mul(c, power(b, k - e)))
                    p = out
                    changed = True
                    break
                if inf[0] == 'sqrt':
                    cs = coeffs(p, a)
                    if max(cs) >= 2:
                        p = self.reduce(p, a, 2, inf[1])
                        changed = True
                        break
                r = next((r for r in rules if r[0] == a and max(coeffs(p, a)) >= r[1]), None)
                if r:
                    p = self.reduce(p, *r)
                    changed = True
                    break
            if not changed:
                # a square root (or anything) left with degree 1: all its coefficients must vanish
                a = next((a for a in ats if self.info[a][0] == 'sqrt'), None)
                if a is not None:
                    return all(self._zero(c, rules, nonzero, depth + 1) for c in coeffs(p, a).values())
                return False
        return True
