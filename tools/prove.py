"""Discharges the proof obligations dumped by the symbolic engine."""
import sys, os, json, subprocess, hashlib, time, re, tempfile, struct
from fractions import Fraction
sys.path.insert(0, os.path.dirname(__file__))
import poly
from poly import Canon, TooBig
sys.setrecursionlimit(100000)


def rat(h):
    v = poly.frac_of_hex(h)
    return ratf(v)


def ratf(v):
    s = '%d.0' % abs(v.numerator) if v.denominator == 1 else '(/ %d.0 %d.0)' % (abs(v.numerator), v.denominator)
    return '(- %s)' % s if v < 0 else s


class UnitObl:
    def __init__(self, d):
        self.d = d
        self.nodes, self.bools = d['nodes'], d['bools']
        self.focus = frozenset(d.get('focus', []))
        self.defs = {int(k): v for k, v in d.get('defs', {}).items()}
        self.canon = Canon(self.nodes, self.bools)
        self.canonx = Canon(self.nodes, self.bools, defs=self.defs) if self.defs else self.canon
        self.vmemo, self.bmemo = {}, {}
        self.rep = {}
        self.unify()

    # ---- leaf sets
    def nv(self, i):
        r = self.vmemo.get(i)
        if r is not None:
            return r
        n = self.nodes[i]
        t = n[0]
        if t in ('c', 'pi'):
            r = frozenset()
        elif t == 'v':
            r = frozenset([i])
        elif t in '+-*':
            r = self.nv(n[1]) | self.nv(n[2])
        elif t == 'n':
            r = self.nv(n[1])
        elif t in ('i', 's'):
            r = self.nv(n[1]) | {self.rep.get(i, i)}
        elif t == 'f':
            r = self.nv(n[2]) | self.nv(n[3]) | {self.rep.get(i, i)}
        else:
            r = self.bv(n[1]) | self.nv(n[2]) | self.nv(n[3])
        self.vmemo[i] = r
        return r

    def bv(self, b):
        r = self.bmemo.get(b)
        if r is not None:
            return r
        n = self.bools[b]
        t = n[0]
        if t in 'TF':
            r = frozenset()
        elif t in '<=':
            r = self.nv(n[1]) | self.nv(n[2])
        else:
            r = frozenset().union(*[self.bv(x) for x in n[1:]])
        self.bmemo[b] = r
        return r

    def unify(self):
        """aux terms whose arguments are equal polynomials share one representative"""
        first = {}
        for i, n in enumerate(self.nodes):
            if n[0] in ('i', 's', 'f'):
                p = self.canonx.poly(i)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]
                        if a in first:
                            self.rep[i] = first[a]
                        else:
                            first[a] = i
        self.vmemo.clear()

    def slice(self, facts, goal, expand=False):
        """facts connected to the goal by shared variables; expand: abbreviations connect to the terms they stand for"""
        vs = set(self.bv(goal))
        inn = set()
        seen = set()
        ch = True
        while ch:
            ch = False
            if expand:
                for v in list(vs):
                    if v in self.defs and v not in seen:
                        seen.add(v)
                        vs |= self.nv(self.defs[v])
                        ch = True
                for v, d in self.defs.items():
                    if v not in seen and v in self.usedvars(facts) and self.nv(d) & vs:
                        seen.add(v)
                        vs.add(v)
                        vs |= self.nv(d)
                        ch = True
            for f in facts:
                if f not in inn and (self.bv(f) & vs):
                    inn.add(f)
                    vs |= self.bv(f)
                    ch = True
        return [f for f in facts if f in inn]

    def usedvars(self, facts):
        k = tuple(facts)
        if getattr(self, '_uvk', None) != k:
            self._uvk = k
            self._uv = frozenset().union(*[self.bv(f) for f in facts]) if facts else frozenset()
        return self._uv

    # ---- SMT text
    def smt(self, facts, goal, expand=False):
        """facts and not goal, as SMT-LIB; returns text and list of variable nodes"""
        R = lambda i: self.rep.get(i, i)
        o, dn, db = [], set(), set()
        vars_, funs = [], []
        known = set(facts)

        def nm(i):
            return 'n%d' % R(i)

        def pn(i):
            i = R(i)
            stack = [(i, False)]
            while stack:
                j, done = stack.pop()
                j = R(j)
                if j in dn:
                    continue
                n = self.nodes[j]
                t = n[0]
                kids = []
                if t in '+-*':
                    kids = [n[1], n[2]]
                elif t in ('n', 'i', 's'):
                    kids = [n[1]]
                elif t == 'f':
                    kids = [n[2], n[3]]
                elif t == '?':
                    kids = [n[2], n[3]]
                if not done:
                    if t == '?':
                        pb(n[1])
                    stack.append((j, True))
                    for k in kids:
                        if R(k) not in dn:
                            stack.append((k, False))
                    continue
                dn.add(j)
                if t == 'c':
                    o.append('(define-fun n%d () Real %s)' % (j, rat(n[1])))
                elif t == 'pi':
                    o.append('(declare-const n%d Real)(assert (and (< 3.14159265358979 n%d) (< n%d 3.1415926535898)))' % (j, j, j))
                elif t == 'v':
                    if expand and j in self.defs:
                        pn(self.defs[j])
                        o.append('(declare-const n%d Real)(assert (= n%d %s))' % (j, j, nm(self.defs[j])))
                    else:
                        o.append('(declare-const n%d Real)' % j)
                        vars_.append(j)
                elif t in '+-*':
                    o.append('(define-fun n%d () Real (%s %s %s))' % (j, t, nm(n[1]), nm(n[2])))
                elif t == 'n':
                    o.append('(define-fun n%d () Real (- %s))' % (j, nm(n[1])))
                elif t == 'i':
                    a = self.nodes[n[1]]
                    if a[0] == 'c' and poly.frac_of_hex(a[1]) != 0:
                        o.append('(define-fun n%d () Real %s)' % (j, ratf(1 / poly.frac_of_hex(a[1]))))
                    else:
                        o.append('(declare-const n%d Real)(assert (=> (not (= %s 0.0)) (= (* n%d %s) 1.0)))' % (j, nm(n[1]), j, nm(n[1])))
                elif t == 's':
                    o.append('(declare-const n%d Real)(assert (and (>= n%d 0.0) (=> (>= %s 0.0) (= (* n%d n%d) %s))))' % (j, j, nm(n[1]), j, j, nm(n[1])))
                elif t == 'f':
                    o.append('(declare-const n%d Real)' % j)
                    funs.append(j)
                elif t == '?':
                    o.append('(define-fun n%d () Real (ite b%d %s %s))' % (j, n[1], nm(n[2]), nm(n[3])))

        def pb(b):
            if b in db:
                return
            n = self.bools[b]
            t = n[0]
            if t in '<=':
                pn(n[1])
                pn(n[2])
                db.add(b)
                o.append('(define-fun b%d () Bool (%s %s %s))' % (b, t, nm(n[1]), nm(n[2])))
                return
            for x in n[1:]:
                pb(x)
            db.add(b)
            if t == 'T':
                o.append('(define-fun b%d () Bool true)' % b)
            elif t == 'F':
                o.append('(define-fun b%d () Bool false)' % b)
            else:
                o.append('(define-fun b%d () Bool (%s %s))' % (b, {'!': 'not', '&': 'and', '|': 'or'}[t], ' '.join('b%d' % x for x in n[1:])))

        for f in facts:
            pb(f)
        pb(goal)
        PI = None
        ax = []
        if funs:
            by = {}
            for j in funs:
                n = self.nodes[j]
                by.setdefault(n[1], []).append((j, R(n[2]), R(n[3])))
            trig = {}
            for k in ('Sin', 'Cos'):
                for j, a, _ in by.get(k, []):
                    trig.setdefault(a, {})[k] = j
            for a, dct in trig.items():
                for k, j in dct.items():
                    ax.append('(assert (and (<= (- 1.0) n%d) (<= n%d 1.0)))' % (j, j))
                    if k == 'Sin':
                        ax.append('(assert (=> (and (< 0.0 n%d) (< n%d 3.14159265358979)) (< 0.0 n%d)))' % (a, a, j))
                        ax.append('(assert (=> (= n%d 0.0) (= n%d 0.0)))' % (a, j))
                    else:
                        ax.append('(assert (=> (= n%d 0.0) (= n%d 1.0)))' % (a, j))
                if len(dct) == 2:
                    ax.append('(assert (= (+ (* n%d n%d) (* n%d n%d)) 1.0))' % (dct['Sin'], dct['Sin'], dct['Cos'], dct['Cos']))
            for j, x, _ in by.get('Acos', []):
                for k in ('Sin', 'Cos'):
                    for m, a, _ in by.get(k, []):
                        if k == 'Cos':
                            ax.append('(assert (=> (= n%d n%d) (= n%d n%d)))' % (a, j, m, x))
                        else:
                            ax.append('(assert (=> (= n%d n%d) (and (>= n%d 0.0) (= (* n%d n%d) (- 1.0 (* n%d n%d))))))' % (a, j, m, m, m, x, x))
            for j, a, _ in by.get('Acos', []):
                ax.append('(assert (and (<= 0.0 n%d) (< n%d 3.1415926535898)))' % (j, j))
                ax.append('(assert (=> (< n%d 1.0) (< 0.0 n%d)))' % (a, j))
                ax.append('(assert (=> (and (< (- 1.0) n%d) (< n%d 1.0)) (< n%d 3.1415926535898)))' % (a, a, j))
                for x in [x for x in range(len(self.nodes)) if self.nodes[x][0] == 'pi' and x in dn]:
                    ax.append('(assert (<= n%d n%d))' % (j, x))
            for j, a, _ in by.get('Exp', []):
                ax.append('(assert (< 0.0 n%d))(assert (=> (= n%d 0.0) (= n%d 1.0)))' % (j, a, j))
            for j, a, _ in by.get('Rnd32', []):
                ax.append('(assert (and (<= (* (- n%d n%d) (- n%d n%d)) (* 0.0000000000000142111 n%d n%d))))' % (j, a, j, a, a, a))
            for k, l in by.items():
                for x in range(len(l)):
                    for y in range(x + 1, len(l)):
                        (j1, a1, b1), (j2, a2, b2) = l[x], l[y]
                        c = '(= n%d n%d)' % (a1, a2) if b1 == b2 or k != 'Atan2' else '(and (= n%d n%d) (= n%d n%d))' % (a1, a2, b1, b2)
                        ax.append('(assert (=> %s (= n%d n%d)))' % (c, j1, j2))
                        if k in ('Exp', 'Ln', 'Floor', 'Ceil', 'Trunc', 'Round', 'Rnd32', 'Atan', 'Asin'):
                            st = k in ('Exp', 'Ln', 'Atan', 'Asin')
                            op = '<' if st else '<='
                            ax.append('(assert (=> (< n%d n%d) (%s n%d n%d)))(assert (=> (< n%d n%d) (%s n%d n%d)))' % (a1, a2, op, j1, j2, a2, a1, op, j2, j1))
                        if k in ('Sin', 'Cos'):
                            # 1-Lipschitz
                            ax.append('(assert (or (<= (- n%d n%d) (- n%d n%d) (- n%d n%d)) (<= (- n%d n%d) (- n%d n%d) (- n%d n%d))))' % (a2, a1, j1, j2, a1, a2, a1, a2, j1, j2, a2, a1))
                        if k == 'Acos':
                            ax.append('(assert (=> (< n%d n%d) (< n%d n%d)))(assert (=> (< n%d n%d) (< n%d n%d)))' % (a1, a2, j2, j1, a2, a1, j1, j2))
        o += ax
        for f in facts:
            o.append('(assert b%d)' % f)
        o.append('(assert (not b%d))' % goal)
        return '\n'.join(o) + '\n', vars_, bool(funs)

    # ---- polynomial backend
    def poly_eq(self, facts, goal, expand=False):
        n = self.bools[goal]
        if n[0] != '=':
            return False
        C = self.canonx if expand else self.canon
        hy, nz = [], []
        for f in facts:
            b = self.bools[f]
            if b[0] == '=':
                h = poly.add(C.poly(b[1]), C.poly(b[2]), -1)
                if len(h) <= 40:
                    hy.append(h)
            elif b[0] == '!' and self.bools[b[1]][0] == '=':
                m = self.bools[b[1]]
                nz.append(poly.key(poly.primitive(poly.add(C.poly(m[1]), C.poly(m[2]), -1))[1]))
            elif b[0] == '<':
                p = poly.add(C.poly(b[1]), C.poly(b[2]), -1)
                nz.append(poly.key(poly.primitive(p)[1]))
        nzs = set(nz)

        def nonzero(b):
            # nonzero: a stated fact, a constant, or a square root/monomial of such
            k = poly.key(poly.primitive(b)[1])
            if k in nzs:
                return True
            if len(b) == 1:
                (m, c), = b.items()
                ok = True
                for a, _ in m:
                    inf = C.info[a]
                    if poly.key(poly.var(a)) in nzs:
                        continue
                    if inf[0] == 'sqrt' and nonzero(inf[1]):
                        continue
                    if inf[0] == 'inv' and nonzero(inf[1]):
                        continue
                    ok = False
                return ok
            # a factor-free check: product of known nonzero monomials is covered above; nonzero square sums are facts
            for k2 in nzs:
                q = dict(k2)
                if len(q) == 1:
                    ((mm, cc),) = q.items()
                    if len(mm) == 1 and C.info[mm[0][0]][0] == 'sqrt' and poly.key(poly.primitive(C.info[mm[0][0]][1])[1]) == k:
                        return True
            return False
        try:
            p = poly.add(C.poly(n[1]), C.poly(n[2]), -1)
            if not p:
                return True
            if any(C.info[a][0] == 'opaque' for a in poly.atoms(p)):
                C2 = None
            return C.is_zero(p, [], nonzero) or (bool(hy) and C.is_zero(p, hy, nonzero))
        except TooBig:
            return False


SOLVERS = {
    'z3': ['z3-new', '-smt2', '-in'],
    'z3-4.8': ['/usr/bin/z3', '-smt2', '-in'],
    'cvc5': ['cvc5', '--lang=smt2', '--produce-models'],
}


def run_solver(name, text, timeout, model_vars=None):
    t = time.time()
    if name.startswith('cvc5'):
        head = '(set-logic QF_NRA)\n'
        cmd = ['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000)] + (['--nl-cov'] if name == 'cvc5-cov' else [])
        if model_vars:
            cmd.append('--produce-models')
        tail = '(check-sat)\n'
    else:
        head = '(set-option :timeout %d)\n' % int(timeout * 1000)
        cmd = [('z3-new' if name.startswith('z3-n') or name == 'z3' else 'z3'), '-smt2', '-in']
        tail = '(check-sat)\n'
        if name.endswith('nlsat'):
            tail = '(check-sat-using (then simplify propagate-values solve-eqs elim-term-ite purify-arith tseitin-cnf qfnra-nlsat))\n'
        if model_vars:
            head += '(set-option :pp.decimal true)(set-option :pp.decimal_precision 17)\n'
    if model_vars:
        tail += '(get-value (%s))\n' % ' '.join('n%d' % v for v in model_vars)
    try:
        r = subprocess.run(cmd, input=head + text + tail, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.strip().split('\n')[0] if out.strip() else 'none'
    if first not in ('sat', 'unsat', 'unknown'):
        first = 'unknown' if ('timeout' in first or 'unknown' in first or first == 'none' or 'interrupted' in first or 'canceled' in first) else 'error:' + first[:200]
    return first, out, time.time() - t


def parse_model(out):
    """n12 -> float from a (get-value ...) answer"""
    m = {}
    toks = re.findall(r'[()]|[^\s()]+', out.split('\n', 1)[1] if '\n' in out else '')
    pos = 0

    def sexp():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != '(':
            return t
        l = []
        while pos < len(toks) and toks[pos] != ')':
            l.append(sexp())
        pos += 1
        return l

    def val(s):
        if isinstance(s, str):
            return Fraction(s.rstrip('?')) if re.match(r'^-?[0-9.]+\??$', s) else None
        if s[0] == '-':
            v = val(s[1])
            return None if v is None else -v
        if s[0] == '/':
            a, b = val(s[1]), val(s[2])
            return None if a is None or b is None else a / b
        return None
    try:
        while pos < len(toks):
            if toks[pos] == '(':
                s = sexp()
                for x in s:
                    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and x[0].startswith('n'):
                        v = val(x[1])
                        if v is not None:
                            try:
                                m[int(x[0][1:])] = float(v)
                            except OverflowError:
                                pass
            else:
                pos += 1
    except Exception:
        pass
    return m


def conjuncts(bools, g):
    out, st = [], [g]
    while st:
        x = st.pop()
        n = bools[x]
        if n[0] == '&':
            st += [n[2], n[1]]
        else:
            out.append(x)
    return out
