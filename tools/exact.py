"""one recorded run of a contract (vcsym exact), evaluated with 120 digits: did it fail in exact arithmetic?
Terms are closed (inputs are constants); differences below 1e-50 of the magnitudes involved are taken for equality."""
import json, struct
from decimal import Decimal as D, Context, getcontext, localcontext, DivisionByZero, InvalidOperation, Overflow, Underflow

PREC = 120
EPS = D('1e-50')


class Open(Exception):
    pass


def dec(bits):
    return D(struct.unpack('>d', bytes.fromhex(bits))[0])


def atan_(x):
    if x < 0:
        return -atan_(-x)
    if x > 1:
        return PI() / 2 - atan_(1 / x)
    n = 0
    while x > D('0.05'):
        x = x / (1 + (1 + x * x).sqrt())
        n += 1
    s, t, k, x2 = D(0), x, 1, x * x
    while abs(t) > D(10) ** -(PREC + 5):
        s += t / k if (k // 2) % 2 == 0 else -t / k
        t *= x2
        k += 2
    return s * 2 ** n


_pi = []


def PI():
    if not _pi:
        _pi.append(None)
        def at(q):
            x, s, k = D(1) / q, D(0), 1
            t = x
            while abs(t) > D(10) ** -(PREC + 5):
                s += t / k if (k // 2) % 2 == 0 else -t / k
                t /= q * q
                k += 2
            return s
        _pi[0] = 4 * (4 * at(5) - at(239))
    return _pi[0]


def sin_(x):
    x = x % (2 * PI())
    s, t, k = D(0), x, 1
    while abs(t) > D(10) ** -(PREC + 5) or k < 20:
        s += t
        t = -t * x * x / ((k + 1) * (k + 2))
        k += 2
        if t == 0:
            break
    return s


def atan2_(y, x):
    if x > 0:
        return atan_(y / x)
    if x < 0:
        return atan_(y / x) + PI() if y >= 0 else atan_(y / x) - PI()
    return PI() / 2 if y > 0 else -PI() / 2 if y < 0 else D(0)


def acos_(x):
    if abs(x) > 1:
        raise Open('acos')
    return atan2_((1 - x * x).sqrt(), x)


class Ev:
    def __init__(self, d):
        self.N, self.B, self.n, self.b = d['nodes'], d['bools'], {}, {}

    def num(self, root):
        """(value, magnitude)"""
        st = [root]
        while st:
            i = st[-1]
            if i in self.n:
                st.pop()
                continue
            x = self.N[i]
            kids = x[1:3] if x[0] in '+-*' else x[1:2] if x[0] in 'nis' else x[2:4] if x[0] == 'f' else []
            if x[0] == '?':
                kids = [x[2] if self.bool(x[1]) else x[3]]
            todo = [k for k in kids if k not in self.n]
            if todo:
                st.extend(todo)
                continue
            self.n[i] = self.one(x, [self.n[k] for k in kids])
            st.pop()
        return self.n[root]

    def one(self, x, a):
        k = x[0]
        if k == 'c':
            v = dec(x[1])
            return v, abs(v)
        if k == 'pi':
            return PI(), D(4)
        if k == 'v':
            raise Open(x[1])
        if k == '+':
            return a[0][0] + a[1][0], a[0][1] + a[1][1]
        if k == '-':
            return a[0][0] - a[1][0], a[0][1] + a[1][1]
        if k == '*':
            return a[0][0] * a[1][0], a[0][1] * a[1][1]
        if k == 'n':
            return -a[0][0], a[0][1]
        v, m = a[0]
        if k == 'i':
            if abs(v) <= EPS * m:
                raise Open('division by zero')
            return 1 / v, m / (v * v)
        if k == 's':
            if abs(v) <= EPS * m:
                return D(0), (m * EPS).sqrt()
            if v < 0:
                raise Open('sqrt')
            return v.sqrt(), m / v.sqrt()
        if k == '?':
            return a[0]
        f = x[1]
        if f == 'Sin':
            return sin_(v), 1 + m
        if f == 'Cos':
            return sin_(v + PI() / 2), 1 + m
        if f in ('Acos', 'Asin'):
            if abs(abs(v) - 1) <= EPS * (1 + m):
                v = D(1) if v > 0 else D(-1)
            c = acos_(v)
            return (c if f == 'Acos' else PI() / 2 - c), 4 + m / max(1 - v * v, D('1e-60')).sqrt()
        if f == 'Atan':
            return atan_(v), 1 + m
        if f == 'Atan2':
            return atan2_(v, a[1][0]), 1 + m + a[1][1]
        if f == 'Ln':
            if v <= EPS * m:
                raise Open('ln')
            return v.ln(), abs(v.ln()) + m / v
        if f == 'Exp':
            r = v.exp()
            return r, r * (1 + m)
        if f == 'Rnd32':
            r = D(struct.unpack('f', struct.pack('f', float(v)))[0])
            return r, abs(r)
        raise Open(f)

    def cmp(self, a, b):
        (x, m), (y, n) = self.num(a), self.num(b)
        d = y - x
        return 0 if abs(d) <= EPS * (m + n) else 1 if d > 0 else -1

    def bool(self, i):
        if i in self.b:
            return self.b[i]
        x = self.B[i]
        if x[0] == 'T':
            r = True
        elif x[0] == 'F':
            r = False
        elif x[0] == '<':
            r = self.cmp(x[1], x[2]) > 0
        elif x[0] == '=':
            r = self.cmp(x[1], x[2]) == 0
        elif x[0] == '!':
            r = not self.bool(x[1])
        else:
            # either side may settle it
            want = x[0] == '|'
            r, err = not want, None
            for k in x[1:3]:
                try:
                    if self.bool(k) == want:
                        r, err = want, None
                        break
                except Open as e:
                    err = e
            if err:
                raise err
        self.b[i] = r
        return r


def verdict(d):
    """'real' | 'rounding' | 'unknown', and the failed obligation"""
    with localcontext(Context(prec=PREC, Emin=-10 ** 8, Emax=10 ** 8)):
        ev = Ev(d)
        unknown = bool(d['undecided'])
        why = d['undecided']
        for o in d['obligations']:
            try:
                if all(ev.bool(f) for f in o['facts']) and not ev.bool(o['goal']):
                    return 'real', o['name']
            except (Open, ArithmeticError, RecursionError) as e:
                # a false fact settles it, whatever the others are
                fs = False
                for f in o['facts']:
                    try:
                        fs = fs or not ev.bool(f)
                    except (Open, ArithmeticError, RecursionError):
                        pass
                if not fs:
                    unknown, why = True, why or repr(e)
        return ('unknown' if unknown else 'rounding'), why


if __name__ == '__main__':
    import sys
    print(verdict(json.load(open(sys.argv[1]))))
