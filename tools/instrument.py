#!/usr/bin/env python3
"""Rewrites textual LLVM IR (as rustc emits it from the real source) so that every floating point
operation calls the verifier runtime, and so that calls between functions under contract go to the
contract of the callee.  Nothing else of the code is changed; see DESIGN.md "What the extraction drops"."""
import re, sys

FL = {'double': 'f64', 'float': 'f32'}
V = r'[^,]+'
RE_BIN = re.compile(r'^(\s*)(\S+) = (fadd|fsub|fmul|fdiv|frem)((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) (double|float) ([^,]+), (\S+?)(,.*)?$')
RE_NEG = re.compile(r'^(\s*)(\S+) = fneg((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) (double|float) (\S+?)(,.*)?$')
RE_CMP = re.compile(r'^(\s*)(\S+) = fcmp((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) (\w+) (double|float) ([^,]+), (\S+?)(,.*)?$')
RE_EXT = re.compile(r'^(\s*)(\S+) = (fpext|fptrunc) (float|double) (\S+) to (float|double)(,.*)?$')
RE_TOI = re.compile(r'^(\s*)(\S+) = (fptosi|fptoui) (float|double) (\S+) to (\S+?)(,.*)?$')
RE_BIT = re.compile(r'^(\s*)(\S+) = bitcast (float|double) (\S+) to (i32|i64)(,.*)?$')
RE_VEC = re.compile(r'\b(fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fpext|fptrunc|fptosi|fptoui)\b')
INTR = {  # llvm.<name>.fXX -> runtime name
    'sqrt': 'sqrt', 'fabs': 'fabs', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'acos': 'acos', 'asin': 'asin', 'atan': 'atan',
    'atan2': 'atan2', 'log': 'log', 'exp': 'exp', 'pow': 'pow', 'powi': 'powi', 'minnum': 'minnum', 'maxnum': 'maxnum',
    'minimumnum': 'minnum', 'maximumnum': 'maxnum', 'minimum': 'fminimum', 'maximum': 'fmaximum', 'fma': 'fma', 'fmuladd': 'fma',
    'copysign': 'copysign', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round',
}
LIBM = {'acos': 'acos', 'asin': 'asin', 'atan': 'atan', 'atan2': 'atan2', 'tan': 'tan', 'hypot': 'hypot', 'sin': 'sin', 'cos': 'cos',
        'log': 'log', 'exp': 'exp', 'pow': 'pow', 'fmod': 'frem', 'sqrt': 'sqrt', 'fmin': 'minnum', 'fmax': 'maxnum'}
# float libm calls we do not model: the unit that reaches them stays undecided
LIBM_UN = ['sinh', 'cosh', 'tanh', 'expm1', 'log1p', 'cbrt', 'exp2', 'log2', 'log10', 'asinh', 'acosh', 'atanh', 'fdim', 'tgamma', 'lgamma']
RE_INTR = re.compile(r'@llvm\.([a-z0-9]+)\.(f64|f32)(?:\.i32)?\(')
RE_INTR_ANY = re.compile(r'@llvm\.([a-z0-9.]+)\.(f64|f32)((?:\.i\d+)?)\(')
RE_TOISAT = re.compile(r'@llvm\.fpto[su]i\.sat\.i\d+\.(f64|f32)\((?:\w+ )*?(double|float) ([^)]+)\)')
RE_LIBM = re.compile(r'(?<=\s)@(%s)(f?)\(' % '|'.join(LIBM))
RE_LIBMUN = re.compile(r'(?<=\s)@(%s)(f?)\(' % '|'.join(LIBM_UN))


def split_top(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def match_paren(s, i):
    d, q = 0, False
    for j in range(i, len(s)):
        ch = s[j]
        if ch == '"':
            q = not q
        if q:
            continue
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                return j
    raise ValueError(s)


RE_DEF = re.compile(r'^define .*?@("[^"]*"|[-\w.$]+)\(')


def first_type(p):
    """leading type token of a parameter"""
    p = p.strip()
    if p[0] in '{[<':
        d = 0
        for j, ch in enumerate(p):
            if ch in '{[<(':
                d += 1
            elif ch in '}])>':
                d -= 1
                if d == 0:
                    return p[:j + 1]
    t = p.split()[0]
    m = re.search(r'sret\(([^)]*)\)', p)
    return t + (' sret' if m else '')


def last_type(p):
    p = p.strip()
    if p[-1] in '}]>':
        d = 0
        for j in range(len(p) - 1, -1, -1):
            ch = p[j]
            if ch in '}])>':
                d += 1
            elif ch in '{[<(':
                d -= 1
                if d == 0:
                    return p[j:]
    return p.split()[-1]


def signature(line):
    m = RE_DEF.match(line)
    i = m.end() - 1
    j = match_paren(line, i)
    at = line.rindex('@' + m.group(1), 0, i + 1)
    ret = last_type(line[:at])
    params = [first_type(x) for x in split_top(line[i + 1:j])]
    return m.group(1), ret, params


def index(text):
    """demangled name -> (symbol, ret, params)"""
    out = {}
    prev = []
    for line in text.split('\n'):
        if line.startswith('define '):
            name = None
            for p in reversed(prev):
                if not p.startswith('; Function Attrs:'):
                    name = p[2:].strip()
                    break
            try:
                sym, ret, ps = signature(line)
            except Exception:
                prev = []
                continue
            out.setdefault(name or sym, (sym, ret, tuple(ps)))
            prev = []
        elif line.startswith('; '):
            prev.append(line)
        else:
            prev = []
    return out


RE_I1 = re.compile(r'^  (%\S+) = (and|or|xor) i1 ([^,]+), (\S+?)(,.*)?$')
RE_SELI1 = re.compile(r'^  (%\S+) = select i1 (\S+), i1 ([^,]+), i1 (\S+?)(,.*)?$')
RE_SELF = re.compile(r'^  (%\S+) = select((?: (?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast))*) i1 (%\S+), (double|float) ([^,]+), (double|float) (\S+?)(,.*)?$')
RE_SUM = re.compile(r'^<(?:core::iter::adapters::enumerate::(Enumerate)<)?core::slice::iter::Iter<.*>>? as core::iter::traits::iterator::Iterator>::(all|any)::<')
RE_TOK = re.compile(r'%(?:"[^"]*"|[-\w.$]+)')


def merge_selects(text):
    """Rewrites `select` on floats whose condition is made of float comparisons into a call that builds a conditional term,
    so that min/max chains do not fork the path.  Comparisons that serve nothing else disappear."""
    out, decl = [], set()
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        if not lines[i].startswith('define '):
            out.append(lines[i])
            i += 1
            continue
        j = i
        while lines[j] != '}':
            j += 1
        body = lines[i:j + 1]
        i = j + 1
        defs = {}
        for l in body:
            m = RE_CMP.match(l)
            if m:
                defs[m.group(2)] = ('cmp', m.group(4), m.group(5), m.group(6), m.group(7))
                continue
            m = RE_I1.match(l)
            if m:
                defs[m.group(1)] = (m.group(2), m.group(3), m.group(4))
                continue
            m = RE_SELI1.match(l)
            if m:
                defs[m.group(1)] = ('sel', m.group(2), m.group(3), m.group(4))

        def floaty(c):
            d = defs.get(c)
            if d is None:
                return False
            return d[0] == 'cmp' or any(floaty(x) for x in d[1:])
        new, k = [], 0

        def shadow(c):
            nonlocal k
            k += 1
            r = '%%vc.c%d' % k
            if c in ('true', 'false'):
                return str(int(c == 'false'))
            d = defs.get(c)
            if d is None or not floaty(c):
                new.append('  %s = select i1 %s, i32 0, i32 1' % (r, c))
                return r
            if d[0] == 'cmp':
                n = '__vc_c%s_%s' % (d[1], FL[d[2]])
                decl.add('declare i32 @%s(%s, %s)' % (n, d[2], d[2]))
                new.append('  %s = call i32 @%s(%s %s, %s %s)' % (r, n, d[2], d[3], d[2], d[4]))
                return r
            a = [shadow(x) for x in d[1:]]
            n = '__vc_c' + d[0]
            decl.add('declare i32 @%s(%s)' % (n, ', '.join('i32' for _ in a)))
            new.append('  %s = call i32 @%s(%s)' % (r, n, ', '.join('i32 ' + x for x in a)))
            return r
        done = False
        for l in body:
            m = RE_SELF.match(l)
            if m and floaty(m.group(3)):
                s = shadow(m.group(3))
                t = m.group(4)
                n = '__vc_select_' + FL[t]
                decl.add('declare %s @%s(i32, %s, %s)' % (t, n, t, t))
                new.append('  %s = call %s @%s(i32 %s, %s %s, %s %s)' % (m.group(1), t, n, s, t, m.group(5), t, m.group(7)))
                done = True
            else:
                new.append(l)
        while done:
            uses = {}
            for l in new:
                for t in RE_TOK.findall(l):
                    uses[t] = uses.get(t, 0) + 1
            keep = [l for l in new if not (l.startswith('  %') and l.split(' ', 3)[2] in defs and uses[l.split(' ', 3)[2]] == 1)]
            if len(keep) == len(new):
                break
            new = keep
        out += new
    return '\n'.join(out) + '\n' + '\n'.join(sorted(decl)) + '\n'


def summaries(text):
    """Calls of Iterator::all and Iterator::any over a slice go through a wrapper that explores all of the callee's own paths
    and answers with the disjunction of their path conditions, so that the caller forks in two only."""
    found, taken = {}, set()
    for name, (sym, ret, ps) in index(text).items():
        m = RE_SUM.match(name)
        if m and ret == 'i1' and ps and ps[0] == 'ptr' and all(p in ('ptr', 'i64', 'double') for p in ps):
            found[sym] = (24 if m.group(1) else 16, ps)
    # several instances may share a demangled name: take them by symbol
    prev = ''
    for line in text.split('\n'):
        if line.startswith('; ') and not line.startswith('; Function Attrs'):
            prev = line[2:].strip()
        elif not line.startswith(('; ', 'define ')):
            prev = ''
        elif line.startswith('define '):
            m = RE_SUM.match(prev)
            if m:
                try:
                    sym, ret, ps = signature(line)
                    if ret == 'i1' and ps and ps[0] == 'ptr' and all(p in ('ptr', 'i64', 'double') for p in ps):
                        found[sym] = (24 if m.group(1) else 16, ps)
                except Exception:
                    pass
            prev = ''
    if not found:
        return text
    rx = re.compile('@(' + '|'.join(re.escape(s) for s in sorted(found, key=len, reverse=True)) + r')(?![-\w.$"])')
    names = {s: 'vc.sum.%d' % k for k, s in enumerate(sorted(found))}
    out = []
    for line in text.split('\n'):
        if line.startswith('  ') and (' call ' in line or ' invoke ' in line):
            line = rx.sub(lambda m: '@' + names[m.group(1)], line)
        out.append(line)
    for s, (n, ps) in sorted(found.items()):
        a = ', '.join('%s %%a%d' % (t, i) for i, t in enumerate(ps))
        out.append("""define internal zeroext i1 @%s(%s) noinline uwtable {
entry:
  %%s = alloca [%d x i8], align 8
  call void @__vc_sum_begin()
  call void @__vc_sum_copy(ptr %%s, ptr %%a0, i64 %d)
  br label %%again
again:
  call void @__vc_sum_copy(ptr %%a0, ptr %%s, i64 %d)
  %%r = call zeroext i1 @%s(%s)
  %%m = call zeroext i1 @__vc_sum_next(i1 zeroext %%r)
  br i1 %%m, label %%again, label %%end
end:
  %%v = call zeroext i1 @__vc_sum_end()
  ret i1 %%v
}""" % (names[s], a, n, n, n, s, a))
    out += ['declare void @__vc_sum_begin()', 'declare void @__vc_sum_copy(ptr, ptr, i64)', 'declare zeroext i1 @__vc_sum_next(i1 zeroext)', 'declare zeroext i1 @__vc_sum_end()']
    return '\n'.join(out) + '\n'


def afters(text, hooks):
    """Loop invariants: after every call of a hooked function the harness's hook runs on the result and the arguments.
    hooks: symbol -> (hook symbol (quoted), ret, params)"""
    if not hooks:
        return text
    rx = re.compile('@(' + '|'.join(re.escape(s) for s in sorted(hooks, key=len, reverse=True)) + r')(?![-\w.$"])')
    names = {s: 'vc.after.%d' % k for k, s in enumerate(sorted(hooks))}
    out = []
    for line in text.split('\n'):
        if line.startswith('  ') and (' call ' in line or ' invoke ' in line):
            line = rx.sub(lambda m: '@' + names[m.group(1)], line)
        out.append(line)
    for s, (h, ret, ps) in sorted(hooks.items()):
        ps = [p.split()[0] for p in ps]
        z = 'zeroext ' if ret == 'i1' else ''
        a = ', '.join('%s %%a%d' % (t, i) for i, t in enumerate(ps))
        if ret == 'void':
            out.append('define internal void @%s(%s) noinline uwtable {\n  call void @%s(%s)\n  call void @%s(%s)\n  ret void\n}' % (names[s], a, s, a, h, a))
            out.append('declare void @%s(%s)' % (h, ', '.join(ps)))
        else:
            ha = '%s %s%%r, %s' % (ret, z, a)
            out.append('define internal %s%s @%s(%s) noinline uwtable {\n  %%r = call %s%s @%s(%s)\n  %%s = call %s%s @%s(%s)\n  ret %s %%s\n}' % (z, ret, names[s], a, z, ret, s, a, z, ret, h, ha, ret))
            out.append('declare %s%s @%s(%s)' % (z, ret, h, ', '.join([ret + (' zeroext' if z else '')] + ps)))
    return '\n'.join(out) + '\n'


def rewrite(text, redirect=None, skip_prefix=None, log=None, floats=True):
    """redirect: symbol -> contract symbol (quoted). skip_prefix: demangled-name prefixes whose bodies keep their calls."""
    redirect = redirect or {}
    decl = {}
    out = []
    cur = None
    prev_comment = ''
    unsup = []
    rsyms = sorted(redirect, key=len, reverse=True)
    rre = re.compile('@(' + '|'.join(re.escape(s) for s in rsyms) + r')(?![-\w.$"])') if rsyms else None
    ctdecl = {}

    def d(name, ret, *args):
        decl[name] = '%s @%s(%s)' % (ret, name, ', '.join(args))

    for line in text.split('\n'):
        if line.startswith('; ') and not line.startswith('; Function Attrs'):
            prev_comment = line[2:].strip()
        elif not line.startswith(('; ', 'define ')):
            prev_comment = ''
        if not floats:
            if line.startswith('define '):
                cur, prev_comment = prev_comment or RE_DEF.match(line).group(1).strip('"'), ''
        elif line.startswith('attributes #'):
            line = re.sub(r'\b(nounwind|memory\([^)]*\)|willreturn|speculatable|nofree|nosync|nocallback|mustprogress|norecurse)\b ?', '', line)
            line = re.sub(r'= \{ +\}', '= { "vc" }', line)
        elif line.startswith('define '):
            cur, prev_comment = prev_comment or RE_DEF.match(line).group(1).strip('"'), ''
            line = re.sub(r' nounwind\b', '', line)
        elif line.startswith('declare '):
            if RE_INTR_ANY.search(line) or RE_LIBM.search(line) or RE_LIBMUN.search(line):
                if not RE_TOISAT.search(line) and 'fptosi' not in line and 'fptoui' not in line:
                    continue
        if floats and line.startswith('  '):
            m = RE_BIN.match(line)
            if m:
                i, r, op, _, t, a, b, _ = m.groups()
                n = '__vc_%s_%s' % (op, FL[t])
                d(n, t, t, t)
                line = '%s%s = call %s @%s(%s %s, %s %s)' % (i, r, t, n, t, a, t, b)
            elif RE_NEG.match(line):
                i, r, _, t, a, _ = RE_NEG.match(line).groups()
                n = '__vc_fneg_%s' % FL[t]
                d(n, t, t)
                line = '%s%s = call %s @%s(%s %s)' % (i, r, t, n, t, a)
            elif RE_CMP.match(line):
                i, r, _, p, t, a, b, _ = RE_CMP.match(line).groups()
                n = '__vc_%s_%s' % (p, FL[t])
                d(n, 'zeroext i1', t, t)
                line = '%s%s = call zeroext i1 @%s(%s %s, %s %s)' % (i, r, n, t, a, t, b)
            elif RE_EXT.match(line):
                i, r, op, t, a, t2, _ = RE_EXT.match(line).groups()
                n = '__vc_' + op
                d(n, t2, t)
                line = '%s%s = call %s @%s(%s %s)' % (i, r, t2, n, t, a)
            elif RE_TOI.match(line):
                i, r, op, t, a, t2, rest = RE_TOI.match(line).groups()
                n = '__vc_toint_' + FL[t]
                d(n, t, t)
                k = len(out)
                out.append('%s%%vc.i%d = call %s @%s(%s %s)' % (i, k, t, n, t, a))
                line = '%s%s = %s %s %%vc.i%d to %s' % (i, r, op, t, k, t2)
            elif RE_BIT.match(line):
                i, r, t, a, t2, _ = RE_BIT.match(line).groups()
                n = '__vc_tobits_' + FL[t]
                d(n, t2, t)
                line = '%s%s = call %s @%s(%s %s)' % (i, r, t2, n, t, a)
            elif ' call ' in line or ' invoke ' in line:
                m = RE_TOISAT.search(line)
                if m:
                    n = '__vc_toint_' + m.group(1)
                    t = m.group(2)
                    d(n, t, t)
                    k = len(out)
                    out.append('  %%vc.i%d = call %s @%s(%s %s)' % (k, t, n, t, m.group(3)))
                    line = line[:m.start(3)] + '%%vc.i%d' % k + line[m.end(3):]
                else:
                    m = RE_INTR.search(line)
                    if m and m.group(1) in INTR:
                        n = '__vc_%s_%s' % (INTR[m.group(1)], m.group(2))
                        t = 'double' if m.group(2) == 'f64' else 'float'
                        args = {'powi': (t, 'i32'), 'fma': (t, t, t), 'fmuladd': (t, t, t)}.get(m.group(1))
                        if not args:
                            args = (t, t) if INTR[m.group(1)] in ('atan2', 'pow', 'minnum', 'maxnum', 'fminimum', 'fmaximum', 'copysign') else (t,)
                        d(n, t, *args)
                        line = line[:m.start()] + '@' + n + '(' + line[m.end():]
                        line = re.sub(r'\) #\d+', ')', line)
                        line = re.sub(r'call (?:nnan |ninf |nsz |arcp |contract |afn |reassoc |fast )+', 'call ', line)
                    elif RE_LIBM.search(line) and re.search(r'\b(double|float) @', line):
                        m = RE_LIBM.search(line)
                        t = 'float' if m.group(2) else 'double'
                        n = '__vc_%s_%s' % (LIBM[m.group(1)], FL[t])
                        two = m.group(1) in ('atan2', 'hypot', 'pow', 'fmod', 'fmin', 'fmax')
                        d(n, t, *([t, t] if two else [t]))
                        line = line[:m.start()] + '@' + n + '(' + line[m.end():]
                        line = re.sub(r'\) #\d+', ')', line)
                    elif RE_LIBMUN.search(line) or RE_INTR_ANY.search(line):
                        m = RE_LIBMUN.search(line) or RE_INTR_ANY.search(line)
                        r = re.match(r'^(\s*)(?:(\S+) = )?', line)
                        t = 'float' if (m.group(2) in ('f', 'f32')) else 'double'
                        if r.group(2) and re.search(r'\b(double|float) @', line):
                            n = '__vc_unsupported_' + FL[t]
                            d(n, t)
                            line = '%s%s = call %s @%s()' % (r.group(1), r.group(2), t, n)
                            unsup.append(m.group(1))
                        else:
                            raise SystemExit('instrument: cannot handle: ' + line)
            elif RE_VEC.search(line) and ' = ' in line and not line.strip().startswith(';') and re.search(r' = (fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fpext|fptrunc|fptosi|fptoui)\b', line):
                raise SystemExit('instrument: cannot handle: ' + line)
        if rre and not line.startswith('define ') and not line.startswith('declare '):
            skip = line.startswith('  ') and skip_prefix and cur and any(cur.startswith(p) for p in skip_prefix)
            if not skip:
                def sub(m):
                    ctdecl[m.group(1)] = True
                    return '@' + redirect[m.group(1)][0]
                line = rre.sub(sub, line)
        out.append(line)
    # drop duplicates of declarations
    have = set(re.findall(r'^(?:declare|define) .*?@("[^"]*"|[-\w.$]+)\(', '\n'.join(out), re.M))
    tail = ['declare ' + v for k, v in sorted(decl.items()) if k not in have]
    for s in ctdecl:
        cs, ret, ps = redirect[s]
        if cs not in have:
            tail.append('declare %s @%s(%s)' % (ret, cs, ', '.join(p.replace(' sret', '') for p in ps)))
    # declarations must precede metadata harmlessly: they may appear anywhere at top level
    if log is not None:
        log['unsupported'] = unsup
        log['float_ops'] = sum(1 for l in out if '@__vc_' in l and l.startswith('  '))
        log['redirected'] = sorted(ctdecl)
    return '\n'.join(out) + '\n' + '\n'.join(tail) + '\n'
