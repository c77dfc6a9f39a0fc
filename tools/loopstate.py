"""Which state does a loop carry past a cut?

A loop invariant is used by cutting the loop at a call of one function: the hook that runs after that call proves the
invariant, forgets the state and goes on from any state that satisfies it.  That is sound only if what the hook forgets
is all the state that a later round can see.  This module computes, from LLVM IR that rustc emits with lifetime markers,
the state that is alive at the cut and may differ between rounds; what the hook does not forget is reported, and the
unit that relies on the invariant is then not proved."""
import re

RE_INS = re.compile(r'^  (?:(%\S+) = )?(.*)$')
RE_VAL = re.compile(r'%(?:"[^"]*"|[-\w.$]+)')
RE_LABEL = re.compile(r'^("[^"]*"|[-\w.$]+):')


def functions(text):
    out, cur = {}, None
    for line in text.split('\n'):
        if line.startswith('define '):
            m = re.match(r'^define .*?@("[^"]*"|[-\w.$]+)\(', line)
            cur = (m.group(1), [line])
        elif cur is not None:
            cur[1].append(line)
            if line == '}':
                out[cur[0]] = cur[1]
                cur = None
    return out


class Fn:
    def __init__(self, lines):
        self.params = RE_VAL.findall(lines[0].split('@', 1)[1])
        self.head = lines[0]
        self.blocks, self.order = {}, []
        b, cont = None, None
        for l in lines[1:-1]:
            m = RE_LABEL.match(l)
            if m and not l.startswith(' '):
                b = '%' + m.group(1)
                self.blocks[b] = []
                self.order.append(b)
            elif l.startswith('  ') and b:
                if l.startswith('   ') and self.blocks[b]:
                    self.blocks[b][-1] += ' ' + l.strip()
                else:
                    self.blocks[b].append(l.strip())
        self.succ = {b: [x for x in re.findall(r'label (%(?:"[^"]*"|[-\w.$]+))', ins[-1])] if ins else [] for b, ins in self.blocks.items()}
        for b, ins in self.blocks.items():
            if ins and ins[-1].startswith('switch'):
                self.succ[b] = re.findall(r'label (%(?:"[^"]*"|[-\w.$]+))', ins[-1])

    def reach(self, src):
        seen, todo = set(), list(self.succ[src])
        while todo:
            x = todo.pop()
            if x not in seen and x in self.blocks:
                seen.add(x)
                todo.extend(self.succ[x])
        return seen

    def defs(self, ins):
        m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = ', ins)
        return m.group(1) if m else None

    def uses(self, ins):
        d = self.defs(ins)
        body = ins[ins.index(' = ') + 3:] if d else ins
        body = re.sub(r'label %(?:"[^"]*"|[-\w.$]+)', '', body)
        body = re.sub(r', !.*$', '', body)
        if body.startswith('phi '):
            return []
        return RE_VAL.findall(body)

    def phis(self, b):
        out = []
        for ins in self.blocks[b]:
            d = self.defs(ins)
            if d and ins[len(d) + 3:].startswith('phi '):
                out.append((d, [(v.strip(), p) for v, p in re.findall(r'\[ (.*?), (%(?:"[^"]*"|[-\w.$]+)) \]', ins)]))
        return out


def carried(text, fn, callee, forgotten=(), iterators=False, frozen=()):
    """state of function fn (a symbol) that may differ between two rounds of the loop around its one call of callee and that is
    alive right after the call.  forgotten: parameters of fn whose memory the hook forgets.  iterators: the object passed to callee
    is the position in a list, and is allowed.  Returns (list of reasons); empty means that the cut is sound."""
    fs = functions(text)
    sites = [(f, l) for f, ls in fs.items() for l in ls if re.search(r'(call|invoke) .*@' + re.escape(callee) + r'\(', l)]
    inside = [s for s in sites if s[0] == fn]
    if fn not in fs:
        return ['function not found']
    if len(inside) != 1:
        return ['%d calls at which to cut' % len(inside)]
    if not iterators and len(sites) != 1:
        return ['called from elsewhere too']
    why = []
    # mutable globals would be state as well
    for l in text.split('\n'):
        if re.match(r'^@\S+ = .*\bglobal\b', l) and 'external' not in l.split('global')[0]:
            why.append('mutable global ' + l.split(' = ')[0])
        if 'thread_local' in l and l.startswith('@'):
            why.append('thread-local ' + l.split(' = ')[0])
    F = Fn(fs[fn])
    cb, ci = next((b, i) for b, ins in F.blocks.items() for i, x in enumerate(ins) if re.search(r'(call|invoke) .*@' + re.escape(callee) + r'\(', x))
    loop = {b for b in F.reach(cb) if cb in F.reach(b)}
    if cb not in loop:
        return why + ['the call is not in a loop']
    cut = F.blocks[cb][ci]
    args = cut[cut.index('@' + callee):]
    args = set(RE_VAL.findall(args[:args.index(')') + 1] if ')' in args else args))
    args = set(RE_VAL.findall(re.sub(r' to label.*$', '', cut[cut.index('@' + callee):])))
    allocas = {}
    for ins in F.blocks[F.order[0]]:
        d = F.defs(ins)
        if d and ins[len(d) + 3:].startswith('alloca '):
            allocas[d] = 1
    # pointers derived from allocas and parameters
    root = {a: a for a in allocas}
    root.update({p: p for p in F.params})
    ch = True
    while ch:
        ch = False
        for b, ins in F.blocks.items():
            for x in ins:
                d = F.defs(x)
                if d and d not in root:
                    body = x[len(d) + 3:]
                    if body.startswith(('getelementptr', 'bitcast', 'select', 'freeze')):
                        for u in F.uses(x):
                            if u in root:
                                root[d] = root[u]
                                ch = True
                                break
    # ---- SSA values alive after the cut
    live = {b: set() for b in F.blocks}
    ch = True
    def out_of(b):
        s = set()
        for t in F.succ[b]:
            if t not in live:
                continue
            ph = F.phis(t)
            s |= live[t] - {d for d, _ in ph}
            for d, inc in ph:
                for v, p in inc:
                    if p == b and v.startswith('%'):
                        s.add(v)
        return s
    while ch:
        ch = False
        for b in reversed(F.order):
            s = out_of(b)
            for x in reversed(F.blocks[b]):
                d = F.defs(x)
                if d:
                    s.discard(d)
                s.update(F.uses(x))
            if s != live[b]:
                live[b] = s
                ch = True
    s = out_of(cb)
    for x in reversed(F.blocks[cb][ci + 1:]):
        d = F.defs(x)
        if d:
            s.discard(d)
        s.update(F.uses(x))
    own = F.defs(cut)
    # values alive only towards the exits of the loop after the cut still count: they are part of the state a round ends in
    inloop = {F.defs(x) for b in loop for x in F.blocks[b] if F.defs(x)}
    for v in sorted(s):
        if v in inloop and v != own and v not in root:
            why.append('value %s is kept' % v)
        elif v in inloop and v != own and root.get(v) not in allocas and root.get(v) not in F.params:
            why.append('value %s is kept' % v)
    # ---- memory alive at the cut and possibly written in the loop
    mark = {a for b, ins in F.blocks.items() for x in ins for a in allocas if re.search(r'@llvm\.lifetime\.(start|end)[^(]*\(.*' + re.escape(a) + r'\)', x)}
    state = {b: None for b in F.blocks}
    start = F.order[0]
    def trans(st, ins):
        st = set(st)
        for x in ins:
            m = re.search(r'@llvm\.lifetime\.(start|end)[^(]*\(.*?(%[^\s,)]+)\)', x)
            if m:
                (st.add if m.group(1) == 'start' else st.discard)(m.group(2))
        return st
    state[start] = set(allocas) - mark
    todo = [start]
    while todo:
        b = todo.pop()
        o = trans(state[b], F.blocks[b])
        for t in F.succ[b]:
            if t in state and (state[t] is None or not o <= state[t]):
                state[t] = (state[t] or set()) | o
                todo.append(t)
    alive = trans(state[cb], F.blocks[cb][:ci])
    for b in sorted(loop):
        for x in F.blocks[b]:
            if 'llvm.lifetime' in x:
                continue
            d = F.defs(x)
            body = x[len(d) + 3:] if d else x
            ptrs = set()
            if body.startswith('store '):
                m = re.search(r', ptr (%(?:"[^"]*"|[-\w.$]+))', body)
                if m:
                    ptrs.add(m.group(1))
                mv = re.match(r'store (?:volatile )?ptr (%(?:"[^"]*"|[-\w.$]+)),', body)
                if mv:
                    ptrs.add(mv.group(1))  # the address escapes
                if m and m.group(1) not in root:
                    why.append('store through %s' % m.group(1))
            elif body.startswith(('call', 'invoke', 'tail call', 'musttail', 'cmpxchg', 'atomicrmw')):
                if b == cb and F.blocks[b].index(x) == ci:
                    continue
                body = re.sub(r' to label.*$', '', body)
                mem = re.search(r'@llvm\.mem(cpy|move)', body)
                parts = split_args(body)
                for k, a in enumerate(parts):
                    vs = RE_VAL.findall(a)
                    if not vs or not a.strip().startswith('ptr'):
                        continue
                    if ' readonly ' in ' ' + a + ' ' or (mem and k == 1):
                        continue
                    ptrs.add(vs[-1])
            for q in ptrs:
                r = root.get(q)
                if r in allocas and r in alive and r not in args:
                    why.append('local %s is kept and may be written' % r)
                elif r in F.params and r not in forgotten and r not in frozen and not readonly(F.head, r):
                    why.append('parameter %s may be written' % r)
    return sorted(set(why))


def unchanged(text, fns):
    """reasons why objects behind the shared reference that each fn takes first (after a returned-value slot) might change"""
    fs, why = functions(text), []
    for f in fns:
        if f not in fs:
            why.append('%s not found' % f)
            continue
        ps = [a for a in split_args(fs[f][0]) if ' sret(' not in a]
        if not ps or ' readonly ' not in ps[0]:
            why.append('%s may change its object' % f)
    return why


def list_only(text, fn, callee):
    """the list over which fn iterates by calling callee is seen by nothing else: its pointer and its length go into the iterator,
    the iterator goes into callee.  Returns (reasons, the list's parameters)"""
    fs = functions(text)
    if fn not in fs:
        return ['function not found'], []
    F = Fn(fs[fn])
    every = [x for b in F.order for x in F.blocks[b]]
    cut = next((x for x in every if re.search(r'(call|invoke) .*@' + re.escape(callee) + r'\(', x)), None)
    if cut is None:
        return ['no call at which to cut'], []
    it = RE_VAL.findall(split_args(cut)[0])[-1]
    why, todo, lists = [], [it], set()
    seen = set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for x in every:
            if v not in F.uses(x) or 'llvm.lifetime' in x:
                continue
            d = F.defs(x)
            body = x[len(d) + 3:] if d else x
            m = re.match(r'store \S+ (%(?:"[^"]*"|[-\w.$]+)), ptr (%(?:"[^"]*"|[-\w.$]+))', body)
            if x is cut:
                continue
            elif m and m.group(2) == v:
                todo.append(m.group(1))          # what is stored in the iterator
            elif m and m.group(1) == v and m.group(2) in seen:
                pass
            elif m and m.group(1) == v:
                todo.append(m.group(2))
            elif body.startswith(('getelementptr', 'extractvalue')) and d:
                todo.append(d)
            elif re.search(r'(call|invoke) .*@\S*(IntoIterator9into_iter|slice4iter)', body) and d:
                todo.append(d)
            else:
                why.append('the list is seen by: ' + x[:160])
        src = next((x for x in every if F.defs(x) == v), None)
        if src is None:
            if v in F.params:
                lists.add(v)
            else:
                why.append('where does %s come from' % v)
        else:
            body = src[len(v) + 3:]
            if body.startswith(('extractvalue', 'getelementptr')):
                todo.extend(F.uses(src))
            elif re.search(r'(call|invoke) .*@\S*(IntoIterator9into_iter|slice4iter)', body):
                todo.extend(F.uses(src))
            elif not body.startswith('alloca'):
                why.append('where does %s come from' % v)
    return sorted(set(why)), sorted(lists)


def readonly(head, p):
    for a in split_args(head):
        if RE_VAL.findall(a)[-1:] == [p]:
            return ' readonly ' in a
    return False


def split_args(body):
    i = body.find('@')
    j = body.find('(', i) if i >= 0 else body.find('(')
    if i < 0:
        # an indirect call: the callee is a value, its arguments follow
        j = body.find('(', body.find('%'))
    if j < 0:
        return []
    d, cur, out = 0, '', []
    for ch in body[j:]:
        if ch == '(':
            d += 1
            if d == 1:
                continue
        elif ch == ')':
            d -= 1
            if d == 0:
                break
        elif ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
