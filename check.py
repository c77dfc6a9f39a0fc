#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep] [--unit NAME]
Decides one property: builds the verifier from /repo's working tree, generates the proof obligations of every unit of the
property (and of every unit whose contract those units rely on), discharges them, replays counterexamples."""
import sys, os, json, time, threading, subprocess, hashlib, shutil, struct
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/tools')
import build as B
import prove as P
import exact as X
sys.setrecursionlimit(20000)

NPROC = int(os.environ.get('VC_JOBS', '8'))
_cache = {}


def load_unit(path):
    u = _cache.get(path)
    if u is None:
        if len(_cache) > 6:
            _cache.clear()
        u = P.UnitObl(json.load(open(path)))
        _cache[path] = u
    return u


ENOUGH = 12
LADDER_Q = [('z3', 2), ('cvc5', 3), ('z3-4.8', 4), ('z3-nlsat', 6), ('cvc5-cov', 8), ('z3', 20)]
LADDER_T = LADDER_Q + [('cvc5-cov', 60), ('z3-nlsat', 60), ('z3', 120)]


def prove_one(task):
    """a goal proved from some facts is proved from any set of facts that contains them"""
    path, facts, goal, cdir, tier = task
    u = load_unit(path)
    memo = u.__dict__.setdefault('memo', {}).setdefault(goal, [])
    fs = frozenset(facts)
    for m, by in memo:
        if m <= fs:
            return {'status': 'proved', 'by': by, 'time': 0.0, 'tries': [], 'cached': True}
    r = prove_alone(task)
    used = r.pop('used', None)
    if r['status'] == 'proved' and used is not None:
        memo.append((frozenset(used), r['by']))
    return r


def prove_alone(task):
    path, facts, goal, cdir, tier = task
    u = load_unit(path)
    t0 = time.time()
    res = {'status': 'unknown', 'by': None, 'time': 0.0, 'tries': []}
    g = u.bools[goal]
    if g[0] == 'T':
        return dict(res, status='proved', by='syntactic', used=[])
    # implications: move premises to the facts
    facts = list(facts)
    if goal in facts:
        return dict(res, status='proved', by='syntactic', used=[goal])
    if g[0] == '=':
        try:
            for expand in ([False, True] if u.defs else [False]):
                for fs in ([], u.slice(facts, goal, expand)):
                    if u.poly_eq(fs, goal, expand):
                        return dict(res, status='proved', by='field-normaliser', time=time.time() - t0, used=fs)
        except RecursionError:
            pass
    sl = u.slice(facts, goal)
    if g[0] == 'F':
        sl = facts       # the path itself must be contradictory
    if g[0] == 'F' and u.focus:
        near = [f for f in facts if u.bv(f) <= u.focus]
        r, out, dt = P.run_solver('z3', u.smt(near, goal)[0], 2)
        res['tries'].append(['z3(focus)', r, round(dt, 3)])
        if r == 'unsat':
            return dict(res, status='proved', by='z3', time=time.time() - t0, used=near)
    full = sl
    if u.defs:
        full = facts if g[0] == 'F' else u.slice(facts, goal, True)
    text, vs, hasfun = u.smt(full, goal, True)
    h = hashlib.sha256(text.encode()).hexdigest()
    cf = cdir + '/' + h
    if os.path.exists(cf):
        try:
            r = json.load(open(cf))
            r['cached'] = True
            r['used'] = full
            return r
        except Exception:
            pass
    used = full
    # abbreviations as plain variables first
    if u.defs:
        t1, _, _ = u.smt(sl, goal)
        if t1 != text:
            for sv, to in (('z3', 2), ('cvc5', 2), ('z3-nlsat', 2)):
                r, out, dt = P.run_solver(sv, t1, to)
                res['tries'].append([sv + '(short)', r, round(dt, 3)])
                if r == 'unsat':
                    used = sl
                    res.update(status='proved', by=sv.split('-nl')[0])
                if r != 'unknown':
                    break
    # a smaller fact set first: facts over the goal's own variables
    gv = u.bv(goal)
    small = [f for f in sl if u.bv(f) <= gv]
    tiers = LADDER_T if tier == 'thorough' else LADDER_Q[:2] if tier == 'short' else LADDER_Q
    if res['status'] != 'proved' and g[0] != 'F' and len(small) < len(sl):
        t2, _, _ = u.smt(small, goal)
        r, out, dt = P.run_solver('z3', t2, 1)
        res['tries'].append(['z3(small)', r, round(dt, 3)])
        if r == 'unsat':
            used = small
            res.update(status='proved', by='z3')
    if res['status'] != 'proved':
        for s, to in tiers:
            r, out, dt = P.run_solver(s, text, to)
            res['tries'].append([s, r, round(dt, 3)])
            if r == 'unsat':
                res.update(status='proved', by=s.split('-nl')[0].split('-cov')[0])
                break
            if r == 'sat':
                r2, out2, _ = P.run_solver(s, text, to * 2, model_vars=vs) if vs else (r, '', 0)
                m = P.parse_model(out2) if vs else {}
                res.update(status='sat', by=s, hasfun=hasfun, model={u.nodes[k][1]: v for k, v in m.items() if u.nodes[k][0] == 'v'}, out=out2[:4000])
                break
    res['time'] = time.time() - t0
    try:
        tmp = cf + '.%d' % os.getpid()
        json.dump(res, open(tmp, 'w'))
        os.rename(tmp, cf)
    except Exception:
        pass
    return dict(res, used=used)


def cover_one(task):
    path, covers = task
    u = load_unit(path)
    T = len(u.bools)
    F = next(i for i, b in enumerate(u.bools) if b[0] == 'F')
    st = 'none'
    t0 = time.time()
    for facts in covers:
        if not facts:
            return 'sat'
        if time.time() - t0 > 40:
            return 'unknown'
        text, vs, _ = u.smt(facts, F, True)
        r, _, _ = P.run_solver('z3', text, 3)
        if r == 'sat':
            return 'sat'
        st = r if st in ('none', 'unsat') else st
    return st


def hexf(v):
    return '%016x' % struct.unpack('>Q', struct.pack('>d', v))[0]


class Check:
    def __init__(self, prop, tier, seed, keep=False, only=None):
        self.prop, self.tier, self.seed, self.keep, self.only = prop, tier, seed, keep, only
        self.t0 = time.time()
        self.wd = '%s/build/%s-%d' % (VERIF, prop, os.getpid())
        self.lock, self.cuts, self.dropped = threading.Lock(), {}, {}
        self.tl = threading.local()
        self.nbase = 0
        self.budget = 780 if tier == 'quick' else 3000

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run(self):
        os.makedirs(self.wd + '/u', exist_ok=True)
        os.makedirs(self.wd + '/cache', exist_ok=True)
        try:
            self.info = B.build(self.wd)
        except B.BuildError as e:
            print('ERROR: build failed\n' + str(e))
            return 2
        units = [json.loads(l) for l in subprocess.run([self.wd + '/vcsym', 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
        self.units = {u['name']: u for u in units}
        todo = [u['name'] for u in units if self.prop in u['props'] and (not self.only or self.only in u['name'])]
        if not todo:
            print('ERROR: no unit for ' + self.prop)
            return 2
        done = {}
        prov = {}
        for u in units:
            for t in u['targets']:
                prov.setdefault(t, []).append(u['name'])
        self.pool = ProcessPoolExecutor(NPROC)
        while todo:
            if any(self.units[n].get('merged') for n in todo) and not os.path.exists(self.wd + '/vcsymm'):
                try:
                    B.build_merged(self.wd)
                except Exception as e:
                    print('note: no if-converted build (%s)' % str(e)[:300])
                    shutil.copy(self.wd + '/vcsym', self.wd + '/vcsymm')
            with ThreadPoolExecutor(NPROC) as ex:
                outs = list(ex.map(self.symex, todo))
            for n, o in zip(todo, outs):
                done[n] = o
            need = []
            for n in todo:
                for c in done[n].get('contracts_used', []):
                    if c not in prov:
                        print('ERROR: contract %s is not verified by any unit' % c)
                        return 2
                    for v in prov[c]:
                        if v not in done and v not in need:
                            need.append(v)
            todo = [] if self.only else need
        self.done = done
        t_sym = time.time() - self.t0
        rc = self.prove()
        self.pool.shutdown(cancel_futures=True)
        return rc

    def symex(self, name):
        f = '%s/u/%s.json' % (self.wd, hashlib.md5(name.encode()).hexdigest())
        b = 240 if self.tier == 'quick' else 1200
        hist = self.info.get('mutable_statics')
        try:
            if hist:
                # contracts describe one call on given arguments; an answer that may depend on earlier calls is not theirs to prove
                raise ValueError('the crate keeps mutable static state: ' + ', '.join(hist)[:200])
            r = subprocess.run([self.wd + ('/vcsymm' if self.units[name].get('merged') else '/vcsym'), 'unit', name, f, str(min(b, max(10, self.left() - 200)))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=b + 60)
            d = json.load(open(f))
        except Exception as e:
            err = ''
            try:
                err = r.stderr[-500:]
            except Exception:
                pass
            d = {'unit': name, 'undecided': str(e) if hist else 'symbolic execution failed: %s %s' % (type(e).__name__, err), 'obligations': [], 'covers': [], 'trivial': {}, 'paths': 0,
                 'completed': 0, 'feas_queries': 0, 'feas_time': 0, 'feas_timeouts': 0, 'axioms': [], 'notes': [], 'ensured': [], 'nodes': [], 'bools': []}
        d['file'] = f
        d.setdefault('contracts_used', [])
        why = self.cut_why(name)
        if why and not d['undecided']:
            # the invariant says nothing about this loop: no obligation of the unit counts, either way
            d.update(undecided='the loop is not covered by the invariant: ' + '; '.join(why)[:400], obligations=[], trivial={}, covers=[])
        return d

    def cut_why(self, name):
        cuts = self.units[name].get('cuts')
        if not cuts:
            return []
        with self.lock:
            key = json.dumps(cuts)
            if key not in self.cuts:
                try:
                    self.cuts[key] = [c['within'] + ': ' + r for c, rs in zip(cuts, B.cut_reasons(self.wd, cuts)) for r in rs]
                except Exception as e:
                    self.cuts[key] = ['loop analysis failed: %s' % str(e)[:200]]
            return self.cuts[key]

    def prove(self):
        tasks, meta = [], []
        self.sampled = []
        triv = 0
        for n, d in self.done.items():
            triv += sum(d['trivial'].values())
            seen = set()
            for k, o in enumerate(d['obligations']):
                for g in P.conjuncts(d['bools'], o['goal']):
                    key = (tuple(o['facts']), g, o['name'])
                    if key in seen:
                        continue
                    seen.add(key)
                    tasks.append((d['file'], o['facts'], g, self.wd + '/cache', self.tier))
                    meta.append((n, k, g))
        covf = {n: self.pool.submit(cover_one, (d['file'], [c['facts'] for c in d['covers']])) for n, d in self.done.items() if d['nodes'] or d['bools']}
        # the same goal from different facts: one worker, fewest facts first
        groups = {}
        for i, t in enumerate(tasks):
            groups.setdefault((t[0], t[2]), []).append(i)
        batches, cur, last = [], [], None
        for k, idx in sorted(groups.items()):
            idx.sort(key=lambda i: len(tasks[i][1]))
            for j in range(0, len(idx), 80):
                if cur and (last != k[0] or len(cur) + len(idx[j:j + 80]) > (6 if len(idx) == 1 else 80)):
                    batches.append(cur)
                    cur = []
                cur, last = cur + idx[j:j + 80], k[0]
        if cur:
            batches.append(cur)
        batches.sort(key=len, reverse=True)
        results = [None] * len(tasks)
        # enough refuted obligations of a unit: its other obligations need not be tried; out of time: the rest stays undecided
        end = self.t0 + self.budget - 150
        # rounding is outside the real-number model: units marked for it also run in machine arithmetic
        early = []
        for n in self.done:
            if self.units[n].get('sampled'):
                r = self.search(n, None, strict=False, secs=10)
                self.sampled.append({'unit': n, 'random_evaluations': self.tl.last['evals'], 'accepted': self.tl.last['accepted']})
                if r:
                    early.append((n, r['violated'], r, None))
                    end = min(end, time.time() + 60)
        fut = {self.pool.submit(prove_many, [tasks[i] for i in b], end): b for b in batches}
        refuted, looking, done_units = {}, {}, set()
        lookers = ThreadPoolExecutor(2)

        def look(m, r):
            # an input that fails on the real code settles the unit, and the check, without the rest of its proof
            n = m[0]
            d = self.search(n, m + (r,), strict=r['status'] == 'sat' and not r.get('hasfun'), secs=10)
            if d:
                open(self.done[n]['file'] + '.stop', 'w').close()
                if not os.path.exists(self.wd + '/stop'):
                    open(self.wd + '/stop', 'w').write(str(time.time() + 40))
                return (n, self.done[n]['obligations'][m[1]]['name'] if r['status'] == 'sat' else d['violated'], d, m + (r,))
            return None
        for f in as_completed(fut):
            if f.cancelled():
                continue
            for i, r in zip(fut[f], f.result()):
                results[i] = r
                if r['status'] in ('sat', 'unknown'):
                    l = looking.setdefault(meta[i][0], [])
                    nm = self.done[meta[i][0]]['obligations'][meta[i][1]]['name']
                    if len(l) < 3 and nm not in [x[0] for x in l] and self.left() > 150:
                        l.append((nm, lookers.submit(look, meta[i], r)))
                if r['status'] == 'sat' and not r.get('hasfun'):
                    n = meta[i][0]
                    refuted[n] = refuted.get(n, 0) + 1
                    if refuted[n] == ENOUGH:
                        for g, b in fut.items():
                            if all(meta[j][0] == n for j in b):
                                g.cancel()
        for l in looking.values():
            for nm, f in l:
                x = f.result()
                if x and not any(v[0] == x[0] for v in early):
                    early.append(x)
        lookers.shutdown()
        pairs = [(m, r) for m, r in zip(meta, results) if r is not None]
        meta, results = [p[0] for p in pairs], [p[1] for p in pairs]
        by, stime = {}, 0.0
        failed, unknown = [], []
        for (n, k, g), r in zip(meta, results):
            if r['status'] == 'proved':
                by[r['by']] = by.get(r['by'], 0) + 1
            elif r['status'] == 'sat':
                failed.append((n, k, g, r))
            elif r['status'] == 'unknown':
                unknown.append((n, k, g, r))
            if not r.get('cached'):
                stime += r['time']
        if os.environ.get('VC_PROFILE'):
            prof = {}
            for (n, k, g), r in zip(meta, results):
                x = prof.setdefault((n, self.done[n]['obligations'][k]['name']), [0, 0.0, 0])
                x[0] += 1
                x[1] += r['time'] if not r.get('cached') else 0
                x[2] += 0 if r.get('cached') else 1
            for k, x in sorted(prof.items(), key=lambda y: -y[1][1])[:25]:
                print('PROFILE %8.1fs %6d (%d not memoised) %s' % (x[1], x[0], x[2], k))
        vac = [n for n, f in covf.items() if f.result() == 'unsat' or not self.done[n]['covers']]
        ndis = sum(by.values()) + triv
        nobl = len(tasks) + triv
        und_units = [(n, d['undecided']) for n, d in self.done.items() if d['undecided']]
        bounded = []
        violations = early
        # ---- counterexamples
        groups = {}
        for x in failed:
            groups.setdefault((x[0], self.done[x[0]]['obligations'][x[1]]['name']), []).append(x)
        for (n, name), xs in groups.items():
            if len(violations) >= 3 or any(v[0] == n and v[2] for v in violations):
                continue
            rep = None
            for x in xs[:4]:
                if self.left() < 100:
                    break
                rep = self.search(n, x, strict=not x[3].get('hasfun'), secs=8 if len(groups) > 3 else 15)
                if rep:
                    break
            if rep:
                violations.append((n, name, rep, xs[0]))
            elif all(x[3].get('hasfun') for x in xs):
                # the counterexample may be an artefact of the uninterpreted functions: undecided
                unknown.extend(xs)
                for x in xs:
                    x[3]['status'] = 'unknown'
            else:
                violations.append((n, name, None, next(x for x in xs if not x[3].get('hasfun'))))
        # ---- undecided obligations: bounded stand-in
        und = {}
        for n, k, g, r in unknown:
            und.setdefault(n, []).append((n, k, g, r))
        for n, why in und_units:
            und.setdefault(n, [])
        evals = acc = 0
        for n, xs in und.items():
            if any(v[0] == n and v[2] for v in violations):
                continue
            r = self.search(n, None, strict=False, secs=min(20, max(3, 120 / len(und))))
            bounded.append({'unit': n, 'undischarged': sorted({self.done[n]['obligations'][x[1]]['name'] for x in xs}), 'why': self.done[n]['undecided'] or 'solvers gave up',
                            'random_evaluations': self.tl.last['evals'], 'accepted': self.tl.last['accepted']})
            if r:
                violations.append((n, r['violated'], r, xs[0] if xs else None))
        for n in vac:
            if not self.done[n]['undecided']:
                r = self.search(n, None, strict=False, secs=2)
                if not r and self.tl.last['accepted'] == 0:
                    print('ERROR: unit %s is vacuous (no satisfiable path with an obligation)' % n)
                    if not violations:
                        self.evidence(nobl, ndis, by, stime, bounded, violations, vac)
                        return 2
        self.evidence(nobl, ndis, by, stime, bounded, violations, vac)
        for n in sorted(self.done):
            d = self.done[n]
            print('unit %-60s paths %-5d obligations %-5d%s' % (n, d['paths'], len(d['obligations']) + sum(d['trivial'].values()), '  UNDECIDED: ' + d['undecided'] if d['undecided'] else ''))
        print('obligations %d discharged %d (%s) solver time %.1fs wall %.1fs' % (nobl, ndis, ', '.join('%s %d' % x for x in sorted(by.items())), stime, time.time() - self.t0))
        for b in bounded:
            print('bounded stand-in (not proved): %s' % json.dumps(b))
        if os.environ.get('VC_VERBOSE'):
            for n, k, g, r in unknown:
                print('UNKNOWN', n, self.done[n]['obligations'][k]['name'], g, r['tries'], self.done[n]['obligations'][k]['choices'])
            for n, k, g, r in failed:
                print('SAT', n, self.done[n]['obligations'][k]['name'], g, r.get('model'), self.done[n]['obligations'][k]['choices'])
        known = load_known(self.prop)
        rc = 0
        os.makedirs(VERIF + '/replays', exist_ok=True)
        seen = set()
        for k in known:
            # the recorded input, on the real code
            if 'input' in k and self.fails(k):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for i, (n, name, rep, x) in enumerate(violations):
            kf = next((k for k in known if k['unit'] == n and k['obligation'] == name and 'input' not in k), None)
            if kf:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kf['what']))
                continue
            path = '%s/replays/%s-%d.json' % (VERIF, self.prop, i)
            rec = {'property': self.prop, 'unit': n, 'failed_obligation': name}
            if x:
                rec['path'] = self.done[n]['obligations'][x[1]]['choices']
                rec['verifier'] = {'result': x[3]['status'], 'solver': x[3]['by'], 'tries': x[3]['tries'], 'model': x[3].get('model'), 'output': x[3].get('out', '')[:2000]}
            if rep:
                rec['failing_input'] = rep
                rec['replay'] = 'python3 /verif/replay.py %s' % path
            json.dump(rec, open(path, 'w'), indent=1)
            print('failed obligation: %s :: %s' % (n, name))
            rc = 1
            if not rep and any(v[2] for v in violations):
                continue     # reported with the failing input of another obligation
            if rep:
                print('  failing input on the real code: %s' % json.dumps({k: v[0] for k, v in rep['values'].items()}))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            else:
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, path))
        return rc

    def search(self, n, x, strict, secs, iters=400000):
        """a failing input on the real code. Machine arithmetic rounds: a candidate is run again in exact arithmetic, and what
        fails only by rounding is dropped; where that run settles nothing, only a coarse failure counts"""
        base = []
        if x:
            base += ['v %s %s\n' % (hexf(v), k) for k, v in (x[3].get('model') or {}).items()]
            base += ['c %d %s\n' % (v, k) for k, v in self.done[x[0]]['obligations'][x[1]]['choices']]
        self.tl.last = {'evals': 0, 'accepted': 0}
        t0, k = time.time(), 0
        while k < 16 and (k == 0 or time.time() - t0 < secs):
            d = self.search1(n, base, strict, max(2, secs - (time.time() - t0)), self.seed + k, 10 ** min(k, 3), iters)
            if not d or self.units[n].get('sampled'):
                return d
            v, why = self.exact(n, d)
            if v == 'real' or (v == 'unknown' and k >= 3):
                d['in_exact_arithmetic'] = 'fails' if v == 'real' else 'not settled: %s' % why
                return d
            self.dropped[n] = self.dropped.get(n, 0) + 1
            k = k + 1 if v == 'rounding' else max(k + 1, 3)
        return None

    def search1(self, n, base, strict, secs, seed, tol, iters):
        with self.lock:
            self.nbase += 1
            bf = '%s/base.%d' % (self.wd, self.nbase)
        with open(bf, 'w') as f:
            f.write(''.join(base))
        try:
            r = subprocess.run([self.wd + '/vcconc', 'search', n, bf, str(iters), str(seed), '%.1f' % secs, '1' if strict else '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 30,
                               env=dict(os.environ, VC_TOL=str(tol)))
            d = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            return None
        if 'evals' in d:
            self.tl.last = {k: self.tl.last[k] + d[k] for k in ('evals', 'accepted')}
        return d if d.get('violated') else None

    def exact(self, n, d):
        with self.lock:
            self.nbase += 1
            bf = '%s/fix.%d' % (self.wd, self.nbase)
        with open(bf, 'w') as f:
            for k, v in d['values'].items():
                f.write('v %s %s\n' % (v[1], k))
            for k, v in d['choices']:
                f.write('c %d %s\n' % (v, k))
        try:
            subprocess.run([self.wd + '/vcsym', 'exact', n, bf + '.json', '10', bf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=40)
            return X.verdict(json.load(open(bf + '.json')))
        except Exception as e:
            return 'unknown', repr(e)

    def fails(self, k):
        bf = '%s/known.%d' % (self.wd, os.getpid())
        with open(bf, 'w') as f:
            for n, v in k['input'].items():
                f.write('v %s %s\n' % (hexf(float(v)), n))
        try:
            r = subprocess.run([self.wd + '/vcconc', 'replay', k['unit'], bf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=30)
            return json.loads(r.stdout.strip().splitlines()[-1]).get('violated') == k['obligation']
        except Exception:
            return False

    def evidence(self, nobl, ndis, by, stime, bounded, violations, vac):
        fn = sorted({t for n in self.done for t in self.units[n]['targets']})
        existing = set(self.info['functions'])
        ax = sorted({a for d in self.done.values() for a in d['axioms']})
        notes = sorted({a for d in self.done.values() for a in d['notes']})
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof',
            'coverage': {
                'obligations': nobl, 'discharged': ndis,
                'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (self.prop, self.tier),
                'trusted_base': TRUSTED,
                'functions_under_contract': fn,
                'functions_not_found_in_this_tree': [f for f in fn if f.split(' on a ')[0] not in existing],
                'units': len(self.done), 'paths': sum(d['paths'] for d in self.done.values()),
                'discharged_by': dict(by, syntactic=by.get('syntactic', 0) + (ndis - sum(by.values()))),
                'solver_time_s': round(stime, 2),
                'feasibility_queries': sum(d['feas_queries'] for d in self.done.values()),
                'feasibility_timeouts_explored_anyway': sum(d['feas_timeouts'] for d in self.done.values()),
                'callee_contracts_relied_on': sorted({c for d in self.done.values() for c in d['contracts_used']}),
                'contracts_not_bound_to_this_tree': self.info['unbound_contracts'],
                'undischarged_bounded_stand_ins': bounded,
                'candidate_inputs_dropped_as_rounding': self.dropped,
                'also_sampled_in_machine_arithmetic_bounded': self.sampled,
                'bounded_units': [{'unit': n, 'bound': self.units[n]['bounded']} for n in self.done if self.units[n]['bounded']],
                'mathematical_axioms_used': ax, 'notes': notes,
                'float_operations_instrumented': self.info['float_ops'],
                'loop_cuts_checked': {k: v for k, v in ((c['within'] + ' @ ' + c['at'], self.cuts.get(json.dumps(self.units[n]['cuts']), [])) for n in self.done for c in self.units[n].get('cuts', []))},
                'build_s': self.info['build_s'],
            },
            'assumptions': ASSUME,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(violations),
        }
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)

    def clean(self):
        if not self.keep:
            shutil.rmtree(self.wd, ignore_errors=True)


def stopped(path):
    f = os.path.dirname(os.path.dirname(path)) + '/stop'
    return os.path.exists(f) and time.time() > float(open(f).read() or 'inf')


def prove_many(ts, end):
    out, ref, unk = [], 0, 0
    for t in ts:
        try:
            stop = ref >= ENOUGH or os.path.exists(t[0] + '.stop') or stopped(t[0])
            if time.time() > end or stop:
                out.append({'status': 'skipped' if stop else 'unknown', 'by': None, 'time': 0, 'tries': [['out of time', '', 0]]})
                continue
            # a unit that is undecided anyway: only short attempts at the rest
            out.append(prove_one(t if unk < 3 else t[:4] + ('short',)))
            unk += out[-1]['status'] == 'unknown'
            if out[-1]['status'] == 'sat' and not out[-1].get('hasfun'):
                ref += 1
        except Exception as e:
            out.append({'status': 'unknown', 'by': None, 'time': 0, 'tries': [['internal', repr(e), 0]]})
    return out


def load_known(prop):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                k = json.loads(l[7:])
                if k['property'] == prop:
                    out.append(k)
    return out


TRUSTED = [
    'rustc (MIR to LLVM IR at opt-level 0) and llc for the instrumented build',
    'tools/instrument.py (textual rewriting of float instructions and of calls to functions under contract)',
    'vc/rt/sym.rs (path enumeration, term construction), tools/prove.py, tools/poly.py (exact rational polynomial normaliser)',
    'SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (unsat answers)',
    'Rust core/alloc library code not generic over this crate (Vec allocation, panic machinery)',
]
ASSUME = [
    'machine floating point arithmetic is treated as exact real arithmetic extended with NaN and +-infinity: rounding, overflow, underflow and the sign of zero are not modelled',
    'sin, cos, acos, atan2, ln, exp, pow are taken as the mathematical functions, known only through the axioms listed in DESIGN.md',
    'contracts of functions listed in callee_contracts_relied_on are used at call sites; the same run verifies those functions against them',
]


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        a.remove(tier)
    only = None
    if '--unit' in sys.argv:
        only = sys.argv[sys.argv.index('--unit') + 1]
        a.remove(only)
    c = Check(a[0], tier, int(os.environ.get('VERIF_SEED', '1')), '--keep' in sys.argv, only)
    try:
        rc = c.run()
    finally:
        c.clean()
    sys.exit(rc)


if __name__ == '__main__':
    main()
