"""Builds, from /repo's current working tree, (1) the instrumented verifier binary and (2) the plain replay binary."""
import re, os, subprocess, sys, glob, json, time, shutil
sys.path.insert(0, os.path.dirname(__file__))
import instrument, loopstate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
RUSTC = ['rustup', 'run', 'stable', 'rustc']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-6000:])
    return r.stdout


def rustc_cmd():
    for c in (['rustc', '+stable'], ['rustc']):
        try:
            subprocess.run(c + ['--version'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return c
        except Exception:
            pass
    raise BuildError('no rustc')


def tools():
    rc = rustc_cmd()
    root = sh(rc + ['--print', 'sysroot']).strip()
    b = root + '/lib/rustlib/x86_64-unknown-linux-gnu/bin/'
    return rc, b + 'llc', b + 'llvm-ar'


COMMON = ['-C', 'opt-level=0', '-C', 'debuginfo=0', '-C', 'overflow-checks=on', '-C', 'debug-assertions=on', '-C', 'codegen-units=1',
          '-C', 'symbol-mangling-version=v0', '-A', 'warnings', '--cfg', 'mazth_vc']


def replace_object(ar, rlib, obj):
    ms = [m for m in sh([ar, 't', rlib]).split() if m.endswith('.o')]
    if len(ms) != 1:
        raise BuildError('expected one object in %s, got %s' % (rlib, ms))
    d = os.path.dirname(obj)
    tmp = os.path.join(d, ms[0])
    os.rename(obj, tmp)
    sh([ar, 'd', rlib, ms[0]])
    sh([ar, 'r', rlib, tmp])
    os.unlink(tmp)


def build(wd, log=None, want=('sym', 'conc')):
    os.makedirs(wd, exist_ok=True)
    rc, llc, ar = tools()
    t0 = time.time()
    info = {}
    H = VERIF + '/vc/harness/lib.rs'
    procs = []

    def p(cmd):
        return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def w(pr, what):
        o, e_ = pr.communicate()
        if pr.returncode != 0:
            raise BuildError(what + '\n' + e_[-6000:])

    S, C = wd + '/s', wd + '/c'
    os.makedirs(S, exist_ok=True)
    os.makedirs(C, exist_ok=True)
    src = REPO + '/lib/mod.rs'
    mz = rc + ['--edition', '2015', '--crate-name', 'mazth', '--crate-type', 'rlib', src] + COMMON
    # phase 1: crate and runtime, both flavours
    ps = []
    if 'sym' in want:
        ps.append(('mazth', p(mz + ['--emit=llvm-ir,link', '--out-dir', S])))
        ps.append(('rt', p(rc + ['--edition', '2021', '--crate-name', 'vcrt', '--crate-type', 'rlib', VERIF + '/vc/rt/lib.rs', '-C', 'opt-level=1',
                                 '-C', 'symbol-mangling-version=v0', '-A', 'warnings', '--out-dir', S])))
    if 'conc' in want:
        # the replay build: the crate as cargo builds it (no verifier cfg in the replay crate except the hook guard, which is inert there)
        ps.append(('mazth-c', p(mz + ['--emit=link', '--out-dir', C])))
        ps.append(('rt-c', p(rc + ['--edition', '2021', '--crate-name', 'vcrt', '--crate-type', 'rlib', VERIF + '/vc/rt/lib.rs', '-C', 'opt-level=1',
                                   '--cfg', 'concrete', '-A', 'warnings', '--out-dir', C])))
    for n, q in ps:
        w(q, n)
    # phase 2: harness crates
    ps = []
    har = rc + ['--edition', '2021', '--crate-name', 'harness', '--crate-type', 'rlib', H] + COMMON
    for d in ([S] if 'sym' in want else []):
        ps.append(('harness', p(har + ['--emit=llvm-ir,link', '--out-dir', d, '--extern', 'mazth=%s/libmazth.rlib' % d, '--extern', 'vcrt=%s/libvcrt.rlib' % d])))
    if 'conc' in want:
        ps.append(('harness-c', p(har + ['--cfg', 'concrete', '--emit=link', '--out-dir', C, '--extern', 'mazth=%s/libmazth.rlib' % C, '--extern', 'vcrt=%s/libvcrt.rlib' % C])))
    for n, q in ps:
        w(q, n)
    if 'sym' in want:
        info['mutable_statics'] = [m.group(1) for m in re.finditer(r'^@(\S+) = [^\n]*?\b(?:external )?global\b', open(S + '/mazth.ll').read(), re.M)]
        mt = instrument.summaries(open(S + '/mazth.ll').read())
        ht = open(S + '/harness.ll').read()
        mi, hi = instrument.index(mt), instrument.index(ht)
        redirect, missing = {}, []
        cts = [(v[0].strip('"')[3:], v) for k, v in hi.items() if v[0].startswith('"ct:')]
        for name, (sym, ret, ps_) in cts:
            t = mi.get(name)
            if t is None:
                missing.append(name + ' (no such function)')
            elif (t[1], t[2]) != (ret, ps_):
                missing.append(name + ' (signature differs)')
            else:
                redirect[t[0]] = (sym, ret, ps_)
        # hooks that run after a function: loop invariants at its call sites
        hooks = {}
        for k, v in hi.items():
            if v[0].startswith('"after:'):
                name = v[0].strip('"')[6:]
                t = mi.get(name)
                ps_ = [p.split()[0] for p in v[2]]
                if t is None:
                    missing.append(name + ' (no such function)')
                elif (t[1] == 'void' and v[1] == 'void' and [p.split()[0] for p in t[2]] == ps_) or (t[1] != 'void' and v[1] == t[1] and [t[1]] + [p.split()[0] for p in t[2]] == ps_):
                    hooks[t[0]] = (v[0], t[1], t[2])
                else:
                    missing.append(name + ' (signature differs)')
        json.dump(hooks, open(S + '/hooks.json', 'w'))
        mt = instrument.afters(mt, hooks)
        l1, l2 = {}, {}
        m2 = instrument.rewrite(mt, redirect, None, l1)
        json.dump(redirect, open(S + '/redirect.json', 'w'))
        h2 = instrument.rewrite(ht, redirect, ['harness::', '<harness::', 'ct:'], l2)
        open(S + '/mazth.i.ll', 'w').write(m2)
        open(S + '/harness.i.ll', 'w').write(h2)
        q1 = p([llc, '-O0', '-filetype=obj', '-relocation-model=pic', S + '/mazth.i.ll', '-o', S + '/mz.o'])
        q2 = p([llc, '-O0', '-filetype=obj', '-relocation-model=pic', S + '/harness.i.ll', '-o', S + '/hz.o'])
        w(q1, 'llc mazth')
        w(q2, 'llc harness')
        replace_object(ar, S + '/libmazth.rlib', S + '/mz.o')
        replace_object(ar, S + '/libharness.rlib', S + '/hz.o')
        info.update(functions=sorted(k for k in mi if k.startswith(('mazth::', '<mazth::'))), contract_stubs=sorted(n for n, _ in cts), unbound_contracts=missing,
                    float_ops=l1['float_ops'], unsupported=l1['unsupported'])
    # phase 3: mains
    open(wd + '/main.rs', 'w').write('fn main(){ harness::main_entry(); }\n')
    ps = []
    if 'sym' in want:
        ps.append(('main', p(rc + ['--edition', '2021', '--crate-name', 'vcsym', wd + '/main.rs', '-o', wd + '/vcsym', '-L', S, '--extern', 'harness=%s/libharness.rlib' % S])))
    if 'conc' in want:
        ps.append(('main-c', p(rc + ['--edition', '2021', '--crate-name', 'vcconc', wd + '/main.rs', '-o', wd + '/vcconc', '-L', C, '--extern', 'harness=%s/libharness.rlib' % C])))
    for n, q in ps:
        w(q, n)
    info['build_s'] = round(time.time() - t0, 2)
    json.dump(info, open(wd + '/build.json', 'w'))
    return info


def cut_reasons(wd, cuts):
    """for each cut of a loop by an invariant: why the cut might not be sound (nothing: it is)"""
    rc, llc, ar = tools()
    L = wd + '/l'
    os.makedirs(L, exist_ok=True)
    env = dict(os.environ, RUSTC_BOOTSTRAP='1')
    sh(rc + ['--edition', '2015', '--crate-name', 'mazth', '--crate-type', 'rlib', REPO + '/lib/mod.rs'] + [x.replace('opt-level=0', 'opt-level=1') for x in COMMON] +
       ['-C', 'no-prepopulate-passes', '-Z', 'inline-mir=no', '--emit=llvm-ir', '-o', L + '/a.ll'], env=env)
    sh([os.path.dirname(llc) + '/opt', '-passes=function(sroa,simplifycfg)', '-S', L + '/a.ll', '-o', L + '/b.ll'])
    ix = instrument.index(open(L + '/a.ll').read())
    text = open(L + '/b.ll').read()
    out = []
    for c in cuts:
        miss = [n for n in [c['within'], c['at']] + c['frozen'] if n not in ix]
        if miss:
            out.append(['no function ' + n for n in miss])
            continue
        f, a = ix[c['within']][0], ix[c['at']][0]
        why, frozen = [], []
        F = loopstate.functions(text).get(f)
        ps = loopstate.Fn(F).params if F else []
        if c['frozen']:
            why += loopstate.unchanged(text, [ix[n][0] for n in c['frozen']])
            frozen = ps
        if c['list']:
            w, _ = loopstate.list_only(text, f, a)
            why += w
        why += loopstate.carried(text, f, a, forgotten=ps[:1] if c['forgets_self'] else (), iterators=c['list'], frozen=frozen)
        out.append(why)
    return out


def build_merged(wd):
    """second verifier binary: the same IR, with LLVM's if-conversion applied to the crate before instrumentation, so that
    min/max chains become conditional terms instead of paths"""
    rc, llc, ar = tools()
    S, M = wd + '/s', wd + '/m'
    os.makedirs(M, exist_ok=True)
    redirect = json.load(open(S + '/redirect.json'))
    hooks = json.load(open(S + '/hooks.json'))
    t = instrument.rewrite(instrument.afters(instrument.summaries(open(S + '/mazth.ll').read()), hooks), redirect, None, None, floats=False)
    open(M + '/a.ll', 'w').write(t)
    sh([os.path.dirname(llc) + '/opt', '-O2', '-vectorize-slp=false', '-vectorize-loops=false', '-S', M + '/a.ll', '-o', M + '/b.ll'])
    t = instrument.rewrite(instrument.merge_selects(open(M + '/b.ll').read()), {}, None, None)
    open(M + '/c.ll', 'w').write(t)
    sh([llc, '-O0', '-filetype=obj', '-relocation-model=pic', M + '/c.ll', '-o', M + '/mz.o'])
    for f in ('libmazth.rlib', 'libvcrt.rlib', 'libharness.rlib'):
        shutil.copy(S + '/' + f, M + '/' + f)
    replace_object(ar, M + '/libmazth.rlib', M + '/mz.o')
    sh(rc + ['--edition', '2021', '--crate-name', 'vcsym', wd + '/main.rs', '-o', wd + '/vcsymm', '-L', M, '--extern', 'harness=%s/libharness.rlib' % M])


if __name__ == '__main__':
    i = build(sys.argv[1], want=tuple(sys.argv[2].split(',')) if len(sys.argv) > 2 else ('sym', 'conc'))
    i.pop('functions', None)
    print(i)
