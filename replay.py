#!/usr/bin/env python3
"""replay.py <replay-file>: runs the recorded failing input through the contract on the uninstrumented code of /repo.
Exit 1 when the contract is violated again, 0 when it holds."""
import sys, os, json, subprocess, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/tools')
import build as B


def main():
    d = json.load(open(sys.argv[1]))
    fi = d.get('failing_input')
    print('property %s\nunit %s\nfailed obligation: %s' % (d['property'], d['unit'], d['failed_obligation']))
    if not fi:
        print('no failing input was found; verifier output:')
        print(json.dumps(d.get('verifier'), indent=1))
        sys.exit(0)
    wd = '%s/build/replay-%d' % (VERIF, os.getpid())
    try:
        B.build(wd, want=('conc',))
        with open(wd + '/base', 'w') as f:
            for k, v in fi['values'].items():
                print('  %s = %s' % (k, v[0]))
                f.write('v %s %s\n' % (v[1], k))
            for k, v in fi['choices']:
                print('  %s: %d' % (k, v))
                f.write('c %d %s\n' % (v, k))
        r = subprocess.run([wd + '/vcconc', 'replay', d['unit'], wd + '/base'], stdout=subprocess.PIPE, text=True)
        out = json.loads(r.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    if out.get('violated'):
        print('contract violated on the real code: %s' % out['violated'])
        sys.exit(1)
    print('contract holds on this input')


if __name__ == '__main__':
    main()
