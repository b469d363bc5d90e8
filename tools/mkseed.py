#!/usr/bin/env python3
"""Developer helper: makes and verifies planted bugs.

usage: mkseed.py SPEC.py [NAME...]   SPEC defines SEEDS, a list of dicts:
  id, property, needs, what_it_breaks, edits [(file, old, new)], demo (main.rs), features, extra {name: text}
For each: patches a scratch copy, builds and tests both runtimes, runs the demo on both trees, and
writes seeded/<id>/ when everything is as required.
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(VERIF, 'tools', 'seedkit')
W = '/tmp/seedwork'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def original_lines(f):
    out = sh(f'git -C /repo blame -s {f}').stdout.splitlines()
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
    return [l.startswith('^') or base.startswith(l[:7]) for l in out]

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.isdir(W):
        sh(f'mkdir -p {W} && git -C /repo archive HEAD | tar x -C {W} && cp /repo/Cargo.lock {W}/ && cd {W} && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm base')
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        sh(f'cd {W} && git checkout -q -- .')
        touched = 0
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(W, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = f'{f}: old text occurs {t.count(old)} times: {old[:60]!r}'
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'BAD', bad); continue
        diff = sh(f'cd {W} && git diff -- src').stdout
        # which original lines does it remove?
        rm = 0; ln = 0; flags = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                flags = original_lines(l[6:])
            elif l.startswith('@@'):
                ln = int(l.split('-')[1].split(',')[0].split(' ')[0]) - 1
            elif l.startswith('-') and not l.startswith('---'):
                rm += bool(flags[ln]); ln += 1
            elif l.startswith(' '):
                ln += 1
        res = []
        for rt in ('tokio', 'async-std'):
            r = sh(f'cd {W} && cargo build --lib --examples --offline --no-default-features --features runtime-{rt} && RUSTFLAGS="--cap-lints warn" cargo test --offline --no-default-features --features runtime-{rt} --no-fail-fast', env=dict(os.environ, CARGO_TARGET_DIR='/tmp/seedtarget'))
            res.append(r.returncode)
            if r.returncode:
                print(r.stdout[-1500:], r.stderr[-2500:])
        d = os.path.join(VERIF, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        for n in ('demo.sh', 'support.rs'):
            shutil.copy(os.path.join(KIT, n), d)
        open(d + '/main.rs', 'w').write(s['demo'])
        if s.get('features'):
            open(d + '/features', 'w').write(s['features'] + '\n')
        for n, t in s.get('extra', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        # demo from a copy elsewhere
        sh(f'rm -rf /tmp/seeddemo && cp -r {d} /tmp/seeddemo && rm /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json')
        bugd = sh(f'cd {W} && bash /tmp/seeddemo/demo.sh')
        sh(f'cd {W} && git checkout -q -- .')
        clean = sh(f'cd {W} && bash /tmp/seeddemo/demo.sh')
        ok = res == [0, 0] and bugd.returncode == 1 and clean.returncode == 0 and rm > 0 and 'BROKEN' in bugd.stdout
        print(s['id'], 'OK' if ok else 'BAD', 'tests', res, 'demo patched', bugd.returncode, 'clean', clean.returncode, 'orig lines removed', rm)
        print('    ', bugd.stdout.strip()[-300:], bugd.stderr[-200:])
        if clean.returncode:
            print('     CLEAN:', clean.stdout[-1500:], clean.stderr[-500:])
        if not ok:
            shutil.rmtree(d)
        sys.stdout.flush()
    sh('rm -rf /tmp/seeddemo')
main()
