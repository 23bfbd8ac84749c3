#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py BUGS.py [ID...]
BUGS.py defines BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], demo=main.rs text)}.
Writes seeded/ID, then: unpatched demo passes; patched tree builds, passes tests, demo fails; runs the check."""
import subprocess, sys, os, json, shutil, runpy
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def revert(): sh('git -C /repo checkout -- .')
def main():
    args = sys.argv[1:]
    check = '--nocheck' not in args
    args = [a for a in args if not a.startswith('--')]
    bugs = runpy.run_path(args[0])['BUGS']
    for bid in args[1:] or list(bugs):
        b = bugs[bid]
        d = f'{V}/seeded/{bid}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(f'{V}/tools/template', d)
        open(f'{d}/demo/src/main.rs', 'w').write('mod common;\nuse common::*;\n\n' + b['demo'].strip() + '\n')
        sh(f'/root/.cargo/bin/rustfmt --edition 2021 {d}/demo/src/main.rs')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(f'{d}/meta.json', 'w'), indent=1)
        revert()
        bad = False
        for f, old, new in b['edits']:
            p = f'/repo/src/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(bid, 'EDIT matches', s.count(old), repr(old)); bad = True; break
            open(p, 'w').write(s.replace(old, new))
        if bad: revert(); continue
        diff = sh('git -C /repo diff').stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        # at least one changed line is of the original repository
        revert()
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r.returncode != 0:
            print(bid, 'DEMO FAILS UNPATCHED', (r.stdout + r.stderr)[-1500:]); continue
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode: print(bid, 'APPLY', a.stderr); continue
        t = sh('bash /tmp/rt.sh')
        if 'TESTS OK' not in t.stdout:
            print(bid, 'TESTS', (t.stdout + t.stderr)[-1500:]); revert(); continue
        r = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r.returncode == 0 or 'error' in r.stdout and 'could not compile' in r.stdout:
            print(bid, 'DEMO rc', r.returncode, (r.stdout + r.stderr)[-1500:]); revert(); continue
        msg = [l for l in r.stderr.splitlines() if l.strip()][-3:]
        out = ''
        if check:
            c = sh(f'{V}/check.sh {b["property"]} quick')
            vio = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
            out = f'check rc {c.returncode} {vio[:1]}' + ('' if vio else c.stdout[-600:])
        revert()
        print(bid, 'OK', b['property'], out, flush=True)
main()
revert()
sh('rm -f /repo/Cargo.lock.orig')
print(sh('git -C /repo status --short').stdout)
