"""plant a bug: python3 tools/plant.py SPEC.py   (SPEC defines id, prop, edits=[(file, old, new)], demo, needs, breaks)
Confirms in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 without and nonzero with the patch. Keeps it under seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def plant(s):
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        R = d + '/repo'
        sh('git checkout -q -- .', R)
        out = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\n# run with cwd /repo: exit 0 if the property holds here\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        with open(out + '/demo.py', 'w') as f:
            f.write(s['demo'].strip() + '\n')
        r0 = sh(f'bash {out}/demo.sh', R, timeout=300)
        for file, old, new in s['edits']:
            t = open(os.path.join(R, file), newline='').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if t.count(old) != 1:
                shutil.rmtree(out)
                return print(f'{s["id"]}: {t.count(old)} matches in {file}: {old!r}')
            open(os.path.join(R, file), 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run('git diff', shell=True, cwd=R, capture_output=True).stdout
        open(out + '/patch.diff', 'wb').write(diff)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        r1 = sh(f'bash {out}/demo.sh', R, timeout=300)
        tst = sh(f"PYTHONPATH=. timeout 300 python3 /verif/tools/stable.py", R)
        ok = r0.returncode == 0 and r1.returncode != 0 and tst.returncode == 0
        print(s['id'], 'OK' if ok else 'BAD', 'demo', r0.returncode, r1.returncode, 'tests', tst.returncode, (r0.stderr[-300:] if r0.returncode else ''), tst.stdout[-300:] if tst.returncode else '')
        if not ok:
            shutil.rmtree(out)
        return ok
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    m = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    for s in m['BUGS']:
        if (not only and not os.path.exists(os.path.join(V, 'seeded', s['id'], 'meta.json'))) or s['id'] in only:
            plant(s)
