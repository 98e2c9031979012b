"""Create planted bugs: python3 tools/seedmk.py FILE.py [id...]; FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]."""
import json, os, subprocess, sys, runpy
SB = '/tmp/w/sb'
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
if not os.path.isdir(SB):
    subprocess.check_call(['cp', '-a', '/repo', SB])
for b in bugs:
    if only and b['id'] not in only:
        continue
    subprocess.check_call(['git', '-C', SB, 'fetch', '-q', '/repo', 'HEAD'])
    subprocess.check_call(['git', '-C', SB, 'checkout', '-qf', 'FETCH_HEAD'])
    for f, old, new in b['edits']:
        p = f'{SB}/src/dga/{f}'
        s = open(p, encoding='utf-8').read()
        n = s.count(old)
        if n != 1:
            sys.exit(f'{b["id"]}: {n} occurrences in {f}: {old[:60]!r}')
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    d = f'/verif/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    patch = subprocess.check_output(['git', '-C', SB, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after the build\nexport MPLBACKEND=Agg OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 '
        'OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n'
        'PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', b['id'])
subprocess.check_call(['git', '-C', SB, 'checkout', '-qf', '--', '.'])
