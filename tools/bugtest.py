#!/usr/bin/env python3
# bugtest.py ID...: in a private mount of a scratch copy over /repo: demo passes, patch applies, builds, tests pass, demo fails
import sys, subprocess, os, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i):
    d = f'{V}/seeded/{i}'; t = tempfile.mkdtemp(prefix='bug.', dir='/tmp'); shutil.copytree(d, t + '/s'); subprocess.run(['cp', '-a', '/repo', t + '/r'], check=True)
    sh = f'''mount --bind {t}/r /repo; cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
bash {t}/s/demo.sh >{t}/d0 2>&1; echo demo-clean $?
git apply {t}/s/patch.diff || exit 9
bash /opt/vp/build.sh >{t}/b 2>&1; echo build $?
bash {t}/s/demo.sh >{t}/d1 2>&1; echo demo-patched $?
bash /opt/vp/test.sh {t}/o.json >/dev/null 2>&1'''
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', sh], capture_output=True, text=True)
    lost = 'no result'
    try: lost = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(t + '/o.json'))['passed']))
    except Exception as e: lost = repr(e)
    tail = [open(f'{t}/{x}').read()[-300:] for x in ('d0', 'd1') if os.path.exists(f'{t}/{x}')]
    shutil.rmtree(t); return f'{i}: {" ".join(r.stdout.split())} {r.stderr[-300:]} lost={lost}\n  {tail}'
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, sys.argv[1:]): print(x, flush=True)
