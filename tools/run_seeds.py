"""Run the check of each planted bug on a scratch copy of /repo with the bug, and note the result in tools/seed_results.json.

usage: run_seeds.py [seed ids...]        (default: those without a result)
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'tools', 'seed_results.json')
results = json.load(open(OUT)) if os.path.exists(OUT) else {}
seeds = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for sid in sys.argv[1:] or [s for s in seeds if s not in results]:
    d = os.path.join(ROOT, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    scratch = tempfile.mkdtemp()
    try:
        repo = os.path.join(scratch, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        demo = lambda: subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=repo, capture_output=True, timeout=300).returncode
        before = demo()
        subprocess.check_call(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo)
        after = demo()
        p = subprocess.run(['./check', meta['property'], 'quick'], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo))
        caught = p.returncode == 1 and 'VIOLATION property=%s ' % meta['property'] in p.stdout
        print(sid, 'demo %d/%d' % (before, after), 'caught' if caught else 'missed (exit %d)' % p.returncode, flush=True)
        if before == 0 and after != 0:
            results[sid] = [meta['property']] if caught else []
    finally:
        shutil.rmtree(scratch)
    json.dump({k: v for k, v in sorted(results.items()) if k in seeds}, open(OUT, 'w'), indent=1)
