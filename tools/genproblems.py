#!/usr/bin/env python3
# Generates harness/problems_gen.h: families of random clause sets with placeholders k0..k3 (committed; run by hand).
import random, subprocess, itertools, sys, os, tempfile
from concurrent.futures import ThreadPoolExecutor
rnd = random.Random(7)
def fam(eq):
    vs = ['X', 'Y', 'Z']; ks = ['k0', 'k1', 'k2', 'k3'][:3 if eq else 4]; pend = list(ks); cls = []
    def term(d, vars):
        r = rnd.random()
        if vars and r < 0.5: return rnd.choice(vars)
        if eq and d and r < 0.8: return f'f({term(d-1,vars)},{term(d-1,vars)})' if rnd.random() < .35 else f'g({term(d-1,vars)})'
        if pend and rnd.random() < .4: return pend.pop(0)
        return rnd.choice('ab')
    for _ in range(rnd.randint(5, 8)):
        n = rnd.choice([1, 2, 2, 2, 3, 3]); vars = vs[:rnd.randint(0, 2 if n > 1 else 1)]; ls = []
        for _ in range(n):
            neg = rnd.random() < .5
            if eq and rnd.random() < .35: l = f"{term(2, vars)}{'!=' if neg else '='}{term(1, vars)}"
            else:
                p, a = rnd.choice([('p', 1), ('q', 1), ('r', 2), ('s', 2)] + ([('t', 0)] if not eq else []))
                l = ('-' if neg else '') + p + ('(' + ','.join(term(1, vars) for _ in range(a)) + ')' if a else '')
            ls.append(l)
        cls.append(' | '.join(ls))
    if pend: return None
    return '. '.join(cls) + '. '
def run(txt, strat, eq):
    with tempfile.NamedTemporaryFile('w', suffix='.txt') as f:
        f.write(txt); f.flush()
        lim = '"max_size":20,"max_depth":4,"max_length":5,' if eq else ''
        r = subprocess.run(['timeout', '2', '/repo/gkc', f.name, '-parallel', '0', '-print', '15', '-strategytext', '{"print":1,"max_seconds":1,%s"strategy":["%s"],"query_preference":0}' % (lim, strat)], capture_output=True, text=True)
    out = r.stdout; ok = 'proof found' in out; m = [l for l in out.split('\n') if 'stat_given_used:' in l]
    return ('P' if ok and 'not found' not in out else 'N' if 'finished without' in out else '?', int(m[-1].split()[-1]) if m else 0)
def good(eq):
    while True:
        t = fam(eq)
        if not t: continue
        n = t.count('k'); res = set(); bad = False; mx = 0
        for asg in itertools.product('ab', repeat=3 if eq else 4):
            x = t
            for i, c in enumerate(asg): x = x.replace(f'k{i}', c)
            for s in (['negative_pref'] if eq else ['negative_pref', 'knuthbendix_pref', 'positive_pref']):
                v, g = run(x, s, eq); mx = max(mx, g)
                if v == '?' or g > 60: bad = True; break
                res.add(v)
            if bad: break
        if bad or mx < 6 or (not eq and len(res) < 2) : continue
        return t
with ThreadPoolExecutor(1) as ex:
    a = [good(True) for _ in range(40)]; b = [good(False) for _ in range(40)]
o = '// generated by tools/genproblems.py: 20-59 with equality and functions, 60-99 function-free without equality\n'
for i, t in enumerate(a + b): o += f'/*{20+i}*/"{t}",\n'
open(os.path.dirname(os.path.abspath(__file__)) + '/../harness/problems_gen.h', 'w').write(o)
