#!/usr/bin/env python3
"""explain.py [VIOLATION FILE]: the values of a call whose result C15 rejected, beside the ones of the definition"""
import os, re, shutil, struct, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = ROOT + '/build/classes:%s:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
fn = sys.argv[1] if len(sys.argv) > 1 else ROOT + '/evidence/violations/C15-0.txt'
text = open(fn).read()
m = re.search(r'rejected call: \{"e":"Batch","f":"(\w+)","o":\[(.*?)\]', text)
print(m[0])
script = '\n'.join(l for l in text.split('\n') if l and l[0] != '#' and (not l.startswith('B ') or l.startswith('B %s ' % m[1]))) + '\n'
print(script)
with tempfile.TemporaryDirectory() as d:
    shutil.copytree(ROOT + '/spec', d + '/spec')
    t = d + '/spec/Trace.tla'
    s = open(t).read()
    s = s.replace('           /\\ Len(v[k]) = n\n',
                  '           /\\ PrintT(<<"SHOW", k, Len(v[k]), n>>)\n'
                  '           /\\ \\A m \\in 1..MinI(Len(v[k]), n) : PrintT(<<"PAIR", IF IntOut(f, k) THEN <<out[k][m], 0>> ELSE Dec(out[k])[m], IF IntOut(f, k) THEN <<v[k][m], 0>> ELSE v[k][m]>>)\n'
                  '           /\\ Len(v[k]) = n\n')
    open(t, 'w').write(s)
    open(d + '/s.txt', 'w').write(script)
    subprocess.run([ROOT + '/build/std/driver', d + '/s.txt', d + '/t.ndjson', '60'], check=True)
    o = subprocess.run(['java', '-Xss32m', '-Xmx3g', '-cp', CP % (d + '/spec'), '-DTLA-Library=' + d + '/spec', 'tlc2.TLC', '-nowarning',
                        '-noGenerateSpecTE', '-metadir', d + '/md', '-config', d + '/spec/Trace.cfg', t],
                       env=dict(os.environ, TRACE=d + '/t.ndjson', TOL='8', PROP='C15'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
f = lambda h, l: struct.unpack('>d', struct.pack('>ii', int(h), int(l)))[0]
i = 0
for q in re.finditer(r'"SHOW", (\d+), (\d+), (\d+)|"PAIR", <<(-?\d+), (-?\d+)>>, <<(-?\d+), (-?\d+)>>', o):
    if q[1]:
        print('output', q[1], 'defined', q[2], 'reported', q[3])
        i = 0
    else:
        i += 1
        a, b = f(q[4], q[5]), f(q[6], q[7])
        print('%4d %25.17g %25.17g %s' % (i, a, b, '***' if abs(a - b) > 1e-8 * max(1, abs(a), abs(b)) else ''))
if not i:
    print(o[-3000:])
