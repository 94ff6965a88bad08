"""one-off: record the four tables as constants of the specification (spec/Luts.tla)"""
import random, tempfile
from mliconf import *
c = Case(random.Random(1), 'lut')
for k, n in (('sigm', 320), ('tanh', 344), ('softmax', 358), ('l2', 97)): c.lut(k, n)
c.call('lut_sizes', '', 'x', {})
w = tempfile.mkdtemp()
o = run_driver(build_driver('up'), [c], w, 'l')[0]
print(o['luts'], o['calls'][0]['v'])
out = ['-------------------------------- MODULE Luts --------------------------------',
 '(* The tables the library promises (sigmoid, tanh, exp(-x), 1/sqrt(x)),     *)',
 '(* sampled at 2^-inf steps; MC_Luts checks their defining identities.        *)', 'EXTENDS Integers', '']
for l, lo in zip(c.luts, o['luts']):
    v = o['ia'][l['ar'] - 1][l['off']:l['off'] + lo[2]]
    s = ''; row = ' '
    for i, x in enumerate(v):
        row += ' %d%s' % (x, ',' if i + 1 < len(v) else '')
        if len(row) > 72: s += row + '\n'; row = ' '
    nm = {'sigm': 'Sigm', 'tanh': 'Tanh', 'softmax': 'ExpNeg', 'l2': 'InvSqrt'}[l['kind']]
    out.append('%sT == <<\n%s%s >>' % (nm, s, row))
    out.append('%sLut == [t |-> %sT, inf |-> %d, outf |-> %d, ino |-> %d, outo |-> %d]\n' % (nm, nm, lo[3], lo[4], lo[5], lo[6]))
out.append('LutOf(kind) == CASE kind = "sigm" -> SigmLut [] kind = "tanh" -> TanhLut\n                 [] kind = "softmax" -> ExpNegLut [] kind = "l2" -> InvSqrtLut')
out.append('=' * 77)
open(os.path.join(SPEC, 'Luts.tla'), 'w').write('\n'.join(out) + '\n')
