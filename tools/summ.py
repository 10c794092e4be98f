"""Print function summaries: python3 tools/summ.py crate[,crate] fn..."""
import sys, traceback
sys.path.insert(0, '/verif/engine/py')
sys.setrecursionlimit(20000)
from flow import *
import facts; facts.ensure(sys.argv[1].split(","))
P = Prog(sys.argv[1].split(','))
I = Interp(P)
W = 600
for p in sys.argv[2:]:
    try:
        outs = I.summary(p)
    except Unanalysable as e:
        print(p, 'UNANALYSABLE', e)
        continue
    except Exception:
        traceback.print_exc(limit=-4)
        continue
    print('==', p)
    for s, v in outs:
        print('  [', show_conds(s.conds)[:W], ']')
        for e in s.eff:
            print('       EFF', show(e)[:W])
        print('       =>', show(v)[:W])
        for k, x in s.mem.items():
            print('       ', k, ':=', show(x)[:W])
    if I.panics:
        print('  panics', [(show_conds(s.conds)[:200], sp) for s, sp in I.panics])
    I.panics = []
