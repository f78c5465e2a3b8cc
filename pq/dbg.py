import sys, time, cProfile
from .core import *

def main():
    P = Prog('/verif/target/%s.json' % 'full')
    for name in sys.argv[1:]:
        c = [i for i in P.I if i['p'].endswith(name) and i.get('identity') and 'err' not in i]
        if not c:
            c = [i for i in P.I if name in i['p'] and i.get('identity') and 'err' not in i]
        for inst in c[:6]:
            t = time.time()
            E = Engine(P, budget=200000)
            try:
                ex, ev, fr = E.run(inst)
            except TooBig as e:
                print('TOOBIG', inst['p'], e); continue
            print('==', inst['p'], 'steps', E.steps, 'lp', E.stats['lp'], '%.1fs' % (time.time() - t), 'inlined', len(E.stats['inlined']))
            for st, r in ex:
                print('  exit', str(r)[:400])
                for e in list(st.lin)[:12]:
                    print('      ', e[0], ' '.join('%+d*%s' % (k, str(node(i))[:80]) for i, k in e[1]), '>= 0')
                for b, v in list(st.bools.items())[:10]:
                    print('      ', str(b)[:150], '=', v)
                for b, v in list(st.var.items())[:10]:
                    print('      ', str(b)[:150], 'in', set(v))
            for e in ev:
                print('  ev', e.kind, str(e.data)[:200], e.where())
            print('  opaque', {k: v for k, v in sorted(E.stats['opaque'].items(), key=lambda x: -x[1])[:30]})

if __name__ == '__main__':
    main()
