"""python -m symdfo.dbg C02 task [npaths]: explore a few paths in-process and print outcomes"""
import sys, time, random
from . import runner


def main():
    prop, tname = sys.argv[1:3]
    N = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    runner.worker_init('symdfo.checks.' + prop.lower(), True)
    t = runner.get_task(tname, 'quick')
    pend = [[]]
    rng = random.Random(1)
    cnt = {}
    t0 = time.time()
    for k in range(N):
        if not pend:
            print('exhausted')
            break
        i = rng.randrange(len(pend))
        pend[i], pend[-1] = pend[-1], pend[i]
        eng, st, det = runner.run_path(t, runner._W['mods'], pend.pop())
        pend += eng.pending
        cnt[st] = cnt.get(st, 0) + 1
        if st not in ('ok', 'infeasible') and cnt[st] <= 3:
            print(k, st, det, [(f[0], str(f[1])[:1500]) for f in eng.failures], eng.chooses)
    print(cnt, 'paths/s %.1f' % (k / (time.time() - t0)), 'pending', len(pend), eng.stats)


main()
