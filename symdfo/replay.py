"""Replay a counterexample file on the unmodified code: python -m symdfo.replay FILE ; exit 1 if the violation reproduces."""
import sys, json
from . import runner


def main(path):
    d = json.load(open(path))
    runner.worker_init(d['module'], False)
    st, key, msg = runner.replay_one((d['task'], d['tier'], d['values'], [tuple(c) for c in d['chooses']]))
    print('replay: %s %s %s' % (st, key, msg))
    return 1 if st == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
