#!/usr/bin/env python3
"""python3 check.py C01            decide one property (VERIF_SEED, VERIF_TIER)
python3 check.py --replay FILE     run a recorded violation again
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if os.environ.get('PYOA_SIM') != '1':
        env = dict(os.environ)
        repo = env.get('PYOA_REPO', '/repo')
        env.update(PYTHONPATH=repo + os.pathsep + HERE, PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', PYOA_SIM='1', LC_ALL='C.UTF-8')
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, '-B', os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from sim import engine
    engine.assert_repo()
    if sys.argv[1] == '--selftest':
        from sim import props
        print('%d properties ready, pyopenapi from %s' % (len(props.REG), engine.REPO))
        return 0
    if sys.argv[1] == '--replay':
        return engine.do_replay(os.path.abspath(sys.argv[2]))
    seed = os.environ.get('VERIF_SEED', '1') or '1'
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = str(int(seed)) if seed.lstrip('-').isdigit() else str(abs(hash(seed)))
    return engine.check(sys.argv[1], seed, tier)


if __name__ == '__main__':
    sys.exit(main())
