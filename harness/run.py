#!/usr/bin/env python3
'''
run.py <PROPERTY> [--replay FILE] [--tier quick|thorough] [--seed N]

Re-executes itself with the interpreter and environment in which the repository is built, then runs
the check of the property against the working tree of the repository.
'''
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def reexec():
    env = dict(os.environ)
    py = '/opt/venv/bin/python'
    if not os.path.exists(py):
        py = sys.executable
    env.update({
        'VERIF_REEXEC': '1', 'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': REPO,
        'MPLBACKEND': 'Agg', 'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '3',
        'KERAS_BACKEND': 'tensorflow', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
    })
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == '__main__':
    if os.environ.get('VERIF_REEXEC') != '1':
        reexec()
    sys.path.insert(0, HERE)
    import core
    rc = core.main(sys.argv[1].upper(), sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
