"""
A fresh process that restores something and continues: python -m sim.restart JOB OUT
Jobs and results are pickles in a scratch directory of the caller.
"""

import contextlib
import io
import os
import pickle
import subprocess
import sys
import tempfile

from . import core


def spawn(job, env_extra=None, timeout=200):
    """run a job in a fresh process, return its result"""
    from .runner import PYTHON, VERIF, worker_env
    env = worker_env(env_extra)
    with tempfile.TemporaryDirectory(prefix='bartz-sim-') as tmp:
        src, dst = os.path.join(tmp, 'job'), os.path.join(tmp, 'out')
        with open(src, 'wb') as f:
            pickle.dump(job, f)
        r = subprocess.run([PYTHON, '-m', 'sim.restart', src, dst], cwd=VERIF, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(dst):
            raise RuntimeError(f'harness: restarted process gave no answer (rc {r.returncode}):\n{r.stdout[-3000:]}')
        with open(dst, 'rb') as f:
            res = pickle.load(f)
    if 'error' in res:
        if res['sut']:
            raise core.Violation('exception-after-restart', res['error'][-2500:])
        raise RuntimeError('harness: ' + res['error'])
    return res['value']


def main():
    import traceback
    import warnings
    warnings.simplefilter('ignore')
    with open(sys.argv[1], 'rb') as f:
        job = pickle.load(f)
    out = {}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import importlib
            mod = importlib.import_module(f'sim.props.{job["module"]}')
            out['value'] = getattr(mod, job['function'])(*job['args'])
    except Exception as e:
        sut = core.sut_exception(e) or isinstance(e, (pickle.PickleError, AttributeError, ImportError))
        out.update(error=traceback.format_exc(), sut=sut)
    with open(sys.argv[2] + '.tmp', 'wb') as f:
        pickle.dump(out, f)
    os.replace(sys.argv[2] + '.tmp', sys.argv[2])


if __name__ == '__main__':
    main()
