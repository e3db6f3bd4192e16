"""Worker process: reads one JSON request per line, answers with one line."""

import contextlib
import gc
import importlib
import io
import json
import os
import sys
import traceback

from . import core


def execute(prop, scenario):
    mod = importlib.import_module(f'sim.props.{prop.lower()}')
    rec = core.Recorder()
    out = io.StringIO()
    res = dict(status='ok')
    try:
        with contextlib.redirect_stdout(out):
            mod.run(scenario, rec)
    except core.Violation as v:
        res = dict(status='violation', kind=v.kind, detail=v.detail[:3000])
    except core.Skip as s:
        res = dict(status='skip', detail=str(s))
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not core.sut_exception(e):
            raise
        if core.sut_exception(e) and getattr(mod, 'EXCEPTIONS_VIOLATE', True):
            res = dict(status='violation', kind=f'exception:{type(e).__name__}', detail=tb[-3000:])
        else:
            res = dict(status='error', detail=tb[-6000:])
    res.update(rec.result())
    return res


def main():
    proto = os.fdopen(os.dup(1), 'w', buffering=1)
    # anything printed to fd 1 by libraries must not corrupt the protocol
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter('ignore')
    count = 0
    for line in sys.stdin:
        req = json.loads(line)
        res = execute(req['prop'], req['scenario'])
        res['id'] = req['id']
        proto.write(json.dumps(res) + '\n')
        proto.flush()
        count += 1
        if 'jax' in sys.modules:
            sys.modules['jax'].clear_caches()
            gc.collect()


if __name__ == '__main__':
    main()
