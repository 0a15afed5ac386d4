'''Runs one check in a fresh interpreter; the overlay is first on the path.'''
import importlib
import json
import logging
import os
import sys
import time
import traceback
import warnings


def main():
    prop, tier, src, result, replay = sys.argv[1:6]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, src)
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    out = {}
    try:
        import beam_telescope_analysis
        assert os.path.abspath(beam_telescope_analysis.__file__).startswith(src), beam_telescope_analysis.__file__
        from mc import core
        module = importlib.import_module('checks.' + prop.lower())
        only = json.load(open(replay))['case'] if replay != '-' else None
        tot = core.run_module(module, tier, only=only)
        out = dict(states=len(tot.states), outcomes=len(tot.outcomes), transitions=tot.transitions, traces=tot.traces,
                   samples=tot.samples, violations=tot.violations, extra=dict(tot.extra),
                   level=getattr(module, 'LEVEL', 'model_checking'), assumptions=getattr(module, 'ASSUMPTIONS', []),
                   bounds=getattr(module, 'BOUNDS', {}).get(tier, ''), exhaustive=getattr(module, 'EXHAUSTIVE', True),
                   rule=getattr(module, 'RULE', ''))
    except Exception as e:
        out = dict(violations=[{'key': 'exception:%s' % type(e).__name__, 'msg': 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]), 'data': {}, 'case': None}])
    with open(result + '.part', 'w') as f:
        json.dump(out, f, default=str)
    os.rename(result + '.part', result)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
