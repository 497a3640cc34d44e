"""Oracle worker: runs in PyPy, one JSON request per line on fd 3 / reply on fd 4."""
import faulthandler
import json
import os
import sys
import traceback
import warnings


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get('VERIF_REPO', '/repo')
    rin = os.fdopen(3, 'r', encoding='utf-8', buffering=1)
    rout = os.fdopen(4, 'w', encoding='utf-8', buffering=1)
    sys.path.insert(0, verif)
    sys.path.insert(0, os.path.join(repo, 'products'))
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from vf import registry
    from vf.oracle import Violation, S, install_tee
    install_tee()
    snapshot = None
    try:
        import ellipy
        base = os.path.realpath(os.path.join(repo, 'products', 'ellipy'))
        paths = [os.path.realpath(p) for p in ellipy.__path__]
        if base not in paths:
            raise RuntimeError('ellipy is imported from %s, not from %s' % (paths, base))
        snapshot = dict(S.Properties.get_prop_dict())
        rout.write(json.dumps({'ready': True}) + '\n')
    except Exception:
        rout.write(json.dumps({'ready': False, 'error': traceback.format_exc()}) + '\n')
        rout.flush()
        return 3
    rout.flush()
    while True:
        line = rin.readline()
        if not line:
            return 0
        req = json.loads(line)
        try:
            f = registry.load(req['prop'])[req['facet']]
        except Exception:
            rep = {'status': 'error', 'detail': traceback.format_exc()}
        else:
            try:
                r = f.check(req['case'])
                if r is None:
                    r = {'nontrivial': True, 'tags': []}
                rep = {'status': r.pop('status', 'ok')}
                rep.update(r)
            except Violation as v:
                rep = {'status': 'violation', 'msg': v.msg, 'info': v.info}
            except (ArithmeticError, LookupError, ValueError, TypeError, AttributeError, np.linalg.LinAlgError) as e:
                # (does not happen on the unchanged library) its answers are not of the kind the oracle works with
                rep = {'status': 'violation', 'msg': 'the answers cannot be interpreted: %s: %s' % (type(e).__name__, str(e)[:300]),
                       'info': {'traceback': traceback.format_exc()[-1500:]}}
            except Exception:
                rep = {'status': 'error', 'detail': traceback.format_exc()}
        # the process-wide configuration must not leak from one case into the next
        try:
            now = S.Properties.get_prop_dict()
            if dict(now) != snapshot:
                S.Properties.set_conf_repo_mgr(dict(snapshot))
        except Exception:
            pass
        rout.write(json.dumps(rep) + '\n')
        rout.flush()


if __name__ == '__main__':
    faulthandler.enable()
    sys.exit(main())
