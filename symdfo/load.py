"""Load dfols from /repo (current working tree), optionally with the symbolic numpy facade patched in."""
import sys, importlib, os
REPO = os.environ.get('DFOLS_REPO', '/repo')
sys.dont_write_bytecode = True


class Mods(object):
    pass


def load(symbolic):
    """fresh import of the dfols package; symbolic=True patches the numpy facade into each module"""
    for k in [k for k in sys.modules if k == 'dfols' or k.startswith('dfols.')]:
        del sys.modules[k]
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    pkg = importlib.import_module('dfols')
    assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep), pkg.__file__
    m = Mods()
    m.pkg = pkg
    m.all = {}
    for k in list(sys.modules):
        if k.startswith('dfols.') and sys.modules[k] is not None:
            short = k.split('.', 1)[1]
            m.all[short] = sys.modules[k]
    for n in ('solver', 'controller', 'model', 'util', 'params', 'trust_region', 'diagnostic_info'):
        setattr(m, n, m.all.get(n) or importlib.import_module('dfols.' + n))
        m.all[n] = getattr(m, n)
    m.symbolic = symbolic
    m.pristine = {n: dict(vars(mod)) for n, mod in m.all.items()}
    if symbolic:
        from . import symnp
        m.patched = {}
        for n, mod in m.all.items():
            m.patched[n] = symnp.patch_module(mod)
        m.facaded = {n: dict(vars(mod)) for n, mod in m.all.items()}
    else:
        m.facaded = m.pristine
    return m


def reset(m):
    """undo stub installations of the previous path"""
    for n, mod in m.all.items():
        d = vars(mod)
        want = m.facaded[n]
        for k in list(d):
            if k not in want:
                del d[k]
        for k, v in want.items():
            if d.get(k) is not v:
                d[k] = v


def stub(m, name, make):
    """replace every module-global binding of the function called `name` by make(original)"""
    orig = None
    for n, mod in m.all.items():
        v = vars(mod).get(name)
        if callable(v):
            orig = v
            break
    if orig is None:
        return False
    new = make(orig)
    for n, mod in m.all.items():
        if vars(mod).get(name) is orig:
            setattr(mod, name, new)
    return True
