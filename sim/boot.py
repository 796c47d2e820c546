"""
Process start-up: pin every ambient source of nondeterminism, then install the
seams *before* the standard library's users of them are imported.

``import sim.boot`` must be the first import of any entry point.
"""

import os
import sys

_MARK = 'AIUTI_SIM_BOOTED'


def reexec_if_needed():
    """Re-exec once with a pinned hash seed and (best effort) without ASLR."""
    want = os.environ.get('AIUTI_SIM_HASHSEED', '0')
    if os.environ.get(_MARK) == '1' and \
            os.environ.get('PYTHONHASHSEED') == want:
        return
    env = dict(os.environ)
    env.setdefault("MALLOC_ARENA_MAX", "1")
    env[_MARK] = '1'
    env['PYTHONHASHSEED'] = want
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONASYNCIODEBUG', None)
    env.pop('PYTHONSTARTUP', None)
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)   # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    os.execve(sys.executable, [sys.executable, '-X', 'utf8'] + sys.argv, env)


def install():
    if 'asyncio' in sys.modules or 'queue' in sys.modules \
            or 'concurrent.futures' in sys.modules:
        raise RuntimeError('the simulator must be installed first')
    sys.dont_write_bytecode = True
    from . import patch
    patch.install()


reexec_if_needed()
install()
