"""
Disk faults for the process under test: builds faultlib.c, restarts the check with it preloaded, and arms it.
"""
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile

KILL_BEFORE, KILL_TORN, EIO_ONCE, EIO_ON, ENOSPC_ONCE, ENOSPC_ON, KILL_AFTER = range(1, 8)
COUNT = 0
KILLS = (KILL_BEFORE, KILL_TORN, KILL_AFTER)
ERRORS = (EIO_ONCE, EIO_ON, ENOSPC_ONCE, ENOSPC_ON)
NAMES = {KILL_BEFORE: 'death before', KILL_TORN: 'death within', KILL_AFTER: 'death after', EIO_ONCE: 'EIO at',
         EIO_ON: 'EIO from', ENOSPC_ONCE: 'ENOSPC at', ENOSPC_ON: 'ENOSPC from', COUNT: 'count'}
KILLED = 99
_lib = None


def preload():
    """Restart this process with the fault library; returns when it is loaded."""
    global _lib
    path = os.environ.get('VERIF_FAULTLIB')
    if path is None:
        folder = tempfile.mkdtemp(prefix='verif_faultlib_')
        path = os.path.join(folder, 'faultlib.so')
        source = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'faultlib.c')
        build = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', path, source, '-ldl'], capture_output=True,
                               text=True, check=False)
        if build.returncode != 0:
            shutil.rmtree(folder, ignore_errors=True)
            raise RuntimeError('faultlib.c does not compile: ' + build.stderr[:300])
        os.environ['VERIF_FAULTLIB'] = path
        os.environ['LD_PRELOAD'] = path
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'vlib.harness'] + sys.argv[1:])
    os.environ.pop('LD_PRELOAD', None)
    del os.environ['VERIF_FAULTLIB']
    _lib = ctypes.CDLL(path)
    _lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long]
    _lib.fault_count.restype = ctypes.c_long
    _lib.fault_what.restype = ctypes.c_char_p
    _lib.fault_trace.restype = ctypes.c_char_p
    shutil.rmtree(os.path.dirname(path), ignore_errors=True)


def arm(folder, mode=COUNT, k=0):
    _lib.fault_arm(os.path.realpath(folder).encode(), mode, k)


def disarm():
    """-> (operations seen, times the fault struck, operation it struck, trace of operations)"""
    _lib.fault_disarm()
    return _lib.fault_count(), _lib.fault_fired(), _lib.fault_what().decode(), _lib.fault_trace().decode()


def in_child(func):
    """Run func in a forked process. -> exit status (KILLED: the fault struck), or raises what it reports."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            func()
            code = 0
        except BaseException:   # pylint: disable=broad-except
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)
