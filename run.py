"""Entry point of every check: runs one property's workloads with its monitors attached."""
import os, sys, tempfile, shutil, atexit

# Scratch area (byte code, HOME, astropy/matplotlib caches, files written by workloads)
_tmp = tempfile.mkdtemp(prefix="verif-")
_pid = os.getpid()
atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_tmp, ignore_errors=True))
sys.pycache_prefix = os.path.join(_tmp, "pyc")   # never trust byte code lying in /repo
os.environ["VERIF_SCRATCH"] = _tmp
os.environ["HOME"] = _tmp
os.environ["MPLCONFIGDIR"] = os.path.join(_tmp, "mpl")
for v in ("XDG_CONFIG_HOME", "XDG_CACHE_HOME"):
    os.environ[v] = os.path.join(_tmp, v.lower())
    os.makedirs(os.environ[v], exist_ok=True)
if "--replay" in sys.argv[:-1]:
    _i = sys.argv.index("--replay") + 1
    sys.argv[_i] = os.path.abspath(sys.argv[_i])
os.chdir(_tmp)

from mon import core

if __name__ == "__main__":
    try:
        rc = core.main(sys.argv[1:])
    except Exception:
        import traceback
        print("INCONCLUSIVE the machinery failed:\n" + traceback.format_exc())
        rc = 2
    sys.exit(rc)
