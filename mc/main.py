import sys
from .core import main
args = sys.argv[1:]
replay = None
if '--replay' in args:
    i = args.index('--replay'); replay = args[i + 1]; del args[i:i + 2]
import os, shutil, tempfile
# everything temporary (TensorFlow leaves generated sources behind) goes to one folder, removed at the end
scratch = tempfile.mkdtemp(prefix='kymatio-mc-')
os.chmod(scratch, 0o1777)
os.environ['TMPDIR'] = tempfile.tempdir = scratch
tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
code = main(args[0], tier, replay)
shutil.rmtree(scratch, ignore_errors=True)
sys.stdout.flush(); sys.stderr.flush()
os._exit(code)
