"""Builds the C extension of the current tree for replays: with sanitizers, outside of /repo."""
import os
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'postgresql/port/_optimized/module.c')
VENV_PY = os.environ.get('VERIF_VENV_PY', '/opt/venv/bin/python')
if not os.path.exists(VENV_PY):
	VENV_PY = sys.executable


def include_dir():
	r = subprocess.run([VENV_PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'], capture_output=True, text=True)
	return r.stdout.strip()


def build():
	"""-> path of the extension, in a directory of its own"""
	d = tempfile.mkdtemp(prefix='vnat')
	so = os.path.join(d, 'optimized.so')
	r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-g', '-w', '-DNDEBUG', '-fno-strict-aliasing', '-fwrapv',
		'-fno-omit-frame-pointer', '-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-I' + include_dir(), SRC, '-o', so],
		capture_output=True, text=True)
	if r.returncode:
		remove(so)
		raise RuntimeError('the extension does not compile:\n' + r.stderr[-2000:])
	return so


def remove(so):
	d = os.path.dirname(so)
	if os.path.basename(d).startswith('vnat'):
		for n in os.listdir(d):
			os.unlink(os.path.join(d, n))
		os.rmdir(d)


def env(so):
	lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
	return dict(os.environ, LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC='malloc', VERIF_NATIVE=so,
		ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='exitcode=99:print_stacktrace=0')
