"""Property-based testing of auxi: runner, generators, reference models."""
import os
import sys

# hypothesis lives in the tool environment; auxi and its dependencies in
# /opt/venv.  Both are CPython 3.12.  The tool environment goes LAST on the path so
# that auxi keeps running against its own dependencies.
_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'


def _provide_hypothesis():
    if os.path.isdir(os.path.join(_SITE, 'hypothesis')):
        sys.path.append(_SITE)
        return
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    import subprocess
    target = os.path.join(os.environ.get('PBT_SCRATCH', '/tmp'), 'deps')
    subprocess.run([sys.executable, '-m', 'pip', 'install', '-q', '--no-index',
                    '--find-links', _WHEELS, '--target', target, 'hypothesis'],
                   check=True)
    sys.path.append(target)


_provide_hypothesis()
