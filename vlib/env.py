'''
Makes the current working tree of the repository importable, without writing into it:
a scratch directory with a package link, no byte code, and no PLY table files.
'''
import atexit
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = '/opt/venv/lib/python3.12/site-packages'   # ply, html5lib, amara3.iri
_scratch = None
_owner = None


def scratch():
    '''Scratch directory of this run. Removed by the process that made it'''
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif_')
        _owner = os.getpid()
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


def setup():
    '''To be called before anything is imported from amara3'''
    sys.dont_write_bytecode = True
    d = os.path.join(scratch(), 'path')
    os.makedirs(d, exist_ok=True)
    link = os.path.join(d, 'amara3')
    if not os.path.islink(link):
        os.symlink(os.path.join(REPO, 'pylib'), link)
    sys.path.insert(0, d)
    sys.path.append(SITE)
    # PLY: tables are always built from the current grammar, and not written anywhere
    sys.modules['amara3.uxml.uxpath.parsetab'] = None
    import warnings
    warnings.simplefilter('ignore')
    from ply import yacc
    original = yacc.yacc

    def quiet_yacc(*args, **kwargs):
        kwargs.update(write_tables=False, debug=False, errorlog=yacc.NullLogger())
        return original(*args, **kwargs)
    yacc.yacc = quiet_yacc


def build_ext(sanitize=False):
    '''Compile the C extension from the current sources. Returns the directory to add to the path'''
    d = os.path.join(scratch(), 'ext_asan' if sanitize else 'ext')
    pkg = os.path.join(d, 'amara3', 'cmodules')
    os.makedirs(pkg, exist_ok=True)
    for init in (os.path.join(d, 'amara3', '__init__.py'), os.path.join(pkg, '__init__.py')):
        with open(init, 'w') as fp:
            fp.write("__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n")
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    out = os.path.join(pkg, 'cxmlstring' + suffix)
    cmd = ['gcc', '-shared', '-fPIC', '-g', '-w', '-I' + sysconfig.get_paths()['include'],
           '-I' + os.path.join(REPO, 'clib')]
    cmd += ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=shift', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if sanitize else ['-O2']
    cmd += [os.path.join(REPO, 'clib', 'xmlstring.c'), '-o', out]
    subprocess.run(cmd, check=True, capture_output=True)
    return d
