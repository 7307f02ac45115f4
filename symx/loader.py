"""Load brainstorm from /repo's current working tree.

sym  : modules imported from source, `_cpuop` = the .pyx translated to Python
conc : modules imported from source, `_cpuop` compiled from the current .pyx
       in a scratch directory (never in /repo)
"""
import ast
import importlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
PYX = os.path.join(REPO, 'brainstorm/handlers/_cpuop.pyx')
_state = {}


def _common():
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def load_sym():
    if _state.get('mode') == 'sym':
        return sys.modules['brainstorm']
    assert not _state
    _state['mode'] = 'sym'
    _common()
    from . import pyxlate
    try:
        mod = pyxlate.load(PYX, 'brainstorm.handlers._cpuop')
    except Exception as ex:       # cases that need it become undecided
        import types
        mod = types.ModuleType('brainstorm.handlers._cpuop')
        why = 'the kernels cannot be translated: %r' % (ex,)

        def missing(name):
            from .ctx import Inconclusive

            def f(*a, **k):
                raise Inconclusive(why)
            return f
        mod.__getattr__ = missing
    sys.modules['brainstorm.handlers._cpuop'] = mod
    sys.meta_path.insert(0, _Finder())
    import brainstorm
    import brainstorm.handlers
    brainstorm.handlers._cpuop = mod
    _import_all()
    from . import npproxy
    npproxy.patch_modules()
    from . import symstr
    symstr.patch_modules()
    return brainstorm


class _Strings(ast.NodeTransformer):
    """`sep.join(items)` and `x in 'text'` are methods of real strings, which
    reject symbolic ones: they become calls of functions that do the same"""
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and \
                len(node.args) == 1 and not node.keywords and \
                not isinstance(node.args[0], ast.Starred):
            new = ast.Call(ast.Name('__vp_join__', ast.Load()),
                           [f.value, node.args[0]], [])
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            new = ast.Call(ast.Name('__vp_in__', ast.Load()),
                           [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                new = ast.UnaryOp(ast.Not(), new)
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(_Strings().visit(tree), path, 'exec', dont_inherit=True)


class _Finder(object):
    """brainstorm's modules, from source, with the above change"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] != 'brainstorm':
            return None
        import builtins
        from . import symstr
        builtins.__vp_join__ = symstr.join
        builtins.__vp_in__ = symstr.contains
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(name, spec.loader.path)
        return spec


def _import_all():
    import brainstorm.all
    import brainstorm.tools
    import brainstorm.hooks
    import brainstorm.scorers
    import brainstorm.data_iterators
    import brainstorm.value_modifiers
    import brainstorm.initializers
    import brainstorm.training
    import brainstorm.structure.network


def build_ext(dst):
    """Compile the current _cpuop.pyx into directory dst; return .so path."""
    import numpy
    src = os.path.join(dst, '_cpuop.pyx')
    shutil.copy(PYX, src)
    c = os.path.join(dst, '_cpuop.c')
    r = subprocess.run([sys.executable, '-m', 'cython', '-2', src, '-o', c],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError('cython failed: ' + r.stdout.decode()[-2000:])
    so = os.path.join(dst, '_cpuop' +
                      sysconfig.get_config_var('EXT_SUFFIX'))
    cmd = ['gcc', '-O1', '-shared', '-fPIC', '-fwrapv', '-w',
           '-I' + sysconfig.get_paths()['include'],
           '-I' + numpy.get_include(), c, '-o', so]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError('gcc failed: ' + r.stdout.decode()[-2000:])
    return so


def load_conc(so=None):
    if _state.get('mode') == 'conc':
        return sys.modules['brainstorm']
    assert not _state
    _state['mode'] = 'conc'
    _common()
    tmp = None
    if so is None:
        tmp = tempfile.mkdtemp(prefix='vpext')
        so = build_ext(tmp)
    try:
        name = 'brainstorm.handlers._cpuop'
        spec = importlib.util.spec_from_file_location(name, so)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        import brainstorm
        import brainstorm.handlers
        brainstorm.handlers._cpuop = mod
        _import_all()
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return brainstorm
