"""Loads the package from /repo's working tree with a native library built by
vt.build.  The library is injected through an import hook, so a stale build
product lying in /repo can never be picked up instead."""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import sys
import types
import warnings

REPO = os.environ.get('VT_REPO', '/repo')
NAME = 'longitudinal_tomography.cpp_routines.libtomo'


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == NAME:
            return importlib.util.spec_from_file_location(
                name, self.so,
                loader=importlib.machinery.ExtensionFileLoader(name, self.so))
        if name == 'longitudinal_tomography._version' and not os.path.exists(
                os.path.join(REPO, 'longitudinal_tomography', '_version.py')):
            # generated by setuptools_scm, not tracked
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        m = types.ModuleType(spec.name)
        m.version, m.version_tuple = '0', (0,)
        return m

    def exec_module(self, module):
        pass


def install(so, quiet=True):
    import numpy, scipy.optimize, scipy.signal, multipledispatch  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    # no bytecode is read from or written to /repo
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(so))
    if quiet:
        logging.disable(logging.CRITICAL)
        warnings.simplefilter('ignore')
        numpy.seterr(all='ignore')
    lt = importlib.import_module('longitudinal_tomography')
    real = os.path.realpath
    assert real(lt.__file__).startswith(real(REPO) + '/'), lt.__file__
    mod = importlib.import_module(NAME)
    assert real(mod.__file__) == real(so), mod.__file__
    importlib.import_module('longitudinal_tomography.utils.tomo_config')
    importlib.import_module('tomo')
    return mod
