"""Import the real packages from the tree under test, transformed (or not)."""
import builtins
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('PYVC_REPO', '/repo')
PACKAGES = {
    'launch': 'launch/launch', 'launch_xml': 'launch_xml/launch_xml',
    'launch_yaml': 'launch_yaml/launch_yaml', 'launch_testing': 'launch_testing/launch_testing',
    'launch_pytest': 'launch_pytest/launch_pytest',
}
STATS = {'modules': 0, 'bytes': 0}
HERE = os.path.dirname(os.path.abspath(__file__))


def stub_path():
    return os.path.join(os.path.dirname(HERE), 'stubs')


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        root = fullname.split('.')[0]
        if root not in PACKAGES:
            return None
        base = os.path.join(REPO, PACKAGES[root], *fullname.split('.')[1:])
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            fn, pkg = os.path.join(base, '__init__.py'), [base]
        elif os.path.exists(base + '.py'):
            fn, pkg = base + '.py', None
        else:
            return None
        return importlib.util.spec_from_file_location(
            fullname, fn, loader=Loader(fullname, fn), submodule_search_locations=pkg)


class Loader(importlib.abc.Loader):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import transform
        with open(self.fn, encoding='utf-8') as f:
            src = f.read()
        STATS['modules'] += 1
        STATS['bytes'] += len(src)
        code = transform.transform(src, self.fn, self.name)
        exec(code, module.__dict__)

    def get_filename(self, name):
        return self.fn

    def get_source(self, name):
        with open(self.fn, encoding='utf-8') as f:
            return f.read()

    def is_package(self, name):
        return self.fn.endswith('__init__.py')


def install():
    """Route the packages under test through the transformer."""
    from . import rt
    builtins.__vc__ = rt
    rt.REPO_PREFIXES[:] = [REPO.rstrip('/') + '/', os.path.dirname(HERE) + '/']
    base_paths()
    sys.meta_path.insert(0, Finder())


def base_paths():
    sys.path.insert(0, stub_path())
    sp = '/opt/venv/lib/python3.12/site-packages'
    if os.path.isdir(sp) and sp not in sys.path:
        sys.path.append(sp)
    os.environ.setdefault('PYVC_REPO', REPO)
    os.environ.setdefault('ROS_LOG_DIR', '/tmp/pyvc_roslog')
    sys.dont_write_bytecode = True


def install_native():
    """Plain imports of the packages under test (bounded harnesses, replay)."""
    base_paths()
    for p in PACKAGES.values():
        sys.path.insert(0, os.path.join(REPO, os.path.dirname(p)))
