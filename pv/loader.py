"""Execute /repo sources, unchanged, with the array library replaced.

The text of each module is read from the working tree on every run and compiled by
CPython. Nothing is dropped. The differences from a normal import are what
`import numpy`, `import pyscf` and `from cqcpy...` return, and that `x is y` on two
values (not None, True or False) asks `symnp.identical`, because two arguments of a
function may be one object.
"""
import ast
import builtins
import importlib
import os
import sys
import types
from . import symnp
from .symnp import Unsupported

REPO = os.environ.get('PV_REPO', '/repo')
SAFE = {'math', 'itertools', 'functools', 'operator', 'copy', 'collections', 'sys', 'os', 'time',
        'warnings', 'logging', 'abc', 'types', 'typing', 'numbers', 'string', 'contextlib',
        'dataclasses', 'enum', '__future__', 'fractions', 're', 'inspect', 'textwrap'}


class ShimModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s' % (self.__name__, name))


def pyscf_shim(ao2mo_general=None, extra=None):
    lib = ShimModule('pyscf.lib')
    lib.einsum = symnp.einsum
    lib.dot = symnp.dot
    ao2mo = ShimModule('pyscf.ao2mo')
    if ao2mo_general is not None:
        ao2mo.general = ao2mo_general
    p = ShimModule('pyscf')
    p.lib = lib
    p.ao2mo = ao2mo
    mods = {'pyscf': p, 'pyscf.lib': lib, 'pyscf.ao2mo': ao2mo}
    for k, v in (extra or {}).items():
        mods[k] = v
        parts = k.split('.')
        for j in range(1, len(parts)):
            parent = '.'.join(parts[:j])
            if parent not in mods:
                mods[parent] = ShimModule(parent)
            if j == len(parts) - 1:
                setattr(mods[parent], parts[-1], v)
            else:
                nxt = '.'.join(parts[:j+1])
                if nxt not in mods:
                    mods[nxt] = ShimModule(nxt)
                setattr(mods[parent], parts[j], mods[nxt])
    return mods


class Foreign(object):
    """A module outside the modelled ones: importing it is harmless, using it is out
    of reach."""
    def __init__(self, name):
        self.__dict__['_name'] = name

    def _stop(self, *a, **k):
        raise Unsupported('use of ' + self._name)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return Foreign(self._name + '.' + name)

    __call__ = __bool__ = __iter__ = __len__ = __getitem__ = __setattr__ = _stop
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _stop
    __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __pow__ = __rpow__ = __enter__ = __exit__ = _stop


class Identity(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            return n
        if isinstance(n.left, ast.Constant) or isinstance(n.comparators[0], ast.Constant):
            return n
        r = ast.Call(ast.Name('__identical__', ast.Load()), [n.left, n.comparators[0]], [])
        if isinstance(n.ops[0], ast.IsNot):
            r = ast.UnaryOp(ast.Not(), r)
        return ast.fix_missing_locations(ast.copy_location(r, n))


class World(object):
    """One set of loaded modules."""
    def __init__(self, shims=None, numpy=None):
        self.mods = {}
        self.shims = {'numpy': numpy or symnp.NUMPY}
        self.shims.update(shims or pyscf_shim())
        self.sources = {}

    def load(self, name):
        """name: 'cqcpy.cc_equations'"""
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
            pkg = True
        else:
            path += '.py'
            pkg = False
        if not os.path.exists(path):
            raise ImportError(name)
        with open(path) as f:
            src = f.read()
        self.sources[name] = path
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b['len'] = symnp.sym_len
        m.__dict__['__builtins__'] = b
        self.mods[name] = m
        b['__identical__'] = symnp.identical
        code = compile(Identity().visit(ast.parse(src, path)), path, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, leaf = name.rpartition('.')
        if parent and parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    def _resolve(self, name):
        if name in self.shims:
            return self.shims[name]
        if name == 'cqcpy' or name.startswith('cqcpy.'):
            return self.load(name)
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top in self.shims or top == 'cqcpy':
            m = self._resolve(name)
            if m is None:
                raise ImportError('no module ' + name)
            if fromlist:
                for f in fromlist:
                    if f == '*' or f in m.__dict__:
                        continue
                    try:
                        sub = self._resolve(name + '.' + f)
                    except ImportError:
                        sub = None
                    if sub is not None:
                        setattr(m, f, sub)
                return m
            parts = name.split('.')
            for k in range(1, len(parts)):
                parent, child = self._resolve('.'.join(parts[:k])), self._resolve('.'.join(parts[:k+1]))
                if parent is not None and child is not None:
                    setattr(parent, parts[k], child)
            return self._resolve(top)
        if top in SAFE:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        return Foreign(name)


def state(mods):
    """What calls leave behind outside their arguments: values of the names of the given
    modules, attributes of their functions and classes, default values, closures, caches."""
    seen = {}
    out = {}

    def see(x, depth):
        if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
            return (type(x).__name__, x)
        if id(x) in seen:
            return ('seen', seen[id(x)])
        seen[id(x)] = len(seen)
        keep.append(x)
        if isinstance(x, (types.ModuleType, types.BuiltinFunctionType, Foreign)):
            return ('module', id(x))
        if depth > 12:
            return ('deep', id(x))
        if isinstance(x, symnp.Arr):
            return ('array', id(x), id(x.buf), see_data(x))
        if type(x).__module__ == 'numpy':
            try:
                return ('numpy', id(x), x.tobytes())
            except AttributeError:
                return ('numpy', id(x))
        if isinstance(x, dict):
            return ('dict', id(x)) + tuple((see(k, depth + 1), see(v, depth + 1)) for k, v in x.items())
        if isinstance(x, (list, tuple, set, frozenset)):
            return (type(x).__name__, id(x)) + tuple(see(y, depth + 1) for y in x)
        r = [type(x).__name__, id(x)]
        if hasattr(x, 'cache_info'):
            r.append(tuple(x.cache_info())[1:])
        if isinstance(x, types.FunctionType):
            r += [see(x.__defaults__, depth + 1), see(x.__kwdefaults__, depth + 1)]
            for c in x.__closure__ or ():
                try:
                    r.append(see(c.cell_contents, depth + 1))
                except ValueError:
                    r.append(None)
        if isinstance(x, type):
            for k, v in vars(x).items():
                if k not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                    r.append((k, see(v, depth + 1)))
        elif isinstance(getattr(x, '__dict__', None), dict):
            for k, v in vars(x).items():
                r.append((k, see(v, depth + 1)))
        return tuple(r)

    def see_data(x):
        return tuple(sorted(((str(k), str(v)) for k, v in x.buf.data.items())))

    keep = []
    for name, m in mods.items():
        for k, v in vars(m).items():
            if not (k.startswith('__') and k.endswith('__')):
                if isinstance(v, types.ModuleType):
                    continue
                out[name + '.' + k] = see(v, 0)
    return out, keep


_trees = {}


def tree(module):
    if module not in _trees:
        with open(os.path.join(REPO, *module.split('.')) + '.py') as f:
            _trees[module] = ast.parse(f.read())
    return _trees[module]


def literals(func):
    """Integers from 4 to 128 among those: sizes worth trying."""
    return sorted(x for x in numbers(func) if type(x) is int and 4 <= x <= 128)[:6]


def numbers(func):
    """Numbers written in a function, in what it calls in its own module, or at the
    top level of that module."""
    if not func.startswith('cqcpy.'):
        func = 'cqcpy.' + func
    module, _, name = func.rpartition('.')
    try:
        body = tree(module).body
    except (OSError, SyntaxError):
        try:
            module, _, cls = module.rpartition('.')
            body, name = tree(module).body, cls
        except (OSError, SyntaxError):
            return set()
    defs = {x.name: x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    todo, seen, out = [name], set(), set()
    nodes = [x for x in body if isinstance(x, ast.Assign)]
    while todo:
        n = todo.pop()
        if n in seen or n not in defs:
            continue
        seen.add(n)
        nodes.append(defs[n])
        todo += [x.id for x in ast.walk(defs[n]) if isinstance(x, ast.Name)]
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Constant) and type(x.value) in (int, float):
                out.add(x.value)
    return out


_real = {}


def real(name):
    """The real module, imported from /repo by the ordinary machinery."""
    if name not in _real:
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        m = importlib.import_module(name)
        if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError('%s imported from %s' % (name, m.__file__))
        _real[name] = m
    return _real[name]
