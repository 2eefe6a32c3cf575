"""Interference: results do not depend on the calls made before.

In half of the concrete cases, every call that a harness makes on an object of the library is
preceded by the same call with other arguments (arrays reversed, numbers shifted); the first
call on an object, and every attribute that a harness sets on it, is preceded by the calls of
its methods without argument.  Results and exceptions of these additional calls are discarded and the state of the
random generator is restored: for methods that leave their operands unchanged they have no
effect, so that the postconditions of the harness must hold all the same.  A result remembered
from an earlier call, or a change left in an operand, shows as a failed postcondition."""
import functools
import types
import warnings

import numpy as np

# methods that change their object on purpose, and solvers (which draw, iterate and report)
MUTATORS = {'update_attributes', '_precompute_attributes', 'update_dims_from_leaves', '__call__', 'store_eval', 'initialize', 'adapt_tree', 'pre_processing', 'prepare_alternating_minimization_system'}
SKIP = {'plot', 'solve', 'copy'}
SKIP_CLASSES = {'Function', 'TensorLearning', 'LinearModelLearning', 'TensorPrincipalComponentAnalysis', 'FunctionalTensorPrincipalComponentAnalysis', 'CompositionalModelFunction', 'Learning'}
KEEP_CLASSES = {'FunctionalTensor', 'FunctionalBasisArray'}
DEPTH = [0]
SAVED = []
COUNT = [0]
WARM = set()
PURE = {}


def other(x):
    """another argument of the same kind: -> (value, changed)"""
    if isinstance(x, (bool, np.bool_, str, type(None), slice)):
        return x, False
    if isinstance(x, (int, np.integer)):
        return (type(x)(x - 1) if x >= 2 else type(x)(x + 1)), True
    if isinstance(x, (float, np.floating)):
        return type(x)(.5 * x + .1), True
    if isinstance(x, np.ndarray) and x.dtype != object:
        if x.size == 0 or x.dtype == bool:
            return x, False
        if x.ndim and x.shape[0] > 1:
            return np.array(x[::-1]), True
        if x.ndim > 1 and x.shape[1] > 1:
            return np.array(x[:, ::-1]), True
        return (np.array(.5 * x + .1) if x.dtype.kind == 'f' else np.array(x)), x.dtype.kind == 'f'
    if isinstance(x, (list, tuple)) and len(x):
        if len(x) > 1 and all(isinstance(y, (int, float, np.number)) for y in x):
            return type(x)(reversed(x)), True
        r = [other(y) for y in x]
        return type(x)([v for v, _ in r]), any(b for _, b in r)
    return x, False


def has_callable(x):
    if isinstance(x, (list, tuple)):
        return any(has_callable(y) for y in x)
    return isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, functools.partial))


def aside(f, *a, **k):
    """the call, its effects on the random generator undone and its result forgotten"""
    st = np.random.get_state()
    DEPTH[0] += 1
    COUNT[0] += 1
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            f(*a, **k)
    except Exception:
        pass
    finally:
        DEPTH[0] -= 1
        np.random.set_state(st)


def warm(x):
    """the calls of the methods without argument"""
    WARM.add(id(x))
    for n in PURE.get(type(x), ()):
        aside(lambda: getattr(x, n)() if callable(getattr(type(x), n, None)) else getattr(x, n))


def wrap(f, interfere):
    @functools.wraps(f)
    def g(self, *a, **k):
        if DEPTH[0] == 0 and interfere:
            if id(self) not in WARM:
                warm(self)
            if not has_callable(a) and not has_callable(list(k.values())):
                p = [other(x) for x in a]
                q = {n: other(x) for n, x in k.items()}
                if any(b for _, b in p) or any(b for _, b in q.values()):
                    aside(f, self, *[v for v, _ in p], **{n: v for n, (v, _) in q.items()})
        DEPTH[0] += 1
        try:
            return f(self, *a, **k)
        finally:
            DEPTH[0] -= 1
    return g


def __setattr__(self, name, value):
    if DEPTH[0] == 0:
        warm(self)
    object.__setattr__(self, name, value)


def plain(f):
    """callable with the object alone"""
    c = f.__code__
    return c.co_argcount - len(f.__defaults__ or ()) <= 1 and not c.co_kwonlyargcount


def classes():
    import tensap
    seen = []
    for v in list(vars(tensap).values()):
        if isinstance(v, type) and v.__module__.startswith('tensap') and v not in seen:
            seen.append(v)
    return seen


def install():
    if SAVED:
        return
    WARM.clear()
    cs = classes()
    for c in cs:
        names = {b.__name__ for b in c.__mro__}
        on = bool(names & KEEP_CLASSES) or not names & SKIP_CLASSES
        for n, f in list(vars(c).items()):
            if isinstance(f, types.FunctionType) and n not in ('__setattr__', '__getattribute__', '__getattr__', '__class_getitem__', '__new__'):
                SAVED.append((c, n, f))
                setattr(c, n, wrap(f, on and n not in MUTATORS | SKIP and not (n.startswith('__') and n != '__eq__')))
    for c in cs:
        names = {b.__name__ for b in c.__mro__}
        if '__setattr__' in vars(c) or (names & SKIP_CLASSES and not names & KEEP_CLASSES):
            continue
        pure = []
        for b in c.__mro__:
            for n, f in vars(b).items():
                f = getattr(f, '__wrapped__', f)
                if n in MUTATORS | SKIP or n.startswith('_') or 'random' in n and 'moments' not in n or 'plot' in n or 'display' in n or n in pure:
                    continue
                if isinstance(f, property) or isinstance(f, types.FunctionType) and plain(f):
                    pure.append(n)
        SAVED.append((c, '__setattr__', None))
        setattr(c, '__setattr__', __setattr__)
        PURE[c] = pure


def uninstall():
    while SAVED:
        c, n, f = SAVED.pop()
        if f is None:
            delattr(c, n)
        else:
            setattr(c, n, f)
    DEPTH[0] = 0
