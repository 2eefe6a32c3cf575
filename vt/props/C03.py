"""C03: operations leave their operands unchanged.  Every harness of the other
properties states frame conditions around its calls (`with c.frame(...)`); here the
same harnesses are run and only those frame conditions are obligations."""
import importlib
import inspect
import os
import re
from vt import ctx

_here = os.path.dirname(os.path.abspath(__file__))
_mine = []
for _f in sorted(os.listdir(_here)):
    _m = re.fullmatch(r'(C\d\d)\.py', _f)
    if not _m or _m.group(1) == 'C03':
        continue
    importlib.import_module('vt.props.' + _m.group(1))
_seen = set()
for _h in list(ctx.HARNESSES):
    if _h.fn in _seen:
        continue
    _seen.add(_h.fn)
    if 'c.frame(' not in inspect.getsource(_h.fn):
        continue
    _k = ctx.Harness('C03', _h.prop + '.' + _h.name, _h.fn, _h.configs, _h.symbolic, max(1, _h.concrete // 3), _h.functions, exhaustive=_h.exhaustive, tol=_h.tol, engine=_h.engine, paths=_h.paths)
    _k.mode = 'frame'
    _mine.append(_k)
ctx.HARNESSES.extend(_mine)
