"""Loop contracts: the Hoare rule for one `for` loop of a real function.

The function's source is read on every run; its body is cut mechanically into the
statements before the loop, the loop body and the statements after it (nothing is
dropped; the three pieces are compiled unchanged with the function's own globals and
exchange their local variables).  Obligations:
  initiation    the invariant holds after the prefix with counter 0,
  preservation  invariant(k) and the loop body give invariant(k + 1), 0 <= k < n,
  use           the suffix is run from invariant(n)."""
import ast
import inspect
import textwrap
from .dim import Unsupported


class LoopParts:
    def __init__(self, fn, index=0):
        f = inspect.unwrap(getattr(fn, '__func__', fn))
        src = textwrap.dedent(inspect.getsource(f))
        tree = ast.parse(src)
        fd = tree.body[0]
        fd.decorator_list = []
        loops = [i for i, s in enumerate(fd.body) if isinstance(s, ast.For)]
        if len(loops) <= index:
            raise Unsupported('the function has no loop number %d at top level' % index)
        i = loops[index]
        loop = fd.body[i]
        if loop.orelse or any(isinstance(x, (ast.Break, ast.Return)) for s in loop.body for x in ast.walk(s)):
            raise Unsupported('loop with break, return or else')
        self.globals = f.__globals__
        self.name = f.__qualname__
        self.params = [a.arg for a in fd.args.args]
        self.target = ast.unparse(loop.target)
        self.iter = ast.unparse(loop.iter)
        self.pre = self._mk([s for s in fd.body[:i]])
        self.body = self._mk(loop.body, loop.target)
        self.iter_code = compile(ast.fix_missing_locations(ast.Expression(loop.iter)), '<%s loop iterable>' % self.name, 'eval')
        self.post = self._mk(fd.body[i + 1:])

    def _mk(self, stmts, target=None):
        stmts = [s for s in stmts if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        fn = ast.parse('def _f(): pass').body[0]
        # locals in, locals out
        load = ast.parse('')
        body = list(stmts) + ast.parse('return ("__locals__", dict(locals()))').body
        fn.body = body
        names = set()
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        return (stmts, names, target)

    def run(self, part, env, target_value=None):
        stmts, names, target = part
        body = list(stmts)
        env = dict(env)
        if target is not None:
            env['__target__'] = target_value
            asg = ast.Assign(targets=[target], value=ast.Name('__target__', ast.Load()))
            body = [asg] + body
        body = body + ast.parse('__r__ = ("__locals__", locals())\nreturn __r__').body if False else body
        fn = ast.parse('def _f(%s):\n    pass' % ', '.join(sorted(env))).body[0]
        fn.body = body + ast.parse('return ("__locals__", dict(locals()))').body
        mod = ast.Module(body=[fn], type_ignores=[])
        ast.fix_missing_locations(mod)
        ns = {}
        exec(compile(mod, '<%s>' % self.name, 'exec'), self.globals, ns)
        r = ns['_f'](**env)
        if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str) and r[0] == '__locals__':
            return 'locals', {k: v for k, v in r[1].items() if k != '__target__'}
        return 'return', r

    def iteration(self, env, k):
        """(number of iterations, value of the loop target at iteration k)"""
        e = ast.parse(self.iter, mode='eval').body
        ev = lambda x: eval(compile(ast.fix_missing_locations(ast.Expression(x)), '<iter>', 'eval'), self.globals, dict(env))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('enumerate', 'range') and len(e.args) == 1:
            x = ev(e.args[0])
            if e.func.id == 'range':
                return x, k
            return x.shape[0], (k, x[k])
        if isinstance(e, (ast.Name, ast.Attribute)):
            x = ev(e)
            return x.shape[0], x[k]
        raise Unsupported('loop over %s' % self.iter)
