"""Import hook: compiles the repository's current source with three mechanical rewrites inside function bodies.

  f(a, *b, **c)          ->  __vc__.call(f, a, *b, **c)
  [e for t in it if c]   ->  __vc__.comp(kind, it, lambda t: e, lambda t: c)          (single-generator comprehensions)
  x.extend(e)            ->  x = __vc__.extend(x, e)                                  (x a local; x.extend(e) unless e is symbolic)
  for t in it: B         ->  if __vc__.symiter(it): B as a local function under __vc__.loop   else: the same for loop
  a in b                 ->  __vc__.isin(a, b)
  while c: B             ->  if __vc__.cut(): B as a local function under __vc__.wloop         else: the same while loop

Local variables that are bound more than once are captured (__vc__.snap) where a comprehension or loop is created,
since its elements are evaluated later.  Nothing is dropped: with concrete arguments every rewrite executes exactly the original construct.  Module level
code, class bodies, decorators and default values are left untouched."""
from __future__ import annotations

import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PACKAGES = ("libecalc", "ecalc_cli", "ecalc_neqsim_wrapper", "contracts")
CONTRACTS = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATS = {"modules": 0, "functions": 0, "calls": 0, "comps": 0, "loops": 0}

_SKIP_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "__vc__"}


class Names(ast.NodeVisitor):
    """Names (re)bound / mutated in a statement list, not descending into nested scopes."""

    def __init__(self):
        self.assigned = set()
        self.mutated = set()
        self.appended = set()
        self.bad = False
        self.has_yield = False
        self.globals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.assigned.add(n.id)

    def visit_FunctionDef(self, n):
        self.assigned.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.assigned.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.assigned.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals.update(n.names)
        self.bad = True

    visit_Nonlocal = visit_Global

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Await = visit_Yield

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("append", "extend", "insert", "add", "update", "pop", "remove", "setdefault", "clear"):
            if isinstance(f.value, ast.Name):
                self.mutated.add(f.value.id)
                self.appended.add(f.value.id)
            else:
                self.bad = self.bad or f.attr in ("append", "extend", "insert", "pop", "remove", "clear")
        self.generic_visit(n)

    def _target(self, t):
        if isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Name):
                self.mutated.add(t.value.id)
            elif isinstance(t.slice, ast.Slice):
                self.bad = True
            # otherwise: rewritten by BodyRewriter to __vc__.setitem, which accepts symbolic sequences only
        elif isinstance(t, ast.Attribute):
            self.bad = True
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._target(x)
                if isinstance(x, ast.Subscript) and not isinstance(x.value, ast.Name):
                    self.bad = True

    def visit_Assign(self, n):
        for t in n.targets:
            self._target(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self._target(n.target)
        self.generic_visit(n)


def names_of(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v


class Bindings(Names):
    """names of a function that are bound more than once (or in a loop): their value must be captured where a
    comprehension or loop is created, because its elements are evaluated later"""

    def __init__(self, params):
        super().__init__()
        self.count = {p: 1 for p in params}
        self.depth = 0

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.count[n.id] = self.count.get(n.id, 0) + (2 if self.depth else 1)

    def visit_For(self, n):
        self.visit(n.iter)
        self.depth += 1
        self.visit(n.target)
        for s in n.body:
            self.visit(s)
        self.depth -= 1
        for s in n.orelse:
            self.visit(s)

    def visit_While(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "extend" and isinstance(f.value, ast.Name):
            self.count[f.value.id] = 2
        self.generic_visit(n)


def rebound(params, stmts):
    v = Bindings(params)
    for s in stmts:
        v.visit(s)
    return {k for k, c in v.count.items() if c > 1}


def loads(nodes):
    return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def _has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


class BodyRewriter(ast.NodeTransformer):
    """break / continue / return inside a loop body that becomes a function."""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        n.body = [y for s in n.body for y in _aslist(self.visit(s))]
        self.depth -= 1
        n.orelse = [y for s in n.orelse for y in _aslist(self.visit(s))]
        return n

    visit_While = visit_For

    def visit_AnnAssign(self, n):
        # a local annotation cannot name a nonlocal; its value is kept
        if isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], n.value) if n.value is not None else ast.Pass(), n)
        return n

    def visit_Assign(self, n):
        if len(n.targets) == 1 and self._sub(n.targets[0]):
            t = n.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(vc("setitem"), [t.value, t.slice, n.value], [])), n)
        if any(self._sub(t) for t in n.targets):
            raise NotImplementedError
        return n

    def visit_AugAssign(self, n):
        t = n.target
        if self._sub(t):
            op = ast.Lambda(ast.arguments([], [ast.arg("__a"), ast.arg("__b")], None, [], [], None, []),
                            ast.BinOp(ast.Name("__a", ast.Load()), n.op, ast.Name("__b", ast.Load())))
            return ast.copy_location(ast.Expr(ast.Call(vc("augitem"), [t.value, t.slice, op, n.value], [])), n)
        return n

    @staticmethod
    def _sub(t):
        return isinstance(t, ast.Subscript) and not isinstance(t.value, ast.Name) and not isinstance(t.slice, ast.Slice)

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.Return(ast.Tuple([ast.Constant("break"), ast.Constant(None)], ast.Load()))

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.Return(ast.Constant(None))

    def visit_Return(self, n):
        return ast.Return(ast.Tuple([ast.Constant("return"), n.value or ast.Constant(None)], ast.Load()))


def vc(attr):
    return ast.Attribute(ast.Name("__vc__", ast.Load()), attr, ast.Load())


class FnTransformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.uid = 0
        self.scopes = []  # local names of enclosing functions
        self.multi = []  # those bound more than once
        self.qual = []

    # ---- expressions
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in _SKIP_CALLS:
            return n
        STATS["calls"] += 1
        return ast.copy_location(ast.Call(vc("call"), [n.func, *n.args], n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(vc("isin"), [n.left, n.comparators[0]], [])
            return ast.copy_location(ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c, n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            parts, run = [], []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    if run:
                        parts.append(ast.List(elts=run, ctx=ast.Load()))
                        run = []
                    parts.append(ast.Tuple(elts=[ast.Constant(1), e.value], ctx=ast.Load()))
                else:
                    run.append(e)
            if run:
                parts.append(ast.List(elts=run, ctx=ast.Load()))
            return ast.copy_location(ast.Call(func=vc("display"), args=parts, keywords=[]), n)
        return n

    def _lam(self, target, body):
        """lambda for `target`; tuple targets unpacked through nested lambdas"""
        if isinstance(target, ast.Name):
            return ast.Lambda(
                ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            self.uid += 1
            nm = f"__t{self.uid}"
            args, inner = [], body
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Name):
                    args.append(ast.arg(e.id))
                else:
                    self.uid += 1
                    an = f"__t{self.uid}"
                    args.append(ast.arg(an))
                    inner = ast.Call(self._lam(e, inner), [ast.Name(an, ast.Load())], [])
            unp = ast.Lambda(ast.arguments([], args, None, [], [], None, []), inner)
            return ast.Lambda(
                ast.arguments([], [ast.arg(nm)], None, [], [], None, []),
                ast.Call(vc("unpack"), [unp, ast.Constant(len(args)), ast.Name(nm, ast.Load())], []))
        return None

    def _comp(self, n, kind):
        g = n.generators
        if _has_walrus(n) or any(x.is_async for x in g):
            self.generic_visit(n)
            return n
        multi = self.multi[-1] if self.multi else set()
        bound = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        caught = sorted((loads([n]) & multi) - bound)
        self.generic_visit(n)
        STATS["comps"] += 1
        if kind == "dict":
            elt = ast.Tuple([n.key, n.value], ast.Load())
        else:
            elt = n.elt

        def build(gs, kindname):
            head = gs[0]
            if len(gs) == 1:
                e = self._lam(head.target, elt)
            else:
                inner = build(gs[1:], "list")
                if inner is None:
                    return None
                e = self._lam(head.target, inner)
            if e is None:
                return None
            if head.ifs:
                c = head.ifs[0] if len(head.ifs) == 1 else ast.BoolOp(ast.And(), head.ifs)
                cl = self._lam(head.target, c)
            else:
                cl = ast.Constant(None)
            fn = "comp" if len(gs) == 1 else "flatcomp"
            return ast.Call(vc(fn), [ast.Constant(kindname), head.iter, e, cl], [])

        r = build(g, kind)
        if r is not None and caught:
            no = lambda a: ast.arguments([], a, None, [], [], None, [])
            r = ast.Call(ast.Lambda(no([ast.arg(c) for c in caught]), r),
                         [ast.Call(vc("snap"), [ast.Lambda(no([]), ast.Name(c, ast.Load()))], []) for c in caught], [])
        return ast.copy_location(r, n) if r is not None else n

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    # ---- statements
    def _local_names(self):
        return self.scopes[-1] if self.scopes else set()

    def _loopfn(self, n, tag):
        info = names_of(n.body)
        if isinstance(n, ast.For):
            t = names_of([ast.Assign([n.target], ast.Constant(None))])
            targets = t.assigned
        else:
            targets = set()
        locs = self._local_names()
        ok = not info.bad and not info.has_yield
        nonloc = sorted((info.assigned | info.mutated | targets) & locs)
        foreign = (info.mutated | info.assigned) - locs
        return info, targets, nonloc, foreign, ok

    def visit_For(self, n):
        import copy

        if not self.scopes:
            self.generic_visit(n)
            return n
        info, targets, nonloc, foreign, ok = self._loopfn(n, "for")
        if info.has_yield or info.globals:
            self.generic_visit(n)
            return n
        STATS["loops"] += 1
        self.uid += 1
        u = self.uid
        reads = sorted((loads(n.body) & self.multi[-1]) - set(nonloc))
        sym_body = copy.deepcopy(n.body)
        target2 = copy.deepcopy(n.target)
        self.generic_visit(n)
        sym_body = [BodyRewriter().visit(s) for s in sym_body]
        sym_body = [y for s in sym_body for y in _aslist(self.visit(s))]
        it = f"__it{u}"
        x = f"__x{u}"
        bodyfn = ast.FunctionDef(
            name=f"__body{u}",
            args=ast.arguments([], [ast.arg(x)], None, [], [], None, []),
            body=([ast.Nonlocal(list(nonloc))] if nonloc else [])
            + [ast.Assign([target2], ast.Name(x, ast.Load()))] + sym_body,
            decorator_list=[], type_params=[])
        call = ast.Call(vc("loop"), [
            ast.Name(it, ast.Load()), ast.Name(f"__body{u}", ast.Load()), ast.Name(f"__get{u}", ast.Load()),
            ast.Name(f"__set{u}", ast.Load()),
            _const_list(sorted((info.assigned | targets) & set(nonloc))), _const_list(sorted(info.mutated & set(nonloc))),
            _const_list(sorted(targets)), _const_list(sorted((info.mutated - set(nonloc)))),
            ast.Constant(ok), ast.Constant(f"{self.mod}:{'.'.join(self.qual)}"), ast.Constant(bool(n.orelse)), _const_list(sorted(info.appended & set(nonloc)))], [])
        sym = [bodyfn, *self._getset(u, [*nonloc, *reads]),
               ast.Assign([ast.Name(f"__sig{u}", ast.Store())], call),
               ast.If(ast.Compare(ast.Name(f"__sig{u}", ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                      [ast.If(ast.Compare(ast.Subscript(ast.Name(f"__sig{u}", ast.Load()), ast.Constant(0), ast.Load()),
                                          [ast.Eq()], [ast.Constant("return")]),
                              [ast.Return(ast.Subscript(ast.Name(f"__sig{u}", ast.Load()), ast.Constant(1), ast.Load()))], [])],
                      copy.deepcopy(n.orelse))]
        orig_iter = n.iter
        n.iter = ast.Name(it, ast.Load())
        out = [
            ast.Assign([ast.Name(it, ast.Store())], ast.Call(vc("symiter"), [orig_iter], [])),
            ast.If(ast.Call(vc("is_symseq"), [ast.Name(it, ast.Load())], []), sym, [n]),
        ]
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return out

    def visit_Expr(self, n):
        """name.extend(x) on a local: the list may become a sequence of symbolic length, so the name is rebound"""
        self.generic_visit(n)
        c = n.value
        if not (self.scopes and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name)
                and c.func.value.id == "__vc__" and c.func.attr == "call" and len(c.args) == 2 and not c.keywords):
            return n
        f, arg = c.args
        if not (isinstance(f, ast.Attribute) and f.attr == "extend" and isinstance(f.value, ast.Name) and f.value.id in self.scopes[-1] and not isinstance(arg, ast.Starred)):
            return n
        nm = f.value.id
        out = ast.Assign([ast.Name(nm, ast.Store())], ast.Call(vc("extend"), [ast.Name(nm, ast.Load()), arg], []))
        ast.copy_location(out, n)
        ast.fix_missing_locations(out)
        return out

    def visit_While(self, n):
        import copy

        if not self.scopes:
            self.generic_visit(n)
            return n
        info, targets, nonloc, foreign, ok = self._loopfn(n, "while")
        if info.has_yield or info.globals or n.orelse or _has_walrus(n.test):
            self.generic_visit(n)
            return n
        STATS["loops"] += 1
        self.uid += 1
        u = self.uid
        sym_body = copy.deepcopy(n.body)
        test2 = copy.deepcopy(n.test)
        self.generic_visit(n)
        sym_body = [BodyRewriter().visit(s) for s in sym_body]
        sym_body = [y for s in sym_body for y in _aslist(self.visit(s))]
        test2 = self.visit(test2)
        bodyfn = ast.FunctionDef(
            name=f"__body{u}", args=ast.arguments([], [], None, [], [], None, []),
            body=([ast.Nonlocal(list(nonloc))] if nonloc else []) + sym_body, decorator_list=[], type_params=[])
        condfn = ast.FunctionDef(
            name=f"__cond{u}", args=ast.arguments([], [], None, [], [], None, []),
            body=[ast.Return(test2)], decorator_list=[], type_params=[])
        call = ast.Call(vc("wloop"), [
            ast.Name(f"__cond{u}", ast.Load()), ast.Name(f"__body{u}", ast.Load()), ast.Name(f"__get{u}", ast.Load()),
            ast.Name(f"__set{u}", ast.Load()),
            _const_list(sorted(info.assigned & set(nonloc))), _const_list(sorted(info.mutated & set(nonloc))),
            ast.Constant(ok), ast.Constant(f"{self.mod}:{'.'.join(self.qual)}")], [])
        sym = [bodyfn, condfn, *self._getset(u, nonloc),
               ast.Assign([ast.Name(f"__sig{u}", ast.Store())], call),
               ast.If(ast.Compare(ast.Name(f"__sig{u}", ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                      [ast.If(ast.Compare(ast.Subscript(ast.Name(f"__sig{u}", ast.Load()), ast.Constant(0), ast.Load()),
                                          [ast.Eq()], [ast.Constant("return")]),
                              [ast.Return(ast.Subscript(ast.Name(f"__sig{u}", ast.Load()), ast.Constant(1), ast.Load()))], [])],
                      [])]
        out = ast.If(ast.Call(vc("cut"), [ast.Constant(f"{self.mod}:{'.'.join(self.qual)}")], []), sym, [n])
        ast.copy_location(out, n)
        ast.fix_missing_locations(out)
        return out

    def _getset(self, u, nonloc):
        gbody = [ast.Assign([ast.Name("__d", ast.Store())], ast.Dict([], []))]
        for nm in nonloc:
            gbody.append(ast.Try(
                [ast.Assign([ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(nm), ast.Store())], ast.Name(nm, ast.Load()))],
                [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None, [ast.Pass()])], [], []))
        gbody.append(ast.Return(ast.Name("__d", ast.Load())))
        sbody = [ast.Nonlocal(list(nonloc))] if nonloc else []
        for nm in nonloc:
            sbody.append(ast.If(ast.Compare(ast.Constant(nm), [ast.In()], [ast.Name("__d", ast.Load())]),
                                [ast.Assign([ast.Name(nm, ast.Store())], ast.Subscript(ast.Name("__d", ast.Load()), ast.Constant(nm), ast.Load()))], []))
        sbody.append(ast.Pass())
        e = lambda a: ast.arguments([], a, None, [], [], None, [])
        return [
            ast.FunctionDef(name=f"__get{u}", args=e([]), body=gbody, decorator_list=[], type_params=[]),
            ast.FunctionDef(name=f"__set{u}", args=e([ast.arg("__d")]), body=sbody, decorator_list=[], type_params=[]),
        ]

    def visit_FunctionDef(self, n):
        STATS["functions"] += 1
        n = eager_generator(n)
        a = n.args
        params = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        info = names_of(n.body)
        self.scopes.append((info.assigned | params) - info.globals)
        self.multi.append(rebound(params, n.body) & self.scopes[-1])
        self.qual.append(n.name)
        if not any(isinstance(x, (ast.AsyncFunctionDef,)) for x in [n]):
            n.body = [y for s in n.body for y in _aslist(self.visit(s))]
        self.qual.pop()
        self.scopes.pop()
        self.multi.pop()
        return n

    def visit_Lambda(self, n):
        # keep default args untouched; instrument the body
        n.body = self.visit(n.body)
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        saved, saved_multi = self.scopes, self.multi
        self.scopes, self.multi = [], []
        new = []
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                new.extend(_aslist(self.visit(s)))
            else:
                new.append(s)
        defined = {s.name for s in n.body if isinstance(s, ast.FunctionDef)}
        if "__len__" in defined and "__bool__" not in defined:
            # the truth value of an object with a length: python would insist on a concrete integer
            new.extend(ast.parse("def __bool__(self):\n    return __vc__.nonempty(self.__len__())").body)
        n.body = new
        self.scopes, self.multi = saved, saved_multi
        self.qual.pop()
        return n


class _Yields(ast.NodeTransformer):
    """yield e -> __out.append(e); yield from e -> __out = __vc__.extended(__out, e); return -> return the collected items"""

    def __init__(self):
        self.bad = False

    def visit_FunctionDef(self, n):
        return n

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            v = n.value.value or ast.Constant(None)
            self.generic_visit(v)
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name("__out", ast.Load()), "append", ast.Load()), [v], [])), n)
        if isinstance(n.value, ast.YieldFrom):
            self.generic_visit(n.value.value)
            return ast.copy_location(ast.Assign([ast.Name("__out", ast.Store())], ast.Call(vc("extended"), [ast.Name("__out", ast.Load()), n.value.value], [])), n)
        self.generic_visit(n)
        return n

    def visit_Yield(self, n):
        self.bad = True
        return n

    visit_YieldFrom = visit_While = visit_Try = visit_With = visit_Yield

    def visit_Return(self, n):
        if n.value is not None:
            self.bad = True
        return ast.copy_location(ast.Return(ast.Call(vc("items"), [ast.Name("__out", ast.Load())], [])), n)


def eager_generator(n):
    """a generator function as one that collects its items: the items and their order are the same (when they are computed is not)"""
    if not names_of(n.body).has_yield or any(not (isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property")) for d in n.decorator_list):
        return n
    y = _Yields()
    new = y.visit(ast.Module(copy.deepcopy(n.body), [])).body
    if y.bad:
        return n
    n.body = [ast.Assign([ast.Name("__out", ast.Store())], ast.List([], ast.Load()))] + new + [ast.Return(ast.Call(vc("items"), [ast.Name("__out", ast.Load())], []))]
    ast.copy_location(n.body[0], n)
    ast.copy_location(n.body[-1], n)
    ast.fix_missing_locations(n)
    return n


def _aslist(x):
    if x is None:
        return []
    return x if isinstance(x, list) else [x]


def _const_list(names):
    return ast.Tuple([ast.Constant(x) for x in names], ast.Load())


def _locate(node, line, col):
    """give every generated node the position of its nearest located ancestor"""
    if "lineno" in node._attributes:
        if getattr(node, "lineno", None) is None:
            node.lineno, node.col_offset = line, col
        if getattr(node, "end_lineno", None) is None or node.end_lineno < node.lineno:
            node.end_lineno, node.end_col_offset = node.lineno, node.col_offset
        if getattr(node, "end_col_offset", None) is None:
            node.end_col_offset = node.col_offset
        line, col = node.lineno, node.col_offset
    for c in ast.iter_child_nodes(node):
        _locate(c, line, col)


def transform(tree, modname):
    t = FnTransformer(modname)
    new = []
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            new.extend(_aslist(t.visit(s)))
        elif isinstance(s, ast.If):  # e.g. TYPE_CHECKING blocks: leave
            new.append(s)
        else:
            new.append(s)
    tree.body = new
    _locate(tree, 1, 0)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        return self.source_to_code(src, path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, filename=path)
        mod = self.name
        STATS["modules"] += 1
        transform(tree, mod)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from vc import rt

        module.__dict__["__vc__"] = rt
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in PACKAGES:
            return None
        rel = fullname.replace(".", "/")
        base = os.path.join(CONTRACTS if top == "contracts" else REPO_SRC, rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(fullname, p), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=Loader(fullname, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install():
    for m in list(sys.modules):
        if m.split(".")[0] in PACKAGES:
            raise RuntimeError("repository already imported")
    sys.meta_path.insert(0, Finder())
    sys.setrecursionlimit(20000)
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
