"""
pydv.instrument: mechanical syntax-tree instrumentation.

What it changes (and nothing else):

 - 'for' and 'while' loops report each iteration to the engine, which lets a
   loop over a sequence of symbolic length be cut by an invariant;
 - list comprehensions/generator expressions with a single generator become a
   call with the element and condition as lambdas;
 - stores to attributes/items, and calls of mutating container methods, are
   reported (for frame checks inside cut loops);
 - an empty list display becomes a list that a loop specification can let
   stand for the list after an arbitrary number of iterations;
 - positional arguments passed on or received with a star may be a sequence
   of symbolic length;
 - each function reports that it was entered (evidence only);
 - a bare 'except:' becomes 'except Exception:', so that it doesn't swallow
   the engine's own control flow.

Builtins and the names of a few external modules are redirected by the loader.
"""
import ast

MUTATORS = {
    'append', 'add', 'pop', 'remove', 'insert', 'extend', 'update', 'clear',
    'setdefault', 'discard', 'sort', 'reverse', 'popitem'}


def assigned_names(stmts):
    """Names stored by statements, nested functions/classes excluded."""
    names = []

    class V(ast.NodeVisitor):
        def add(self, n):
            if n not in names:
                names.append(n)

        def visit_Name(self, node):
            if isinstance(node.ctx, (ast.Store, ast.Del)):
                self.add(node.id)

        def visit_FunctionDef(self, node):
            self.add(node.name)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, node):
            self.add(node.name)

        def visit_Lambda(self, node):
            pass

        def visit_ListComp(self, node):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, node):
            # the 'as' name is unbound at the end of the handler
            for s in node.body:
                self.visit(s)

        def visit_Import(self, node):
            for a in node.names:
                self.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

    v = V()
    for s in stmts:
        v.visit(s)
    return names


def name(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def call(fname, *args):
    return ast.Call(func=name(fname), args=list(args), keywords=[])


def has_jump(stmts):
    """break/continue belonging to this level?"""
    class V(ast.NodeVisitor):
        found = False
        def visit_Break(self, node): self.found = True
        def visit_Continue(self, node): self.found = True
        def visit_For(self, node): pass
        def visit_While(self, node): pass
        def visit_FunctionDef(self, node): pass
    v = V()
    for s in stmts:
        v.visit(s)
    return v.found


class Instrumenter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.depth = 0
        self.fname = []
        self.k = 0
        self.scoped = []            # global/nonlocal names per function

    def loc(self, node):
        return "%s:%s:%d" % (
            self.modname, ".".join(self.fname), node.lineno)

    def visit_FunctionDef(self, node):
        self.fname.append(node.name)
        self.depth += 1
        node.body = self.block(node.body)
        k = 1 if (isinstance(node.body[0], ast.Expr) and isinstance(
            node.body[0].value, ast.Constant)) else 0
        node.body.insert(k, ast.copy_location(ast.Expr(call(
            '_dv_enter_', ast.Constant("%s.%s" % (
                self.modname, ".".join(self.fname))))), node))
        if node.args.vararg:
            v = node.args.vararg.arg
            node.body.insert(k + 1, ast.copy_location(ast.Assign(
                targets=[name(v, ast.Store())],
                value=call('_dv_varargs_', name(v))), node))
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        if node.name == '__bool__':
            node.decorator_list.insert(0, ast.copy_location(
                ast.Name('_dv_bool_', ast.Load()), node))
        node.args = self.visit(node.args)
        self.depth -= 1
        self.fname.pop()
        return node

    def visit_ClassDef(self, node):
        self.fname.append(node.name)
        depth, self.depth = self.depth, 0
        node.body = self.block(node.body)
        self.depth = depth
        self.fname.pop()
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            v = getattr(node, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, field, self.block(v))
        for field, old in ast.iter_fields(node):
            if field in ('body', 'orelse', 'finalbody') and isinstance(
                    old, list) and old and isinstance(old[0], ast.stmt):
                continue
            if isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        r = self.visit(x)
                        if isinstance(r, list):
                            new.extend(r)
                        elif r is not None:
                            new.append(r)
                    else:
                        new.append(x)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    # --- loops -----------------------------------------------------------
    def _unpack(self, names, value):
        """names = value (a sequence), as a statement."""
        return ast.Assign(
            targets=[ast.List(elts=[name(n, ast.Store()) for n in names],
                              ctx=ast.Store())],
            value=value)

    def _assign_or_expr(self, names, value):
        if names:
            return self._unpack(names, value)
        return ast.Expr(value)

    def visit_For(self, node):
        if not self.depth:
            return self.generic_visit(node)
        loc = self.loc(node)
        self.k += 1
        L = "__L%d" % self.k
        tnames = assigned_names([ast.Assign(targets=[node.target],
                                            value=ast.Constant(None))])
        bnames = [n for n in assigned_names(node.body) if n not in tnames]
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)

        def strs(xs):
            return ast.Tuple(elts=[ast.Constant(x) for x in xs],
                             ctx=ast.Load())
        pre = ast.Assign(
            targets=[name(L, ast.Store())],
            value=call('_dv_loop_', it, ast.Constant(loc),
                       strs(bnames), strs(tnames)))

        def hook(meth, names):
            return ast.If(
                test=ast.Attribute(value=name(L), attr='sym', ctx=ast.Load()),
                body=[self._assign_or_expr(names, ast.Call(
                    func=ast.Attribute(
                        value=name(L), attr=meth, ctx=ast.Load()),
                    args=[], keywords=[]))],
                orelse=[])
        loop = ast.For(
            target=node.target, iter=name(L),
            body=[hook('enter', bnames)] + body,
            orelse=[hook('leave', bnames + tnames)] + orelse)
        return [ast.copy_location(x, node) for x in (pre, loop)]

    def visit_While(self, node):
        if not self.depth or has_jump(node.orelse):
            return self.generic_visit(node)
        loc = self.loc(node)
        self.k += 1
        L = "__W%d" % self.k
        names = assigned_names(node.body)
        test = self.visit(node.test)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        pre = ast.Assign(
            targets=[name(L, ast.Store())],
            value=call('_dv_wloop_', ast.Constant(loc), ast.Tuple(
                elts=[ast.Constant(x) for x in names], ctx=ast.Load())))
        step = ast.If(
            test=ast.Call(func=ast.Attribute(
                value=name(L), attr='step', ctx=ast.Load()),
                args=[], keywords=[]),
            body=[self._assign_or_expr(names, ast.Call(
                func=ast.Attribute(
                    value=name(L), attr='vals', ctx=ast.Load()),
                args=[], keywords=[]))],
            orelse=[])
        exit_ = ast.If(
            test=ast.UnaryOp(op=ast.Not(), operand=test),
            body=orelse + [ast.Break()], orelse=[])
        loop = ast.While(
            test=ast.Constant(True), body=[step, exit_] + body, orelse=[])
        return [ast.copy_location(x, node) for x in (pre, loop)]

    # --- comprehensions --------------------------------------------------
    def _comp(self, node, kind):
        node = self.generic_visit(node)
        if not self.depth or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async:
            return node
        t = g.target
        if isinstance(t, ast.Name):
            params, star = [t.id], False
        elif isinstance(t, ast.Tuple) and all(
                isinstance(x, ast.Name) for x in t.elts):
            params, star = [x.id for x in t.elts], True
        else:
            return node
        for x in ast.walk(node):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom,
                              ast.Await)):
                return node

        def lam(body):
            return ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg=p) for p in params],
                    kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=body)
        cond = ast.Constant(None)
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                op=ast.And(), values=g.ifs)
            cond = lam(test)
        return ast.copy_location(call(
            '_dv_comp_', ast.Constant(kind), g.iter, lam(node.elt), cond,
            ast.Constant(star)), node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_List(self, node):
        node = self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            return ast.copy_location(call('_dv_newlist_', *node.elts), node)
        return node

    # --- stores ----------------------------------------------------------
    def _reports(self, targets):
        out = []
        for t in targets:
            for x in ast.walk(t):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                   isinstance(x.ctx, (ast.Store, ast.Del)):
                    what = x.attr if isinstance(x, ast.Attribute) else '[]'
                    base = x.value
                    # Only re-evaluate side-effect-free base expressions
                    ok = all(isinstance(y, (
                        ast.Name, ast.Attribute, ast.Load)) for y in
                        ast.walk(base))
                    if ok:
                        import copy
                        b = copy.deepcopy(base)
                        out.append(ast.Expr(call(
                            '_dv_wrote_', b, ast.Constant(what))))
                    else:
                        out.append(ast.Expr(call(
                            '_dv_wrote_', ast.Constant(None),
                            ast.Constant(what))))
        return out

    def visit_Assign(self, node):
        reports = self._reports(node.targets) if self.depth else []
        node = self.generic_visit(node)
        return [ast.copy_location(x, node) for x in reports] + [node]

    def visit_AugAssign(self, node):
        reports = self._reports([node.target]) if self.depth else []
        node = self.generic_visit(node)
        return [ast.copy_location(x, node) for x in reports] + [node]

    def visit_Delete(self, node):
        reports = self._reports(node.targets) if self.depth else []
        node = self.generic_visit(node)
        return [ast.copy_location(x, node) for x in reports] + [node]

    def visit_Call(self, node):
        node = self.generic_visit(node)
        f = node.func
        if self.depth and isinstance(f, ast.Attribute) and f.attr in MUTATORS \
           and not (isinstance(f.value, ast.Call) and isinstance(
               f.value.func, ast.Name) and f.value.func.id == 'super'):
            f.value = call('_dv_mut_', f.value, ast.Constant(f.attr))
        return node

    def visit_Starred(self, node):
        node = self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            node.value = call('_dv_star_', node.value)
        return node

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if node.type is None:
            node.type = name('Exception')
        return node


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    ins = Instrumenter(modname)
    tree.body = ins.block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
