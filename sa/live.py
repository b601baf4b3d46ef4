"""Backward liveness of local names on the structured syntax tree.

Locals that are dead at a join are dropped before the join, so that their (irrelevant) values
are not merged."""
import ast


def uses(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))} if n is not None else set()


def defs(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} if n is not None else set()


class Live:
    def __init__(self, fn):
        self.always = set()
        body = fn.body if isinstance(fn.body, list) else []
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name):
                            self.always.add(y.id)
                elif isinstance(x, (ast.Nonlocal, ast.Global)):
                    self.always |= set(x.names)
        self.block(body, set(), None, None, set())

    def block(self, body, out, brk, cont, exc):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont, exc)
        return out

    def stmt(self, s, out, brk, cont, exc):
        assigned = defs(s) if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)) else ()
        if assigned:
            d = frozenset(n for n in assigned if n not in out and n not in exc and n not in self.always)
            # repeated visits (loop fixpoints) only grow the live set: keep the last answer
            s._dead = d
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont, exc)
            b = self.block(s.orelse, out, brk, cont, exc)
            return uses(s.test) | a | b | exc
        if isinstance(s, ast.For):
            after = self.block(s.orelse, out, brk, cont, exc)
            head = set(after)
            while True:
                b = self.block(s.body, head, out, head, exc) - defs(s.target)
                n = head | b
                if n == head:
                    break
                head = n
            s._deadhead = frozenset(n for n in defs(s) if n not in head and n not in exc and n not in self.always)
            return uses(s.iter) | uses(s.target) | head | exc
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out, brk, cont, exc)
            head = uses(s.test) | after
            while True:
                b = self.block(s.body, head, out, head, exc)
                n = head | b
                if n == head:
                    break
                head = n
            s._deadhead = frozenset(n for b in s.body for n in defs(b) if n not in head and n not in exc and n not in self.always)
            return head | exc
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, out, brk, cont, exc)
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk, cont, exc)
                if h.type is not None:
                    hs |= uses(h.type)
            e2 = exc | hs | (fin if s.finalbody else set())
            o = self.block(s.orelse, fin, brk, cont, e2)
            return self.block(s.body, o, brk, cont, e2) | hs | exc
        if isinstance(s, ast.With):
            r = self.block(s.body, out, brk, cont, exc)
            for it in s.items:
                r = r | uses(it.context_expr)
            return r
        if isinstance(s, (ast.Return, ast.Raise)):
            return uses(s) | exc
        if isinstance(s, ast.Break):
            return set(brk or ()) | exc
        if isinstance(s, ast.Continue):
            return set(cont or ()) | exc
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return out | uses(s)
        if isinstance(s, ast.AugAssign):
            u = uses(s)
            if isinstance(s.target, ast.Name):
                u = u | {s.target.id}
            return out | u | exc
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            return (out - defs(s)) | uses(s) | exc
        return out | uses(s) | exc


def annotate(fn):
    if not getattr(fn, '_lived', False):
        fn._lived = True
        Live(fn)
