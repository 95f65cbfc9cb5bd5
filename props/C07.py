"""Macro arithmetic."""

from vf.api import scenario

from props.geo import N
from pygerber.gerber.ast.expression_eval_visitor import ExpressionEvalVisitor

ASSUMPTIONS = [
    "numbers are exact reals; replay on the real code compares with tolerance 1e-6",
    "expression trees of depth 2 over all operators with 2 or 3 operands; depth 3 in the thorough run",
    "division by zero is outside (the code raises ZeroDivisionError)",
]


def leaf(s, name, scope, full):
    # innermost operands alternate between constants and variables unless everything is asked for
    kind = s.choice(name + ".leaf", ["const", "var"]) if full else ["const", "var"][len(name) // 2 % 2 ^ int(name[-1] == "1")]
    v = s.real(name, -50, 50)
    if kind == "const":
        return N.Constant(constant=v), v
    k = f"${len(scope) + 1}"
    scope[k] = v
    return N.Variable(variable=k), v


def op_depth(name):
    return name.count(".")


OPS = ["leaf", "add", "sub", "mul", "div", "neg", "pos", "paren"]


def tree(s, name, depth, scope, full, ops=OPS):
    op = s.choice(name + ".op", ops) if depth else "leaf"
    if op == "leaf":
        return leaf(s, name, scope, full or op_depth(name) < 2)
    if op in ("neg", "pos", "paren"):
        n, v = tree(s, name + ".0", depth - 1, scope, full, ops)
        if op == "neg":
            return N.Neg(operand=n), -v
        if op == "pos":
            return N.Pos(operand=n), v
        return N.Parenthesis(inner=n), v
    k = s.choice(name + ".n", [2, 3]) if depth == 1 else 2
    parts = [tree(s, f"{name}.{i}", depth - 1, scope, full, ops) for i in range(k)]
    v = parts[0][1]
    for _, w in parts[1:]:
        if op == "add":
            v = v + w
        elif op == "sub":
            v = v - w
        elif op == "mul":
            v = v * w
        else:
            s.assume(s.lor(w > 0.01, w < -0.01))
            v = v / w
    cls = {"add": N.Add, "sub": N.Sub, "mul": N.Mul, "div": N.Div}[op]
    return cls(head=parts[0][0], tail=[p[0] for p in parts[1:]]), v


@scenario("C07", cases=[{"root": r} for r in ["add", "sub", "mul", "div", "neg", "pos", "paren"]] + [{"root": r, "full": True, "_tier": "thorough"} for r in ["add", "sub", "mul", "div", "neg", "pos", "paren"]], bounds="all trees of depth 2 below the root operator", max_paths=20000)
def evaluate(s, root, full=False):
    scope = {}
    if root in ("neg", "pos", "paren"):
        n, v = tree(s, "e", 2, scope, full)
        n, v = {"neg": lambda: (N.Neg(operand=n), -v), "pos": lambda: (N.Pos(operand=n), v), "paren": lambda: (N.Parenthesis(inner=n), v)}[root]()
    else:
        a, va = tree(s, "a", 1, scope, True)
        b, vb = tree(s, "b", 1, scope, True)
        cls = {"add": N.Add, "sub": N.Sub, "mul": N.Mul, "div": N.Div}[root]
        n = cls(head=a, tail=[b])
        if root == "div":
            s.assume(s.lor(vb > 0.01, vb < -0.01))
        v = {"add": lambda: va + vb, "sub": lambda: va - vb, "mul": lambda: va * vb, "div": lambda: va / vb}[root]()
    ev = ExpressionEvalVisitor(dict(scope))
    s.eq(ev.evaluate(n), v, "value", tol=1e-4)
    # evaluation leaves no state behind
    c = s.real("c", -10, 10)
    s.eq(ev.evaluate(N.Constant(constant=c)), c, "value of the next expression")
    s.eq(ev.evaluate(n), v, "value of the same expression again", tol=1e-4)


@scenario("C07", bounds="variables without a value are zero; a later assignment is seen by later expressions")
def variables(s):
    a, b = s.real("a", -10, 10), s.real("b", -10, 10)
    scope = {"$1": a}
    ev = ExpressionEvalVisitor(scope)
    s.eq(ev.evaluate(N.Variable(variable="$2")), 0.0, "unset variable")
    scope["$2"] = b
    s.eq(ev.evaluate(N.Sub(head=N.Variable(variable="$1"), tail=[N.Variable(variable="$2")])), a - b, "difference")
    s.eq(ev.evaluate(N.Add(head=N.Variable(variable="$3"), tail=[N.Variable(variable="$1")])), a, "unset variable in a sum")
