"""C06 expressions evaluate as documented"""
from contracts.common import T
from vc.harness import contract

EX, EE, ET = "libecalc.expression.expression", "libecalc.expression.expression_evaluator", "libecalc.expression.expression_tree"

ARITH = ["{+}", "{-}", "{*}", "{/}"]
COMP = ["==", "!=", "<", ">", "<=", ">="]
LEVEL = {"{^}": 3, "{*}": 2, "{/}": 2, "{+}": 1, "{-}": 1, **dict.fromkeys(COMP, 0)}


def _apply(s, o, a, b):
    """the documented meaning of one operator (comparisons give 0 or 1; division by zero gives 0)"""
    if o == "{+}":
        return a + b
    if o == "{-}":
        return a - b
    if o == "{*}":
        return a * b
    if o == "{/}":
        return s.ite(b == 0, 0.0, a / s.ite(b == 0, 1.0, b))
    c = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[o]()
    return s.ite(c, 1.0, 0.0)


def _parse(ops, terms):
    """the documented grouping of terms[0] ops[0] terms[1] ...: the operator applied last is the lowest one, the last of
    its level for left-to-right levels, the first for power"""
    if not ops:
        return terms[0]
    low = min(LEVEL[o] for o in ops)
    idx = [i for i, o in enumerate(ops) if LEVEL[o] == low]
    i = idx[0] if low == 3 else idx[-1]
    return (ops[i], _parse(ops[:i], terms[:i + 1]), _parse(ops[i + 1:], terms[i + 1:]))


class _Leaf:
    """stands for an arbitrary sub-expression: its contract is that it evaluates to one number per period"""

    def __init__(self, arr):
        self.arr = arr

    def evaluate(self, variables, fill_length):
        return self.arr


@contract("C06", ET + ":Node.evaluate", ET + ":get_operation", ET + ":OPERATORS")
def operator_node(s):
    """an operator applies period by period to whatever its two operands evaluate to (induction step over expressions)"""
    Node, Token, Tag = T(ET + ":Node"), T(EE + ":Token"), T(EE + ":TokenTag")
    n = s.length("n")
    o = s.choice("op", ARITH + COMP)
    a, b = s.array("a", n), s.array("b", n)
    r = s.run(Node(Token(tag=Tag.operator, value=o), _Leaf(a), _Leaf(b)).evaluate, {}, n)
    s.ensure("does not fail", r.ok)
    s.ensure("one value per period", s.len(r.value) == n)
    for k in s.indices(n):
        s.ensure(f"{o} period by period", s.eq(r.value[k], _apply(s, o, a[k], b[k])))


@contract("C06", ET + ":Node.evaluate", EX + ":Expression.evaluate", EX + ":Expression.setup_from_expression", EX + ":Expression.variables")
def leaf_expressions(s):
    """a number is the same number in every period, a reference its time series; an unknown reference is refused"""
    Expression, Inv = T(EX + ":Expression"), T(EX + ":InvalidExpressionError")
    n = s.length("n")
    v = s.array("v", n, kind="list")
    c = s.choice("const", [0, 5, -5, 2.5, 1e-7])
    e = s.run(Expression.setup_from_expression, c)
    s.ensure("a number is an expression", e.ok)
    r = s.run(e.value.evaluate, {}, n)
    f = s.run(Expression.setup_from_expression("SIM;GAS").evaluate, {"SIM;GAS": v}, n)
    g = s.run(Expression.setup_from_expression("SIM;GAS").evaluate, {"SIM;OIL": v}, n)
    s.ensure("does not fail", r.ok and f.ok)
    s.ensure("unknown reference is refused", g.raised(Inv))
    s.ensure("one value per period", s.and_(s.len(r.value) == n, s.len(f.value) == n))
    for k in s.indices(n):
        s.ensure("constant", s.eq(r.value[k], c))
        s.ensure("time series", s.eq(f.value[k], v[k]))


def _eval(s, t, vals):
    if isinstance(t, tuple):
        return _apply(s, t[0], _eval(s, t[1], vals), _eval(s, t[2], vals))
    return vals[t]


@contract("C06", ET + ":get_postfix", ET + ":get_tree", EX + ":Expression.evaluate", EE + ":lexer", bounded="up to 3 binary operators, at most one pair of parentheses; operand values unbounded", weight=4, budget=90)
def grouping(s):
    """expressions are grouped as documented: parentheses, power (right to left), multiply/divide, add/subtract, comparisons, each left to right"""
    Expression = T(EX + ":Expression")
    m = s.choice("nops", [1, 2, 3])
    groups = ["{+}", "{-}", "{*}", "{/}", "==", "<"] if s.symbolic and m == 3 else ARITH + COMP
    if m == 3 and s.symbolic:
        groups = ["{-}", "{/}", "<"]
    ops = [s.choice(f"op{i}", groups) for i in range(m)]
    vals = {f"V;X{i}": s.real("x") for i in range(m + 1)}
    names = list(vals)
    paren = s.choice("paren", [None] + [(i, j) for i in range(m + 1) for j in range(i + 1, m + 1)])
    text = ""
    for i in range(m + 1):
        if i:
            text += f" {ops[i - 1]} "
        text += ("(" if paren and paren[0] == i else "") + names[i] + (" )" if paren and paren[1] == i else "")
    if paren:
        i, j = paren
        inner = _parse(ops[i:j], names[i:j + 1])
        want = _parse(ops[:i] + ops[j:], names[:i] + ["#"] + names[j + 1:])
    else:
        inner, want = None, _parse(ops, names)
    sub = dict(vals)
    if inner is not None:
        sub["#"] = _eval(s, inner, vals)
    r = s.run(lambda: Expression.setup_from_expression(text).evaluate({k: [x] for k, x in vals.items()}, 1))
    s.ensure("does not fail", r.ok, text)
    s.ensure("value of the documented grouping", s.eq(r.value[0], _eval(s, want, sub)), text)


@contract("C06", ET + ":get_postfix", ET + ":get_tree", EE + ":lexer", EX + ":Expression.setup_from_expression", concrete_only=True, bounded="generated expressions with up to 7 operators, nested parentheses, numbers, references, white space and comments", cases=1500)
def generated_expressions(s):
    """generated expressions evaluate to what the documented rules give"""
    Expression = T(EX + ":Expression")
    r = s.rng
    vars_ = {"SIM;GAS": [3.0, 0.0, -2.0], "SIM2;OIL-PROD:SC_1": [1.0, 1.0, 5.0], "$var.a_1": [0.5, 2.0, 0.0], "A.B:C*D/E+F-": [7.0, -1.0, 2.0]}
    if s.given is not None:
        text, want = s.given["text"], s.given["want"]
    else:
        def lit():
            c = r.random()
            if c < 0.45:
                k = r.choice(list(vars_))
                return k + " ", vars_[k]
            t = r.choice(["2", "0", "0.5", "10.25", "1.5e-3", "2e2", "3.0e+1", "100", "4"])
            return t, [float(t)] * 3

        def gen(depth):
            k = r.choice([0, 1, 1, 2, 3]) if depth else 0
            terms, ops = [], []
            for i in range(k + 1):
                if depth and r.random() < 0.3:
                    t, v = gen(depth - 1)
                    terms.append(("(" + r.choice(["", " "]) + t + ")", v))
                else:
                    terms.append(lit())
                if i < k:
                    ops.append(r.choice(ARITH * 2 + COMP + ["{^}"]))
            tree = _parse(ops, list(range(k + 1)))

            def ev(t):
                if isinstance(t, tuple):
                    a, b = ev(t[1]), ev(t[2])
                    out = []
                    for x, y in zip(a, b):
                        if t[0] == "{^}":
                            if x < 0 and y != int(y) or x == 0 and y < 0 or abs(y) > 20 or abs(x) > 1e6:
                                raise OverflowError
                            out.append(x ** y)
                        else:
                            out.append(_apply(s, t[0], x, y))
                    return out
                return terms[t][1]

            txt = terms[0][0]
            for o, t in zip(ops, terms[1:]):
                txt += r.choice([" ", "  ", "\t", "\n"]) + o + r.choice(["", " "]) + t[0]
            return txt, ev(tree)

        try:
            text, want = gen(3)
        except OverflowError:
            return
        if any(abs(w) > 1e100 for w in want):
            return
        if r.random() < 0.1:
            text += " # comment {+} 1"
        s.drawn["text"], s.drawn["want"] = text, want
    out = s.run(lambda: Expression.setup_from_expression(text).evaluate(vars_, 3))
    s.ensure("does not fail", out.ok, text)
    for k in range(3):
        s.ensure("documented value", s.eq(out.value[k], want[k]), f"{text!r}: {list(out.value)} instead of {want}")
    again = s.run(lambda: Expression.setup_from_expression(str(Expression.setup_from_expression(text))).evaluate(vars_, 3))
    s.ensure("writing an expression out and reading it back keeps its value", again.ok and all(s.eq(a, b) for a, b in zip(again.value, want)), text)


BAD = ["", "1 2", "SIM;A SIM;B", "1 {+}", "{+} 1", "1 {+} {*} 2", "(1", "1)", "(1 {+} 2", "1 {+} 2)", "((1)", "1 + 2", "-5 {*} 2", "2 (3)", "(1) (2)", "1 {%} 2", "SIM;A {+} 2 3", "()", "1 {-} ()", "5 {*} -2", "@", "a == ", "=< 3"]


@contract("C06", ET + ":get_tree", ET + ":get_postfix", EE + ":lex", EX + ":Expression.setup_from_expression", bounded=f"{len(BAD)} malformed expressions")
def malformed_expressions(s):
    """a malformed expression is refused, never partly evaluated"""
    Expression, Inv = T(EX + ":Expression"), T(EX + ":InvalidExpressionError")
    for t in BAD:
        r = s.run(Expression.setup_from_expression, t)
        s.ensure(f"refused: {t!r}", r.raised(Inv))
    for t in ([1], None, {"a": 1}, (1,)):
        r = s.run(Expression.setup_from_expression, t)
        s.ensure(f"not an expression: {t!r}", r.raised(Inv))


@contract("C06", EX + ":Expression.multiply", EX + ":Expression.evaluate", bounded="factors: the listed forms; values unbounded")
def multiplied_expressions(s):
    """multiplying two expressions multiplies their values whatever operators they contain"""
    Expression = T(EX + ":Expression")
    forms = ["A", "A {+} B", "A {-} B", "A < B", "A {/} B", "2", "(A {+} 1) {*} B"]
    f, g = s.choice("f", forms), s.choice("g", forms)
    a, b = s.real("a"), s.real("b")
    e, h = Expression.setup_from_expression(f), Expression.setup_from_expression(g)
    v = {"A": [a], "B": [b]}
    r = s.run(lambda: (e.evaluate(v, 1)[0], h.evaluate(v, 1)[0], Expression.multiply(e, h).evaluate(v, 1)[0]))
    s.ensure("does not fail", r.ok)
    s.ensure("product of the values", s.eq(r.value[2], r.value[0] * r.value[1]))
