# Reference grammar: scripts, statements and declarations (ECMAScript 2019, clauses 13-15), with ESTree as the tree.


def kw(word, goal):
    """one keyword / contextual word"""
    if not at(word):
        fail("UnexpectedToken")
    return take(goal)


def punc(p, goal):
    if not at(p):
        fail("UnexpectedToken")
    return take(goal)


def semicolon():
    """automatic semicolon insertion (11.9.1)"""
    if at(";"):
        take(RegExp)
    elif not nl() and not at("}", "#eof"):
        fail("UnexpectedToken")


def until(close):
    pass


# ------------------------------------------------------------------------------------------------ programs
@nt(entry=1, mutates=("strict",))
def parse_script():
    m = mark()
    body = parse_directive_prologues()
    while not at("#eof"):
        body = push(body, parse_stmt_list_item())
    return Node.Program(body=body, source_type="script", span=m)


@nt(entry=1, mutates=("strict",))
def parse_module():
    m = mark()
    setflag("strict", 1)
    body = parse_directive_prologues(has_yield=0, has_await=0, has_return=0)
    while not at("#eof"):
        body = push(body, parse_module_item())
    return Node.Program(body=body, source_type="module", span=m)


@nt(nullable=1, mutates=("strict",))
def parse_directive_prologues():
    body = []
    while at("#str"):
        m = mark()
        deviation("C17-use-strict-spelling")
        expr = parse_expression(has_in=1)
        if is_(expr, "Node.Literal") and get(expr, "Node.Literal", "value") == Value.Str("use strict"):
            setflag("strict", 1)
        semicolon()
        body = push(body, Node.ExpressionStatement(expression=expr, span=m))
        if not is_(expr, "Node.Literal"):
            break
    return body


# ------------------------------------------------------------------------------------------------ statements
@nt(nullable=1)
def parse_statement_list():
    body = []
    while not at("}"):
        body = push(body, parse_stmt_list_item())
    return body


def hoistable(word):
    return parse_hoistable_dclr(has_default=0)


@nt
def parse_stmt_list_item():
    if at("function"):
        return parse_hoistable_dclr(has_default=0)
    if at("id:async"):
        if peek_at("function") and not peek_nl():
            return parse_hoistable_dclr(has_default=0)
        return parse_expression_or_labelled_stmt()
    if at("class"):
        return parse_class_dclr(has_default=0)
    if at("const", "id:let"):
        deviation("C10-let-expression-statement")
        return parse_lexical_dclr(has_in=1)
    return parse_statement()


def parse_declaration():
    if at("function"):
        return parse_hoistable_dclr(has_default=0)
    if at("id:async"):
        return parse_hoistable_dclr(has_default=0)
    if at("class"):
        return parse_class_dclr(has_default=0)
    if at("const", "id:let"):
        return parse_lexical_dclr(has_in=1)
    fail("UnexpectedToken")


@nt
def parse_statement():
    if at("{"):
        return parse_block_stmt()
    if at("var"):
        return parse_variable_stmt(True)
    if at(";"):
        return parse_empty_stmt()
    if at("if"):
        return parse_if_stmt()
    if at("for", "while", "do"):
        return parse_iteration_stmt()
    if at("switch"):
        return parse_switch_stmt()
    if at("continue"):
        return parse_continue_stmt()
    if at("break"):
        return parse_break_stmt()
    if at("return"):
        if not flag("has_return"):
            fail("IllegalReturn")
        return parse_return_stmt()
    if at("with"):
        return parse_with_stmt()
    if at("throw"):
        return parse_throw_stmt()
    if at("try"):
        return parse_try_stmt()
    if at("debugger"):
        return parse_debugger_stmt()
    deviation("C10-async-function-and-let-bracket-in-statement-position")
    return parse_expression_or_labelled_stmt()


@nt
def parse_expression_or_labelled_stmt():
    if at("class"):
        fail("UnexpectedToken")
    m = mark()
    expr = parse_expression(has_in=1)
    if at(":") and is_(expr, "Node.Identifier"):
        label = S.Identifier(name=get(expr, "Node.Identifier", "name"), span=get(expr, "Node.Identifier", "span"))
        take(RegExp)
        if at("function"):
            if flag("strict"):
                fail("StrictFunction")
            body = labelled_function()
        else:
            body = parse_statement()
        return Node.LabeledStatement(label=label, body=body, span=m)
    semicolon()
    return Node.ExpressionStatement(expression=expr, span=m)


def labelled_function():
    m = mark()
    return function_declaration(m, False, False, has_default=0)


@nt
def parse_block_stmt():
    m = mark()
    punc("{", RegExp)
    body = parse_statement_list()
    punc("}", RegExp)
    return Node.BlockStatement(body=body, span=m)


@nt
def parse_empty_stmt():
    m = mark()
    punc(";", RegExp)
    return Node.EmptyStatement(span=m)


@nt
def parse_variable_stmt(consume_var):
    m = mark()
    if consume_var:
        kw("var", RegExp)
    ds = [parse_variable_dclr("var", has_in=1)]
    while at(","):
        take(RegExp)
        ds = push(ds, parse_variable_dclr("var", has_in=1))
    semicolon()
    return Node.VariableDeclaration(declarations=ds, kind="var", span=m)


@nt
def parse_variable_dclr(kind):
    id = parse_binding_id_or_pat()
    if at("="):
        take(RegExp)
        return S.VariableDeclarator(id=id, init=some(parse_assignment_expr()))
    if kind == "const":
        fail("MissingInitializer")
    if not is_(id, "Binding.BindingIdentifier"):
        fail("MissingInitializer")
    return S.VariableDeclarator(id=id, init=None)


@nt
def parse_lexical_dclr():
    m = mark()
    if at("const"):
        kind = "const"
    elif at("id:let"):
        kind = "let"
    else:
        fail("UnexpectedToken")
    take(RegExp)
    ds = [parse_variable_dclr(kind)]
    while at(","):
        take(RegExp)
        ds = push(ds, parse_variable_dclr(kind))
    semicolon()
    return Node.VariableDeclaration(declarations=ds, kind=kind, span=m)


@nt
def parse_if_stmt():
    m = mark()
    kw("if", RegExp)
    punc("(", RegExp)
    test = parse_expression(has_in=1)
    punc(")", RegExp)
    consequent = parse_statement()
    alternate = None
    if at("else"):
        take(RegExp)
        alternate = some(parse_statement())
    return Node.IfStatement(test=test, consequent=consequent, alternate=alternate, span=m)


@nt(pre=("for", "while", "do"))
def parse_iteration_stmt():
    if at("for"):
        return parse_for_stmt()
    if at("while"):
        return parse_while_stmt()
    if at("do"):
        return parse_do_while_stmt()
    fail("UnexpectedToken")


@nt
def parse_for_stmt():
    deviation("C10-for-await")
    m = mark()
    kw("for", RegExp)
    punc("(", RegExp)
    if at("var", "const", "id:let"):
        dm = mark()
        if at("var"):
            kind = "var"
        elif at("const"):
            kind = "const"
        else:
            kind = "let"
        take(RegExp)
        bm = mark()
        id = parse_binding_id_or_pat()
        if at("in"):
            left = Node.VariableDeclaration(declarations=[S.VariableDeclarator(id=id, init=None)], kind=kind, span=dm)
            return for_in(left, m)
        if at("id:of"):
            left = Node.VariableDeclaration(declarations=[S.VariableDeclarator(id=id, init=None)], kind=kind, span=dm)
            return for_of(left, m)
        init = None
        if at("="):
            take(RegExp)
            init = some(parse_assignment_expr(has_in=0))
        elif not is_(id, "Binding.BindingIdentifier"):
            fail("MissingInitializer", or_at=bm)
        elif kind == "const":
            fail("MissingInitializer", or_at=bm)
        ds = [S.VariableDeclarator(id=id, init=init)]
        while at(","):
            take(RegExp)
            ds = push(ds, parse_variable_dclr(kind, has_in=0))
        return for_classic(some(Node.VariableDeclaration(declarations=ds, kind=kind, span=dm)), m)
    if at(";"):
        return for_classic(None, m)
    em = mark()
    expr = parse_assignment_expr(has_in=0)
    if at("in", "id:of"):
        if is_(expr, "Node.ObjectExpression") or is_(expr, "Node.ArrayExpression"):
            left = to_assignment_pattern(expr)
        else:
            left = expr
            if assign_target_type(expr) != "simple":
                fail("InvalidLhsInFor")
        if at("in"):
            return for_in(left, m)
        return for_of(left, m)
    if at(","):
        es = [expr]
        while at(","):
            take(RegExp)
            es = push(es, parse_assignment_expr(has_in=0))
        return for_classic(some(Node.SequenceExpression(expressions=es, assign_target_type="invalid", span=em)), m)
    return for_classic(some(expr), m)


def for_in(left, m):
    take(RegExp)
    right = parse_expression(has_in=1)
    punc(")", RegExp)
    body = parse_statement(in_iteration=1)
    return Node.ForInStatement(left=left, right=right, body=body, each=False, span=m)


def for_of(left, m):
    take(RegExp)
    right = parse_assignment_expr(has_in=1)
    punc(")", RegExp)
    body = parse_statement(in_iteration=1)
    return Node.ForOfStatement(left=left, right=right, body=body, span=m)


def for_classic(init, m):
    punc(";", RegExp)
    test = None
    if not at(";"):
        test = some(parse_expression(has_in=1))
    punc(";", RegExp)
    update = None
    if not at(")"):
        update = some(parse_expression(has_in=1))
    punc(")", RegExp)
    body = parse_statement(in_iteration=1)
    return Node.ForStatement(init=init, test=test, update=update, body=body, span=m)


@nt
def parse_while_stmt():
    m = mark()
    kw("while", RegExp)
    punc("(", RegExp)
    test = parse_expression(has_in=1)
    punc(")", RegExp)
    body = parse_statement(in_iteration=1)
    return Node.WhileStatement(test=test, body=body, span=m)


@nt
def parse_do_while_stmt():
    m = mark()
    kw("do", RegExp)
    body = parse_statement(in_iteration=1)
    kw("while", RegExp)
    punc("(", RegExp)
    test = parse_expression(has_in=1)
    punc(")", RegExp)
    # 11.9.1: a semicolon is inserted unconditionally after do-while
    if at(";"):
        take(RegExp)
    return Node.DoWhileStatement(body=body, test=test, span=m)


@nt
def parse_switch_stmt():
    m = mark()
    kw("switch", RegExp)
    punc("(", RegExp)
    d = parse_expression(has_in=1)
    punc(")", RegExp)
    punc("{", RegExp)
    cases = []
    seen = False
    while not at("}"):
        if at("case"):
            take(RegExp)
            test = some(parse_expression(has_in=1))
        elif at("default"):
            if seen:
                fail("MultipleDefaultsInSwitch")
            seen = True
            take(RegExp)
            test = None
        else:
            fail("UnexpectedToken")
        punc(":", RegExp)
        body = []
        while not at("}", "case", "default"):
            body = push(body, parse_stmt_list_item(in_switch=1))
        cases = push(cases, S.SwitchCase(test=test, consequent=body))
    take(RegExp)
    return Node.SwitchStatement(discriminant=d, cases=cases, span=m)


@nt
def parse_continue_stmt():
    m = mark()
    kw("continue", RegExp)
    label = None
    if at("#id", "yield", "await") and not nl():
        label = some(parse_id_reference())
    elif not flag("in_iteration"):
        fail("NoIterationStatement")
    semicolon()
    return Node.ContinueStatement(label=label, span=m)


@nt
def parse_break_stmt():
    m = mark()
    kw("break", RegExp)
    label = None
    if at("#id", "yield", "await") and not nl():
        label = some(parse_id_reference())
    elif not flag("in_iteration") and not flag("in_switch"):
        fail("IllegalBreak")
    semicolon()
    return Node.BreakStatement(label=label, span=m)


@nt
def parse_return_stmt():
    m = mark()
    kw("return", RegExp)
    arg = None
    if not nl() and not at(";", "}", "#eof"):
        arg = some(parse_expression(has_in=1))
    semicolon()
    return Node.ReturnStatement(argument=arg, span=m)


@nt
def parse_with_stmt():
    if flag("strict"):
        fail("StrictWith")
    m = mark()
    kw("with", RegExp)
    punc("(", RegExp)
    o = parse_expression(has_in=1)
    punc(")", RegExp)
    body = parse_statement()
    return Node.WithStatement(object=o, body=body, span=m)


@nt
def parse_throw_stmt():
    m = mark()
    kw("throw", RegExp)
    if nl():
        fail("NewlineAfterThrow")
    arg = parse_expression(has_in=1)
    semicolon()
    return Node.ThrowStatement(argument=arg, span=m)


@nt
def parse_try_stmt():
    m = mark()
    kw("try", RegExp)
    block = parse_block_stmt()
    handler = None
    finalizer = None
    if at("catch"):
        take(RegExp)
        param = None
        if at("("):
            take(RegExp)
            param = some(parse_binding_id_or_pat())
            punc(")", RegExp)
        body = parse_block_stmt()
        handler = some(S.CatchClause(param=param, body=body))
    elif not at("finally"):
        fail("UnexpectedToken")
    if at("finally"):
        take(RegExp)
        finalizer = some(parse_block_stmt())
    return Node.TryStatement(block=block, handler=handler, finalizer=finalizer, span=m)


@nt
def parse_debugger_stmt():
    m = mark()
    kw("debugger", RegExp)
    semicolon()
    return Node.DebuggerStatement(span=m)
