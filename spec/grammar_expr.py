# Reference grammar: expressions (ECMAScript 2019, clause 12), ESTree as the tree.
# Parentheses are kept as a SequenceExpression (giron's representation of CoverParenthesizedExpression).

ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=")


def is_arrow(e):
    return is_(e, "Node.ArrowFunctionExpression") or is_(e, "Node.AsyncArrowFunctionExpression")


@nt
def parse_expression():
    m = mark()
    e = parse_assignment_expr()
    if at(","):
        es = [e]
        while at(","):
            take(RegExp)
            es = push(es, parse_assignment_expr())
        return Node.SequenceExpression(expressions=es, assign_target_type="invalid", span=m)
    return e


@nt
def parse_assignment_expr():
    m = mark()
    if flag("has_yield") and at("yield"):
        return parse_yield_expr()
    lhs = parse_conditional_expr()
    if at("=>"):
        if not is_(lhs, "Node.Identifier"):
            return lhs
        if nl():
            fail("UnexpectedToken")
        take(RegExp)
        body, expression = parse_arrow_body(False)
        lhs = Node.ArrowFunctionExpression(
            id=None, params=[FunctionParameter.BindingIdentifier(name=get(lhs, "Node.Identifier", "name"))], body=body,
            generator=False, expression=expression, async_=False, assign_target_type="invalid", span=m)
        if at(ASSIGN):
            fail("InvalidLhsInAssignment")
        return lhs
    if is_arrow(lhs) and at(ASSIGN):
        fail("InvalidLhsInAssignment")
    if at("="):
        left = to_assignment_pattern(lhs)
        if assign_target_type(left) != "simple":
            fail("InvalidLhsInAssignment")
        take(RegExp)
        right = parse_assignment_expr()
        return Node.AssignmentExpression(operator="=", left=left, right=right, assign_target_type="invalid", span=m)
    if at(ASSIGN):
        if assign_target_type(lhs) != "simple":
            fail("InvalidLhsInAssignment")
        op = take(RegExp)
        right = parse_assignment_expr()
        return Node.AssignmentExpression(operator=text(op), left=lhs, right=right, assign_target_type="invalid", span=m)
    return lhs


@nt
def parse_yield_expr():
    m = mark()
    kw("yield", RegExp)
    if nl() or at(")", "]", "}", ",", ";", ":", "in", "#eof", "#tmpl:cont"):
        return Node.YieldExpression(argument=None, delegate=False, assign_target_type="invalid", span=m)
    if at("*"):
        take(RegExp)
        return Node.YieldExpression(argument=some(parse_assignment_expr(has_yield=1)), delegate=True,
                                    assign_target_type="invalid", span=m)
    return Node.YieldExpression(argument=some(parse_assignment_expr(has_yield=1)), delegate=False,
                                assign_target_type="invalid", span=m)


@nt
def parse_arrow_body(is_async):
    if at("{"):
        return (parse_function_body(has_await=is_async, has_yield=0), False)
    return (parse_assignment_expr(has_await=is_async, has_yield=0), True)


@nt
def parse_conditional_expr():
    m = mark()
    e = parse_binary_expr()
    if at("?") and not is_arrow(e):
        take(RegExp)
        c = parse_assignment_expr(has_in=1)
        punc(":", RegExp)
        a = parse_assignment_expr()
        return Node.ConditionalExpression(test=e, consequent=c, alternate=a, span=m)
    return e


def level():
    """precedence level of the binary operator at the current token; 0: none"""
    if at("||"):
        return 1
    if at("&&"):
        return 2
    if at("|"):
        return 3
    if at("^"):
        return 4
    if at("&"):
        return 5
    if at("==", "!=", "===", "!=="):
        return 6
    if at("<", ">", "<=", ">=", "instanceof"):
        return 7
    if at("in"):
        if flag("has_in"):
            return 7
        return 0
    if at("<<", ">>", ">>>"):
        return 8
    if at("+", "-"):
        return 9
    if at("*", "/", "%"):
        return 10
    return 0


@nt(yields=("LogicalExpression", "BinaryExpression", "parse_exponentiation_expr"))
def parse_binary_expr():
    m = mark()
    left = parse_exponentiation_expr()
    if is_arrow(left):
        return left
    if level() == 0:
        return left
    return precedence_climbing(left, 1, m)


@nt(yields=("LogicalExpression", "BinaryExpression", "parse_exponentiation_expr"), topmark="lm",
    values={"prec": (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)}, expr=("left",), called_at_operator=1)
# (every call in this reference program is made at an operator of level >= prec, so a call always consumes it)
def precedence_climbing(left, prec, lm):
    """left-associative operators of at least precedence prec applied to left"""
    while True:
        p = level()
        if p == 0 or not p >= prec:
            break
        op = take(RegExp)
        rm = mark()
        deviation("C11-arrow-right-operand")
        right = parse_exponentiation_expr()
        while True:
            q = level()
            if not q >= p + 1:
                break
            right = precedence_climbing(right, q, rm)
        if p <= 2:
            left = Node.LogicalExpression(operator=text(op), left=left, right=right, span=lm)
        else:
            left = Node.BinaryExpression(operator=text(op), left=left, right=right, assign_target_type="invalid", span=lm)
    return left


@nt
def parse_exponentiation_expr():
    if at("+", "-", "~", "!", "delete", "void", "typeof") or at("await") and flag("has_await"):
        return parse_unary_expr()
    m = mark()
    lhs = parse_update_expr()
    if at("**") and not is_arrow(lhs):
        take(RegExp)
        rhs = parse_exponentiation_expr()
        return Node.BinaryExpression(operator="**", left=lhs, right=rhs, assign_target_type="invalid", span=m)
    return lhs


@nt
def parse_unary_expr():
    m = mark()
    if at("+", "-", "~", "!", "delete", "void", "typeof"):
        op = take(RegExp)
        arg = parse_unary_expr()
        return Node.UnaryExpression(operator=text(op), argument=arg, prefix=True, assign_target_type="invalid", span=m)
    if at("await") and flag("has_await"):
        take(RegExp)
        arg = parse_unary_expr()
        return Node.AwaitExpression(argument=arg, span=m)
    return parse_update_expr()


@nt
def parse_update_expr():
    m = mark()
    if at("++", "--"):
        op = take(RegExp)
        om = mark()
        e = parse_unary_expr()
        if assign_target_type(e) != "simple":
            fail("InvalidLhsInPrefixOp", at=om)
        return Node.UpdateExpression(operator=text(op), argument=e, prefix=True, assign_target_type="invalid", span=m)
    e = parse_left_hand_side_expr()
    if at("++", "--") and not nl() and not is_arrow(e):
        if assign_target_type(e) != "simple":
            fail("InvalidLhsInPostfixOp", at=m)
        op = take(Div)
        return Node.UpdateExpression(operator=text(op), argument=e, prefix=False, assign_target_type="invalid", span=m)
    return e


@nt
def parse_left_hand_side_expr():
    return parse_call_expr()


@nt
def parse_call_expr():
    m = mark()
    if at("super"):
        o = parse_super()
        if at("("):
            e = Node.CallExpression(callee=o, arguments=parse_arguments(), assign_target_type="invalid", span=m)
        elif at("["):
            e = computed_member(o, m)
        elif at("."):
            e = static_member(o, m)
        else:
            fail("UnexpectedToken")
    else:
        e = parse_member_expr()
        if is_arrow(e):
            return e
    while True:
        if at("("):
            e = Node.CallExpression(callee=e, arguments=parse_arguments(), assign_target_type="invalid", span=m)
        elif at("["):
            e = computed_member(e, m)
        elif at("."):
            e = static_member(e, m)
        elif at("#tmpl:head"):
            e = tagged(e, m)
        else:
            break
    return e


@nt
def parse_member_expr():
    m = mark()
    if at("super"):
        o = parse_super()
        if at("["):
            e = computed_member(o, m)
        elif at("."):
            e = static_member(o, m)
        else:
            fail("UnexpectedToken")
    elif at("new"):
        e = parse_new_expr()
    else:
        e = parse_primary_expr()
        if is_arrow(e):
            return e
    while True:
        if at("["):
            e = computed_member(e, m)
        elif at("."):
            e = static_member(e, m)
        elif at("#tmpl:head"):
            e = tagged(e, m)
        else:
            break
    return e


def computed_member(o, m):
    take(RegExp)
    p = parse_expression(has_in=1)
    punc("]", Div)
    return Node.ComputedMemberExpression(computed=True, object=o, property=p, assign_target_type="simple", span=m)


def static_member(o, m):
    take(Any)
    pm = mark()
    name = id_name(Div)
    return Node.StaticMemberExpression(
        computed=False, object=o, property=Node.Identifier(name=name, assign_target_type="invalid", span=pm),
        assign_target_type="simple", span=m)


def id_name(goal):
    """IdentifierName: any word, reserved or not"""
    if not at("#id", "#kw", "#bool", "null"):
        fail("UnexpectedToken")
    return text(take(goal))


def tagged(e, m):
    t = parse_template_literal()
    return Node.TaggedTemplateExpression(
        tag=e, quasi=S.TemplateLiteral(quasis=get(t, "Node.TemplateLiteral", "quasis"),
                                       expressions=get(t, "Node.TemplateLiteral", "expressions")), span=m)


@nt
def parse_new_expr():
    m = mark()
    kw("new", RegExp)
    if at("."):
        meta = Node.Identifier(name="new", assign_target_type="invalid", span=m)
        take(Any)
        if not at("id:target"):
            fail("UnexpectedToken")
        pm = mark()
        take(Div)
        return Node.MetaProperty(meta=meta, property=Node.Identifier(name="target", assign_target_type="invalid", span=pm),
                                 assign_target_type="invalid", span=m)
    deviation("C11-new-async-call")
    callee = parse_member_expr()
    args = []
    if is_arrow(callee):
        fail("UnexpectedToken")
    if at("("):
        args = parse_arguments()
    return Node.NewExpression(callee=callee, arguments=args, assign_target_type="invalid", span=m)


@nt
def parse_super():
    m = mark()
    kw("super", Any)
    if not at("[", ".", "("):
        fail("UnexpectedToken")
    return Node.Super(assign_target_type="simple", span=m)


@nt(shape=("Node", "TemplateLiteral"))
def parse_template_literal():
    m = mark()
    if not at("#tmpl:head"):
        fail("UnexpectedTemplateString")
    es = []
    q, tail = template_element()
    qs = [q]
    while not tail:
        es = push(es, parse_expression(has_in=1))
        if not at("#tmpl:cont"):
            fail("UnexpectedToken")
        q, tail = template_element()
        qs = push(qs, q)
    return Node.TemplateLiteral(quasis=qs, expressions=es, assign_target_type="invalid", span=m)


def template_element():
    if at("#tmpl:tail"):
        t = take(Div)
        tail = True
    else:
        t = take(RegExp)
        tail = False
    return (S.TemplateElement(value=S.TemplateElementValue(cooked=unwrap(attr(t, "cooked")), raw=text(t)), tail=tail), tail)


@nt
def parse_primary_expr():
    m = mark()
    if at("function"):
        return parse_function_expr_from(m, False)
    if at("id:async"):
        return parse_async_primary_expr()
    if at("class"):
        return parse_class_expr()
    if at("this"):
        take(Div)
        return Node.ThisExpression(assign_target_type="invalid", span=m)
    if at("#id", "yield", "await"):
        return parse_id_reference()
    if at("true"):
        t = take(Div)
        return Node.Literal(value=Value.Bool(True), raw=text(t), assign_target_type="invalid", span=m)
    if at("false"):
        t = take(Div)
        return Node.Literal(value=Value.Bool(False), raw=text(t), assign_target_type="invalid", span=m)
    if at("#num", "#str", "null"):
        t = take(Div)
        deviation("C11-literal-raw")
        return Node.Literal(value=value(t), raw=text(t), assign_target_type="invalid", span=m)
    if at("["):
        return parse_array_lit_expr()
    if at("{"):
        return parse_object_lit_expr()
    if at("#regex"):
        t = take(Div)
        deviation("C11-regex-value")
        return Node.RegexLiteral(value=text(t), raw=text(t),
                                 regex=S.Regex(pattern=unwrap(attr(t, "pattern")), flags=unwrap(attr(t, "flags"))),
                                 assign_target_type="invalid", span=m)
    if at("#tmpl"):
        return parse_template_literal()
    if at("("):
        return parse_seq_or_arrow()
    fail("UnexpectedToken")


@nt
def parse_arguments():
    punc("(", RegExp)
    args = []
    while not at(")"):
        if at("..."):
            sm = mark()
            take(RegExp)
            a = parse_assignment_expr(has_in=1)
            args = push(args, ArgumentListElement.SpreadElement(S.SpreadElement(argument=a, span=sm)))
        else:
            args = push(args, ArgumentListElement.Expression(parse_assignment_expr(has_in=1)))
        if not at(")"):
            punc(",", RegExp)
    take(Div)
    return args


@nt
def parse_seq_or_arrow():
    m = mark()
    punc("(", RegExp)
    es = []
    arrow = at(")")
    while not at(")"):
        if at("..."):
            rm = mark()
            take(Any)
            es = push(es, Node.RestElement(argument=parse_binding_id_or_pat(), span=rm))
            arrow = True
            break
        es = push(es, parse_assignment_expr(has_in=1))
        if not at(")"):
            punc(",", RegExp)
            if at(")"):
                arrow = True
    punc(")", Div)
    if arrow or at("=>"):
        params = seq_to_arrow_params(es)
        if nl():
            fail("UnexpectedToken")
        punc("=>", RegExp)
        body, expression = parse_arrow_body(False)
        return Node.ArrowFunctionExpression(id=None, params=params, body=body, generator=False, expression=expression,
                                            async_=False, assign_target_type="invalid", span=m)
    att = "invalid"
    deviation("C11-parenthesized")
    if length(es) == 1:
        att = assign_target_type(item(es, 0))
    return Node.SequenceExpression(expressions=es, assign_target_type=att, span=m)


@nt(pre=("id:async",))
def parse_async_primary_expr():
    m = mark()
    id = parse_id_reference()
    if nl():
        return id
    if at("function"):
        return parse_function_expr_from(m, True)
    if at("("):
        args = parse_arguments()
        if at("=>") and not nl():
            deviation("C17-yield-await-in-arrow-parameters")
            take(RegExp)
            params = arguments_to_params(args)
            body, expression = parse_arrow_body(True)
            return Node.AsyncArrowFunctionExpression(id=None, params=params, body=body, generator=False, expression=expression,
                                                     async_=True, assign_target_type="invalid", span=m)
        return Node.CallExpression(callee=id, arguments=args, assign_target_type="invalid", span=m)
    if at("#id", "yield", "await"):
        p = parse_id_reference(has_await=1)
        if nl():
            fail("UnexpectedToken")
        punc("=>", RegExp)
        body, expression = parse_arrow_body(True)
        return Node.AsyncArrowFunctionExpression(
            id=None, params=[FunctionParameter.BindingIdentifier(name=get(p, "Node.Identifier", "name"))],
            body=body, generator=False, expression=expression, async_=True, assign_target_type="invalid", span=m)
    return id


def strict_reserved():
    return flag("strict") and at("id:implements", "id:interface", "id:package", "id:private", "id:protected", "id:public",
                                 "id:let", "id:static", "yield")


@nt(shape=("Node", "Identifier"))
def parse_id_reference():
    m = mark()
    if strict_reserved():
        fail("UnexpectedStrictReserved")
    if at("id:eval", "id:arguments"):
        att = "simple"
        if flag("strict"):
            att = "strict"
        t = take(Div)
        return Node.Identifier(name=text(t), assign_target_type=att, span=m)
    if at("#id"):
        t = take(Div)
        return Node.Identifier(name=text(t), assign_target_type="simple", span=m)
    if at("yield"):
        if flag("has_yield"):
            fail("YieldInParameter")
        t = take(Div)
        return Node.Identifier(name=text(t), assign_target_type="simple", span=m)
    if at("await"):
        deviation("C17-await-in-modules")
        if flag("has_await"):
            fail("AwaitExpressionFormalParameter")
        t = take(Div)
        return Node.Identifier(name=text(t), assign_target_type="simple", span=m)
    fail("UnexpectedToken")


# ------------------------------------------------------------------------------------------------ array / object literals
@nt
def parse_array_lit_expr():
    m = mark()
    punc("[", RegExp)
    es = []
    while not at("]"):
        if at(","):
            take(RegExp)
            es = push(es, None)
        else:
            if at("..."):
                sm = mark()
                take(RegExp)
                a = parse_assignment_expr(has_in=1)
                es = push(es, some(ArrayExpressionElement.SpreadElement(S.SpreadElement(argument=a, span=sm))))
            else:
                es = push(es, some(ArrayExpressionElement.Expression(parse_assignment_expr(has_in=1))))
            if not at("]"):
                punc(",", RegExp)
    take(Div)
    return Node.ArrayExpression(elements=es, assign_target_type="invalid", span=m)


@nt
def parse_object_lit_expr():
    m = mark()
    punc("{", Any)
    ps = []
    while not at("}"):
        ps = push(ps, property_definition())
        if not at("}"):
            punc(",", Any)
    take(Div)
    return Node.ObjectExpression(properties=ps, assign_target_type="invalid", span=m)


def plain_name_follows():
    """the word just before this token is itself the property name"""
    return peek_at("(", ",", ":", "}", "=")


def property_definition():
    m = mark()
    if at("..."):
        take(RegExp)
        return ObjectExpressionProperty.SpreadElement(argument=parse_assignment_expr(has_in=1), span=m)
    kind = "init"
    is_async = False
    generator = False
    if at("id:get") and not plain_name_follows():
        kind = "get"
        take(Any)
    elif at("id:set") and not plain_name_follows():
        kind = "set"
        take(Any)
    elif at("id:async") and not plain_name_follows():
        is_async = True
        take(Any)
        if nl():
            fail("UnexpectedToken")
    if kind == "init" and at("*"):
        generator = True
        take(Any)
    special = kind != "init" or is_async or generator
    if not special and at("#id", "yield", "await") and peek_at(",", "}", "="):
        return shorthand(m)
    key, computed = parse_property_name()
    if at("("):
        value = method_value(kind, is_async, generator)
        return ObjectExpressionProperty.Property(key=key, computed=computed, value=some(value), kind=kind,
                                                 method=kind == "init", shorthand=False, span=m)
    if special:
        fail("UnexpectedToken")
    punc(":", RegExp)
    value = PropertyValue.Expression(parse_assignment_expr(has_in=1))
    return ObjectExpressionProperty.Property(key=key, computed=computed, value=some(value), kind="init",
                                             method=False, shorthand=False, span=m)


def shorthand(m):
    """IdentifierReference | CoverInitializedName"""
    ref = parse_id_reference()
    name = get(ref, "Node.Identifier", "name")
    km = get(ref, "Node.Identifier", "span")
    key = PropertyKey.Identifier(S.Identifier(name=name, span=km))
    if at("="):
        if assign_target_type(ref) != "simple":
            fail("InvalidLhsInAssignment")
        deviation("C14-cover-initialized-name")
        take(RegExp)
        value = PropertyValue.AssignmentPattern(S.AssignmentPattern(
            left=Binding.BindingIdentifier(S.BindingIdentifier(name=name, span=km)), right=parse_assignment_expr(has_in=1)))
    else:
        value = PropertyValue.Expression(ref)
    return ObjectExpressionProperty.Property(key=key, computed=False, value=some(value), kind="init",
                                             method=False, shorthand=True, span=m)


def get_key(key):
    return get(key, "PropertyKey.Identifier", "0")


def method_value(kind, is_async, generator):
    if kind == "get":
        punc("(", Any)
        punc(")", Any)
        params = []
    else:
        params = parse_formal_params(has_yield=generator, has_await=is_async)
        if kind == "set":
            check_setter(params)
    body = parse_function_body(has_yield=generator, has_await=is_async)
    if is_async:
        return PropertyValue.AsyncFunctionExpression(S.AsyncFunctionExpression(
            id=None, params=params, body=body, generator=generator, expression=False, async_=True))
    return PropertyValue.FunctionExpression(S.FunctionExpression(
        id=None, params=params, body=body, generator=generator, expression=False, async_=False))


def check_setter(params):
    if length(params) != 1:
        fail("UnexpectedToken")
    if is_(item(params, 0), "FunctionParameter.RestElement"):
        fail("UnexpectedToken")


@nt
def parse_property_name():
    m = mark()
    if at("#id", "#kw", "#bool", "null"):
        t = take(Any)
        return (PropertyKey.Identifier(S.Identifier(name=text(t), span=m)), False)
    if at("#str", "#num"):
        t = take(Any)
        return (PropertyKey.Literal(S.Literal(value=value(t), raw=text(t), span=m)), False)
    if at("["):
        take(RegExp)
        e = parse_assignment_expr(has_in=1)
        punc("]", Any)
        return (PropertyKey.Expression(e), True)
    fail("UnexpectedToken")
