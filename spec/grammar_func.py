# Reference grammar: functions, classes, bindings (ECMAScript 2019, clauses 13.3.3 and 14).


@nt
def parse_hoistable_dclr():
    m = mark()
    if at("id:async"):
        take(RegExp)
        if nl():
            fail("UnexpectedToken")
        return function_declaration(m, True, True)
    if at("function"):
        return function_declaration(m, False, True)
    fail("UnexpectedToken")


def function_declaration(m, is_async, allow_generator):
    kw("function", RegExp)
    generator = False
    if at("*"):
        if not allow_generator:
            fail("GeneratorInSingleStatementContext")
        take(RegExp)
        generator = True
    if at("("):
        if not flag("has_default"):
            fail("MissingFunctionName")
        id = None
    else:
        b = parse_binding_id()
        id = some(binding_node(b))
    params = parse_formal_params(has_yield=generator, has_await=is_async, has_default=0)
    body = parse_function_body(has_yield=generator, has_await=is_async, has_default=0)
    return Node.FunctionDeclaration(id=id, params=params, body=body, generator=generator, expression=False, async_=is_async, span=m)


def binding_node(b):
    x = get(b, "Binding.BindingIdentifier", "0")
    return Node.BindingIdentifier(name=get(x, "S.BindingIdentifier", "name"), span=span_of(get(x, "S.BindingIdentifier", "span")))


def parse_function_expr_from(m, is_async):
    kw("function", RegExp)
    generator = False
    if at("*"):
        take(RegExp)
        generator = True
    id = None
    if not at("("):
        id = some(parse_id_reference(has_yield=generator, has_await=is_async))
    params = parse_formal_params(has_yield=generator, has_await=is_async)
    body = parse_function_expr_body(has_yield=generator, has_await=is_async)
    return Node.FunctionExpression(id=id, params=params, body=body, generator=generator, expression=False, async_=is_async,
                                   assign_target_type="invalid", span=m)


def function_body(goal):
    m = mark()
    punc("{", RegExp)
    strict = flag("strict")
    body = parse_directive_prologues(has_return=1, in_function=1, in_iteration=0, in_switch=0, has_default=0)
    rest = parse_statement_list(has_return=1, in_function=1, in_iteration=0, in_switch=0, has_default=0)
    setflag("strict", strict)
    punc("}", goal)
    return Node.BlockStatement(body=extend(body, rest), span=m)


@nt
def parse_function_body():
    return function_body(RegExp)


@nt
def parse_function_expr_body():
    return function_body(Div)


@nt
def parse_formal_params():
    punc("(", Any)
    ps = []
    while not at(")"):
        if at("..."):
            take(Any)
            ps = push(ps, FunctionParameter.RestElement(argument=parse_binding_id_or_pat()))
            break
        b = parse_binding_id_or_pat()
        if at("="):
            take(RegExp)
            p = FunctionParameter.AssignmentPattern(left=b, right=parse_assignment_expr(has_in=1))
        elif is_(b, "Binding.BindingIdentifier"):
            p = FunctionParameter.BindingIdentifier(name=get(get(b, "Binding.BindingIdentifier", "0"), "S.BindingIdentifier", "name"))
        elif is_(b, "Binding.ArrayPattern"):
            p = FunctionParameter.ArrayPattern(elements=get(get(b, "Binding.ArrayPattern", "0"), "S.ArrayPattern", "elements"))
        else:
            p = FunctionParameter.ObjectPattern(properties=get(get(b, "Binding.ObjectPattern", "0"), "S.ObjectPattern", "properties"))
        ps = push(ps, p)
        if not at(")"):
            punc(",", Any)
    punc(")", Any)
    return ps


# ------------------------------------------------------------------------------------------------ classes
@nt
def parse_class_dclr():
    m = mark()
    kw("class", Any)
    id = None
    if not (flag("has_default") and at("{", "extends")):
        id = some(binding_node(parse_binding_id(strict=1)))
    sup, body = class_tail(RegExp)
    return Node.ClassDeclaration(id=id, super_class=sup, body=body, span=m)


@nt
def parse_class_expr():
    m = mark()
    kw("class", Any)
    id = None
    if not at("{", "extends"):
        id = some(binding_node(parse_binding_id(strict=1)))
    sup, body = class_tail(Div)
    return Node.ClassExpression(id=id, super_class=sup, body=body, assign_target_type="invalid", span=m)


def class_tail(goal):
    sup = None
    if at("extends"):
        take(RegExp)
        sup = some(parse_left_hand_side_expr(strict=1))
    punc("{", Any)
    body = parse_class_body(strict=1)
    punc("}", goal)
    return (sup, body)


@nt(nullable=1)
def parse_class_body():
    items = []
    while not at("}"):
        if at(";"):
            take(Any)
            items = push(items, None)
        else:
            items = push(items, some(class_element()))
    body = []
    it = items
    while not empty(it):
        x, it = uncons(it)
        if is_some(x):
            body = push(body, unwrap(x))
    return S.ClassBody(body=body)


def class_element():
    static = False
    if at("id:static") and not plain_name_follows():
        static = True
        take(Any)
    kind = "method"
    is_async = False
    generator = False
    if at("id:get") and not plain_name_follows():
        kind = "get"
        take(Any)
    elif at("id:set") and not plain_name_follows():
        kind = "set"
        take(Any)
    elif at("id:async") and not plain_name_follows():
        is_async = True
        take(Any)
        if nl():
            fail("UnexpectedToken")
    if kind == "method" and at("*"):
        generator = True
        take(Any)
    special = kind != "method" or is_async or generator or static
    key, computed = parse_property_name()
    if not special and not computed and key_text(key) == "constructor":
        kind = "constructor"
    if kind == "get":
        punc("(", Any)
        punc(")", Any)
        params = []
    else:
        params = parse_formal_params(has_yield=generator, has_await=is_async)
        if kind == "set":
            check_setter(params)
    body = parse_function_body(has_yield=generator, has_await=is_async)
    f = S.FunctionExpression(id=None, params=params, body=body, generator=generator, expression=False, async_=is_async)
    return S.MethodDefinition(key=key_node(key), computed=computed, value=some(f), kind=kind, static_=static)


def key_text(key):
    if is_(key, "PropertyKey.Identifier"):
        return get(get_key(key), "S.Identifier", "name")
    if is_(key, "PropertyKey.Literal"):
        return get(get(key, "PropertyKey.Literal", "0"), "S.Literal", "raw")
    return ""


def key_node(key):
    if is_(key, "PropertyKey.Identifier"):
        x = get_key(key)
        return Node.Identifier(name=get(x, "S.Identifier", "name"), assign_target_type="invalid",
                               span=get(x, "S.Identifier", "span"))
    if is_(key, "PropertyKey.Literal"):
        x = get(key, "PropertyKey.Literal", "0")
        return Node.Literal(value=get(x, "S.Literal", "value"), raw=get(x, "S.Literal", "raw"), assign_target_type="invalid",
                            span=get(x, "S.Literal", "span"))
    return get(key, "PropertyKey.Expression", "0")


# ------------------------------------------------------------------------------------------------ bindings
@nt(shape=("Binding", "BindingIdentifier", "ArrayPattern", "ObjectPattern"))
def parse_binding_id_or_pat():
    if at("#id", "yield", "await"):
        return parse_binding_id()
    if at("{"):
        return parse_obj_binding_pat()
    if at("["):
        return parse_arr_binding_pat()
    fail("UnexpectedToken")


@nt(shape=("Binding", "BindingIdentifier"))
def parse_binding_id():
    m = mark()
    if strict_reserved():
        fail("UnexpectedStrictReserved")
    if at("id:eval", "id:arguments") and flag("strict"):
        fail("UnexpectedStrictReserved")
    if at("yield") and flag("has_yield"):
        fail("UnexpectedToken")
    if at("await") and flag("has_await"):
        fail("UnexpectedToken")
    if not at("#id", "yield", "await"):
        fail("UnexpectedToken")
    t = take(Any)
    return Binding.BindingIdentifier(S.BindingIdentifier(name=text(t), span=m))


@nt(shape=("Binding", "ArrayPattern"))
def parse_arr_binding_pat():
    m = mark()
    punc("[", Any)
    es = []
    while not at("]"):
        if at(","):
            take(Any)
            es = push(es, None)
        elif at("..."):
            take(Any)
            es = push(es, some(ArrayPatternElement.RestElement(argument=parse_binding_id_or_pat())))
            break
        else:
            b = parse_binding_id_or_pat()
            if at("="):
                take(RegExp)
                e = ArrayPatternElement.AssignmentPattern(left=b, right=parse_assignment_expr(has_in=1))
            elif is_(b, "Binding.BindingIdentifier"):
                e = ArrayPatternElement.BindingIdentifier(name=get(get(b, "Binding.BindingIdentifier", "0"), "S.BindingIdentifier", "name"))
            elif is_(b, "Binding.ArrayPattern"):
                e = ArrayPatternElement.ArrayPattern(elements=get(get(b, "Binding.ArrayPattern", "0"), "S.ArrayPattern", "elements"))
            else:
                e = ArrayPatternElement.ObjectPattern(properties=get(get(b, "Binding.ObjectPattern", "0"), "S.ObjectPattern", "properties"))
            es = push(es, some(e))
            if not at("]"):
                punc(",", Any)
    punc("]", Any)
    return Binding.ArrayPattern(S.ArrayPattern(elements=es, span=m))


@nt(shape=("Binding", "ObjectPattern"))
def parse_obj_binding_pat():
    m = mark()
    punc("{", Any)
    ps = []
    while not at("}"):
        if at("..."):
            take(Any)
            ps = push(ps, ObjectPatternProperty.RestElement(argument=parse_binding_id()))
            break
        ps = push(ps, binding_property())
        if not at("}"):
            punc(",", Any)
    punc("}", Any)
    return Binding.ObjectPattern(S.ObjectPattern(properties=ps, span=m))


def binding_property():
    km = mark()
    if at("#id", "yield", "await") and not peek_at(":"):
        b = parse_binding_id()
        x = get(b, "Binding.BindingIdentifier", "0")
        name = get(x, "S.BindingIdentifier", "name")
        key = PropertyKey.Identifier(S.Identifier(name=name, span=km))
        if at("="):
            take(RegExp)
            v = PropertyValue.AssignmentPattern(S.AssignmentPattern(left=b, right=parse_assignment_expr(has_in=1)))
        else:
            v = PropertyValue.BindingIdentifier(x)
        return ObjectPatternProperty.Property(key=key, computed=False, value=some(v), kind="init", method=False, shorthand=True)
    key, computed = parse_property_name()
    punc(":", Any)
    b = parse_binding_id_or_pat()
    if at("="):
        take(RegExp)
        v = PropertyValue.AssignmentPattern(S.AssignmentPattern(left=b, right=parse_assignment_expr(has_in=1)))
    elif is_(b, "Binding.BindingIdentifier"):
        v = PropertyValue.BindingIdentifier(get(b, "Binding.BindingIdentifier", "0"))
    elif is_(b, "Binding.ArrayPattern"):
        v = PropertyValue.BindingPattern(BindingPattern.ArrayPattern(
            elements=get(get(b, "Binding.ArrayPattern", "0"), "S.ArrayPattern", "elements")))
    else:
        v = PropertyValue.BindingPattern(BindingPattern.ObjectPattern(
            properties=get(get(b, "Binding.ObjectPattern", "0"), "S.ObjectPattern", "properties")))
    return ObjectPatternProperty.Property(key=key, computed=computed, value=some(v), kind="init", method=False, shorthand=False)
