# Reference: cover grammars - expression reinterpreted as assignment pattern (12.15.5) or as arrow parameters (14.2).


@nt(pure=1, fails=0, strings=("simple", "strict", "invalid"))
def assign_target_type(n):
    if is_(n, "Node.ArrayExpression"):
        return get(n, "Node.ArrayExpression", "assign_target_type")
    if is_(n, "Node.ArrayPattern"):
        return get(n, "Node.ArrayPattern", "assign_target_type")
    if is_(n, "Node.ArrowFunctionExpression"):
        return get(n, "Node.ArrowFunctionExpression", "assign_target_type")
    if is_(n, "Node.AssignmentExpression"):
        return get(n, "Node.AssignmentExpression", "assign_target_type")
    if is_(n, "Node.AsyncArrowFunctionExpression"):
        return get(n, "Node.AsyncArrowFunctionExpression", "assign_target_type")
    if is_(n, "Node.AsyncFunctionExpression"):
        return get(n, "Node.AsyncFunctionExpression", "assign_target_type")
    if is_(n, "Node.BinaryExpression"):
        return get(n, "Node.BinaryExpression", "assign_target_type")
    if is_(n, "Node.CallExpression"):
        return get(n, "Node.CallExpression", "assign_target_type")
    if is_(n, "Node.ClassExpression"):
        return get(n, "Node.ClassExpression", "assign_target_type")
    if is_(n, "Node.ComputedMemberExpression"):
        return get(n, "Node.ComputedMemberExpression", "assign_target_type")
    if is_(n, "Node.Identifier"):
        return get(n, "Node.Identifier", "assign_target_type")
    if is_(n, "Node.FunctionExpression"):
        return get(n, "Node.FunctionExpression", "assign_target_type")
    if is_(n, "Node.Literal"):
        return get(n, "Node.Literal", "assign_target_type")
    if is_(n, "Node.NewExpression"):
        return get(n, "Node.NewExpression", "assign_target_type")
    if is_(n, "Node.ObjectExpression"):
        return get(n, "Node.ObjectExpression", "assign_target_type")
    if is_(n, "Node.ObjectPattern"):
        return get(n, "Node.ObjectPattern", "assign_target_type")
    if is_(n, "Node.RegexLiteral"):
        return get(n, "Node.RegexLiteral", "assign_target_type")
    if is_(n, "Node.SequenceExpression"):
        return get(n, "Node.SequenceExpression", "assign_target_type")
    if is_(n, "Node.StaticMemberExpression"):
        return get(n, "Node.StaticMemberExpression", "assign_target_type")
    if is_(n, "Node.ThisExpression"):
        return get(n, "Node.ThisExpression", "assign_target_type")
    if is_(n, "Node.UnaryExpression"):
        return get(n, "Node.UnaryExpression", "assign_target_type")
    if is_(n, "Node.UpdateExpression"):
        return get(n, "Node.UpdateExpression", "assign_target_type")
    if is_(n, "Node.YieldExpression"):
        return get(n, "Node.YieldExpression", "assign_target_type")
    if is_(n, "Node.Super"):
        return get(n, "Node.Super", "assign_target_type")
    if is_(n, "Node.TemplateLiteral"):
        return get(n, "Node.TemplateLiteral", "assign_target_type")
    if is_(n, "Node.MetaProperty"):
        return get(n, "Node.MetaProperty", "assign_target_type")
    if is_(n, "Node.ArrayAssignmentPattern"):
        return "simple"
    return "invalid"


# ------------------------------------------------------------------------------------------------ assignment patterns
@nt(pure=1, expr=("n",))
def to_assignment_pattern(n):
    if is_(n, "Node.ArrayExpression"):
        return array_to_assign_pattern(get(n, "Node.ArrayExpression", "elements"), get(n, "Node.ArrayExpression", "span"))
    if is_(n, "Node.ObjectExpression"):
        return object_to_assign_pattern(get(n, "Node.ObjectExpression", "properties"), get(n, "Node.ObjectExpression", "span"))
    return n


@nt(pure=1)
def array_to_assign_pattern(elements, span):
    out = []
    it = elements
    while not empty(it):
        e, it = uncons(it)
        if is_none(e):
            out = push(out, None)
        else:
            e = unwrap(e)
            if is_(e, "ArrayExpressionElement.Expression"):
                x = as_assignment_element(get(e, "ArrayExpressionElement.Expression", "0"))
                out = push(out, some(ArrayAssignmentPatternElement.Expression(x)))
            else:
                if not empty(it):
                    fail("ParamAfterRest")
                deviation("C21-comma-after-rest")
                x = to_assignment_pattern(get(get(e, "ArrayExpressionElement.SpreadElement", "0"), "S.SpreadElement", "argument"))
                if assign_target_type(x) != "simple":
                    fail("InvalidLhsInAssignment")
                out = push(out, some(ArrayAssignmentPatternElement.RestElement(S.RestElement(argument=to_binding(x)))))
    return Node.ArrayAssignmentPattern(elements=out, assign_target_type="simple", span=span)


@nt(pure=1, expr=("n",))
def as_assignment_element(n):
    e = to_assignment_pattern(n)
    if is_(e, "Node.AssignmentExpression") and get(e, "Node.AssignmentExpression", "operator") == "=":
        left = get(e, "Node.AssignmentExpression", "left")
        if assign_target_type(left) != "simple":
            fail("InvalidLhsInAssignment")
        return Node.AssignmentPattern(left=Binding.Expression(left), right=get(e, "Node.AssignmentExpression", "right"),
                                      span=get(e, "Node.AssignmentExpression", "span"))
    if assign_target_type(e) != "simple":
        fail("InvalidLhsInAssignment")
    return e


@nt(pure=1)
def object_to_assign_pattern(properties, span):
    out = []
    it = properties
    while not empty(it):
        p, it = uncons(it)
        if is_(p, "ObjectExpressionProperty.Property"):
            v = get(p, "ObjectExpressionProperty.Property", "value")
            if is_some(v):
                v = unwrap(v)
                if is_(v, "PropertyValue.Expression"):
                    v = some(PropertyValue.Expression(as_assignment_element(get(v, "PropertyValue.Expression", "0"))))
                elif is_(v, "PropertyValue.AssignmentPattern"):
                    v = some(v)
                else:
                    fail("InvalidOrUnexpectedToken")
            out = push(out, converted(p, v))
        else:
            if not empty(it):
                fail("ParamAfterRest")
            x = get(p, "ObjectExpressionProperty.SpreadElement", "argument")
            if is_(x, "Node.ArrayExpression") or is_(x, "Node.ObjectExpression"):
                fail("InvalidLhsInAssignment")
            if assign_target_type(x) != "simple":
                fail("InvalidLhsInAssignment")
            out = push(out, ObjectPatternProperty.RestElement(argument=to_binding(x)))
    return Node.ObjectPattern(properties=out, assign_target_type="simple", span=span)


def converted(p, v):
    return ObjectPatternProperty.Property(
        key=get(p, "ObjectExpressionProperty.Property", "key"), computed=get(p, "ObjectExpressionProperty.Property", "computed"),
        value=v, kind=get(p, "ObjectExpressionProperty.Property", "kind"),
        method=get(p, "ObjectExpressionProperty.Property", "method"),
        shorthand=get(p, "ObjectExpressionProperty.Property", "shorthand"))


def to_binding(n):
    """target of a rest element in an assignment pattern"""
    if is_(n, "Node.Identifier"):
        return Binding.BindingIdentifier(S.BindingIdentifier(name=get(n, "Node.Identifier", "name"),
                                                             span=get(n, "Node.Identifier", "span")))
    return Binding.Expression(n)


# ------------------------------------------------------------------------------------------------ arrow parameters
@nt(pure=1, expr=("n",))
def to_binding_pattern(n):
    if is_(n, "Node.Identifier"):
        if get(n, "Node.Identifier", "assign_target_type") != "simple":
            fail("UnexpectedStrictReserved")
        return Node.BindingIdentifier(name=get(n, "Node.Identifier", "name"), span=get(n, "Node.Identifier", "span"))
    if is_(n, "Node.ArrayExpression"):
        return array_to_pattern(get(n, "Node.ArrayExpression", "elements"), get(n, "Node.ArrayExpression", "span"))
    if is_(n, "Node.ObjectExpression"):
        return object_to_pattern(get(n, "Node.ObjectExpression", "properties"), get(n, "Node.ObjectExpression", "span"))
    if is_(n, "Node.ArrayAssignmentPattern"):
        return array_pattern_to_binding(get(n, "Node.ArrayAssignmentPattern", "elements"),
                                        get(n, "Node.ArrayAssignmentPattern", "span"))
    if is_(n, "Node.ObjectPattern"):
        return object_pattern_to_binding(get(n, "Node.ObjectPattern", "properties"), get(n, "Node.ObjectPattern", "span"))
    if is_(n, "Node.AssignmentExpression") and get(n, "Node.AssignmentExpression", "operator") == "=":
        return Node.AssignmentPattern(left=to_strict_binding(get(n, "Node.AssignmentExpression", "left"), 0),
                                      right=get(n, "Node.AssignmentExpression", "right"),
                                      span=get(n, "Node.AssignmentExpression", "span"))
    if is_(n, "Node.AssignmentPattern"):
        left = get(n, "Node.AssignmentPattern", "left")
        if is_(left, "Binding.Expression"):
            left = to_strict_binding(get(left, "Binding.Expression", "0"), 0)
        return Node.AssignmentPattern(left=left, right=get(n, "Node.AssignmentPattern", "right"),
                                      span=get(n, "Node.AssignmentPattern", "span"))
    if is_(n, "Node.SpreadElement"):
        return Node.RestElement(argument=to_strict_binding(get(n, "Node.SpreadElement", "argument"), 0),
                                span=get(n, "Node.SpreadElement", "span"))
    return n


@nt(pure=1, expr=("n",), shape=("Binding", "BindingIdentifier", "ArrayPattern", "ObjectPattern"))
def to_strict_binding(n, _marker):
    p = to_binding_pattern(n)
    if is_(p, "Node.BindingIdentifier"):
        return Binding.BindingIdentifier(S.BindingIdentifier(name=get(p, "Node.BindingIdentifier", "name"),
                                                             span=get(p, "Node.BindingIdentifier", "span")))
    if is_(p, "Node.ArrayPattern"):
        return Binding.ArrayPattern(S.ArrayPattern(elements=get(p, "Node.ArrayPattern", "elements"),
                                                   span=get(p, "Node.ArrayPattern", "span")))
    if is_(p, "Node.ObjectPattern"):
        return Binding.ObjectPattern(S.ObjectPattern(properties=get(p, "Node.ObjectPattern", "properties"),
                                                     span=get(p, "Node.ObjectPattern", "span")))
    fail("InvalidOrUnexpectedToken")


@nt(pure=1)
def array_to_pattern(elements, span):
    out = []
    it = elements
    while not empty(it):
        e, it = uncons(it)
        if is_none(e):
            out = push(out, None)
        else:
            e = unwrap(e)
            if is_(e, "ArrayExpressionElement.Expression"):
                out = push(out, some(to_array_pattern_element(get(e, "ArrayExpressionElement.Expression", "0"), empty(it))))
            else:
                if not empty(it):
                    fail("ParamAfterRest")
                x = get(get(e, "ArrayExpressionElement.SpreadElement", "0"), "S.SpreadElement", "argument")
                out = push(out, some(ArrayPatternElement.RestElement(argument=to_strict_binding(x, 0))))
    return Node.ArrayPattern(elements=out, assign_target_type="simple", span=span)


@nt(pure=1)
def array_pattern_to_binding(elements, span):
    out = []
    it = elements
    while not empty(it):
        e, it = uncons(it)
        if is_none(e):
            out = push(out, None)
        else:
            e = unwrap(e)
            if is_(e, "ArrayAssignmentPatternElement.Expression"):
                out = push(out, some(to_array_pattern_element(get(e, "ArrayAssignmentPatternElement.Expression", "0"), empty(it))))
            else:
                x = get(get(e, "ArrayAssignmentPatternElement.RestElement", "0"), "S.RestElement", "argument")
                out = push(out, some(ArrayPatternElement.RestElement(argument=binding_of(x))))
    return Node.ArrayPattern(elements=out, assign_target_type="simple", span=span)


def binding_of(b):
    """a target already reinterpreted as assignment target, as binding"""
    if is_(b, "Binding.Expression"):
        return to_strict_binding(get(b, "Binding.Expression", "0"), 0)
    return b


@nt(pure=1, expr=("n",))
def to_array_pattern_element(n, is_last):
    p = to_binding_pattern(n)
    if is_(p, "Node.AssignmentPattern"):
        return ArrayPatternElement.AssignmentPattern(left=get(p, "Node.AssignmentPattern", "left"),
                                                     right=get(p, "Node.AssignmentPattern", "right"))
    if is_(p, "Node.BindingIdentifier"):
        return ArrayPatternElement.BindingIdentifier(name=get(p, "Node.BindingIdentifier", "name"))
    if is_(p, "Node.ObjectPattern"):
        return ArrayPatternElement.ObjectPattern(properties=get(p, "Node.ObjectPattern", "properties"))
    if is_(p, "Node.ArrayPattern"):
        return ArrayPatternElement.ArrayPattern(elements=get(p, "Node.ArrayPattern", "elements"))
    if is_(p, "Node.RestElement"):
        if not is_last:
            fail("ParamAfterRest")
        return ArrayPatternElement.RestElement(argument=get(p, "Node.RestElement", "argument"))
    fail("InvalidOrUnexpectedToken")


@nt(pure=1)
def object_to_pattern(properties, span):
    out = []
    it = properties
    while not empty(it):
        p, it = uncons(it)
        if is_(p, "ObjectExpressionProperty.Property"):
            out = push(out, converted(p, binding_value(get(p, "ObjectExpressionProperty.Property", "value"))))
        else:
            if not empty(it):
                fail("InvalidOrUnexpectedToken")
            b = to_strict_binding(get(p, "ObjectExpressionProperty.SpreadElement", "argument"), 0)
            if not is_(b, "Binding.BindingIdentifier"):
                fail("InvalidOrUnexpectedToken")
            out = push(out, ObjectPatternProperty.RestElement(argument=b))
    return Node.ObjectPattern(properties=out, assign_target_type="simple", span=span)


@nt(pure=1)
def object_pattern_to_binding(properties, span):
    out = []
    it = properties
    while not empty(it):
        p, it = uncons(it)
        if is_(p, "ObjectPatternProperty.Property"):
            out = push(out, ObjectPatternProperty.Property(
                key=get(p, "ObjectPatternProperty.Property", "key"), computed=get(p, "ObjectPatternProperty.Property", "computed"),
                value=binding_value(get(p, "ObjectPatternProperty.Property", "value")),
                kind=get(p, "ObjectPatternProperty.Property", "kind"), method=get(p, "ObjectPatternProperty.Property", "method"),
                shorthand=get(p, "ObjectPatternProperty.Property", "shorthand")))
        else:
            b = get(p, "ObjectPatternProperty.RestElement", "argument")
            if not is_(b, "Binding.BindingIdentifier"):
                fail("InvalidOrUnexpectedToken")
            out = push(out, ObjectPatternProperty.RestElement(argument=b))
    return Node.ObjectPattern(properties=out, assign_target_type="simple", span=span)


def binding_value(v):
    if is_none(v):
        return v
    v = unwrap(v)
    if is_(v, "PropertyValue.Expression"):
        b = to_binding_pattern(get(v, "PropertyValue.Expression", "0"))
        if is_(b, "Node.AssignmentPattern"):
            return some(PropertyValue.AssignmentPattern(S.AssignmentPattern(
                left=get(b, "Node.AssignmentPattern", "left"), right=get(b, "Node.AssignmentPattern", "right"))))
        if is_(b, "Node.BindingIdentifier"):
            return some(PropertyValue.BindingIdentifier(S.BindingIdentifier(
                name=get(b, "Node.BindingIdentifier", "name"), span=get(b, "Node.BindingIdentifier", "span"))))
        if is_(b, "Node.ObjectPattern"):
            return some(PropertyValue.BindingPattern(BindingPattern.ObjectPattern(
                properties=get(b, "Node.ObjectPattern", "properties"))))
        if is_(b, "Node.ArrayPattern"):
            return some(PropertyValue.BindingPattern(BindingPattern.ArrayPattern(
                elements=get(b, "Node.ArrayPattern", "elements"))))
        fail("InvalidOrUnexpectedToken")
    if is_(v, "PropertyValue.AssignmentPattern"):
        return some(v)
    fail("InvalidOrUnexpectedToken")


def parameter(p):
    if is_(p, "Node.AssignmentPattern"):
        return FunctionParameter.AssignmentPattern(left=get(p, "Node.AssignmentPattern", "left"),
                                                   right=get(p, "Node.AssignmentPattern", "right"))
    if is_(p, "Node.BindingIdentifier"):
        return FunctionParameter.BindingIdentifier(name=get(p, "Node.BindingIdentifier", "name"))
    if is_(p, "Node.ObjectPattern"):
        return FunctionParameter.ObjectPattern(properties=get(p, "Node.ObjectPattern", "properties"))
    if is_(p, "Node.ArrayPattern"):
        return FunctionParameter.ArrayPattern(elements=get(p, "Node.ArrayPattern", "elements"))
    if is_(p, "Node.RestElement"):
        return FunctionParameter.RestElement(argument=get(p, "Node.RestElement", "argument"))
    fail("InvalidOrUnexpectedToken")


@nt(pure=1)
def seq_to_arrow_params(es):
    out = []
    it = es
    while not empty(it):
        e, it = uncons(it)
        p = to_binding_pattern(e)
        if is_(p, "Node.RestElement") and not empty(it):
            fail("ParamAfterRest")
        out = push(out, parameter(p))
    return out


@nt(pure=1)
def arguments_to_params(args):
    out = []
    it = args
    while not empty(it):
        e, it = uncons(it)
        if is_(e, "ArgumentListElement.SpreadElement"):
            if not empty(it):
                fail("ParamAfterRest")
            b = to_strict_binding(get(get(e, "ArgumentListElement.SpreadElement", "0"), "S.SpreadElement", "argument"), 0)
            out = push(out, FunctionParameter.RestElement(argument=b))
        else:
            p = to_binding_pattern(get(e, "ArgumentListElement.Expression", "0"))
            if is_(p, "Node.RestElement") and not empty(it):
                fail("ParamAfterRest")
            out = push(out, parameter(p))
    return out
