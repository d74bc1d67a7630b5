# Reference grammar: module items (ECMAScript 2019, clause 15.2).


@nt
def parse_module_item():
    if at("import"):
        return parse_import_dclr()
    if at("export"):
        return parse_export_dclr()
    return parse_stmt_list_item(has_yield=0, has_await=0, has_return=0)


@nt
def parse_import_dclr():
    m = mark()
    kw("import", Any)
    specs = []
    if at("#str"):
        return import_source(specs, m)
    if at("*"):
        specs = push(specs, namespace_import())
    elif at("{"):
        specs = named_imports(specs)
    elif at("#id", "yield", "await"):
        specs = push(specs, ImportDeclarationSpecifier.ImportDefaultSpecifier(local=imported_binding()))
        if at(","):
            take(Any)
            if at("*"):
                specs = push(specs, namespace_import())
            elif at("{"):
                specs = named_imports(specs)
            else:
                fail("UnexpectedToken")
    else:
        fail("UnexpectedToken")
    kw("id:from", Any)
    return import_source(specs, m)


def import_source(specs, m):
    source = module_specifier()
    semicolon()
    return Node.ImportDeclaration(specifiers=specs, source=source, span=m)


def module_specifier():
    m = mark()
    if not at("#str"):
        fail("UnexpectedToken")
    t = take(RegExp)
    return S.Literal(value=value(t), raw=text(t), span=m)


def imported_binding():
    b = parse_binding_id(has_yield=0, has_await=0)
    x = get(b, "Binding.BindingIdentifier", "0")
    return S.Identifier(name=get(x, "S.BindingIdentifier", "name"), span=span_of(get(x, "S.BindingIdentifier", "span")))


def namespace_import():
    take(Any)
    kw("id:as", Any)
    return ImportDeclarationSpecifier.ImportNamespaceSpecifier(local=imported_binding())


def named_imports(specs):
    take(Any)
    while not at("}"):
        m = mark()
        reserved = at("#kw", "#bool", "null") or strict_reserved() or flag("strict") and at("id:eval", "id:arguments")
        name = id_name(Any)
        imported = S.Identifier(name=name, span=m)
        if at("id:as"):
            take(Any)
            local = imported_binding()
        else:
            if reserved:
                fail("UnexpectedReserved", at=m)
            local = S.Identifier(name=name, span=m)
        specs = push(specs, ImportDeclarationSpecifier.ImportSpecifier(local=local, imported=imported))
        if not at("}"):
            punc(",", Any)
    take(Any)
    return specs


@nt
def parse_export_dclr():
    m = mark()
    kw("export", Any)
    if at("default"):
        take(RegExp)
        if at("function"):
            d = parse_hoistable_dclr(has_yield=0, has_await=0, has_default=1)
        elif at("id:async") and peek_at("function") and not peek_nl():
            d = parse_hoistable_dclr(has_yield=0, has_await=0, has_default=1)
        elif at("class"):
            d = parse_class_dclr(has_yield=0, has_await=0, has_default=1)
        else:
            d = parse_assignment_expr(has_in=1, has_yield=0, has_await=0)
            semicolon()
        return Node.ExportDefaultDeclaration(declaration=d, span=m)
    if at("var"):
        d = parse_variable_stmt(True, has_yield=0, has_await=0)
        return Node.ExportNamedDeclaration(declaration=some(d), specifiers=[], source=None, span=m)
    if at("function", "class", "const", "id:let", "id:async"):
        d = parse_declaration(has_yield=0, has_await=0)
        return Node.ExportNamedDeclaration(declaration=some(d), specifiers=[], source=None, span=m)
    if at("{"):
        specs = []
        take(Any)
        reserved = False
        while not at("}"):
            lm = mark()
            if at("#kw", "#bool", "null") or strict_reserved():
                reserved = True
            local = S.Identifier(name=id_name(Any), span=lm)
            exported = local
            if at("id:as"):
                take(Any)
                em = mark()
                exported = S.Identifier(name=id_name(Any), span=em)
            specs = push(specs, S.ExportSpecifier(exported=exported, local=local))
            if not at("}"):
                punc(",", Any)
        take(Any)
        source = None
        if at("id:from"):
            take(Any)
            source = some(module_specifier())
        elif reserved:
            fail("UnexpectedToken")
        semicolon()
        return Node.ExportNamedDeclaration(declaration=None, specifiers=specs, source=source, span=m)
    if at("*"):
        take(Any)
        kw("id:from", Any)
        source = module_specifier()
        semicolon()
        return Node.ExportAllDeclaration(source=source, span=m)
    fail("UnexpectedToken")
