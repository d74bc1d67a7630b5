"""The ESTree shape of each node type: type -> keys besides `type` (ESTree ES2019; `each`, `expression` and the null `id` of
arrow functions as in Esprima, whose output the library reproduces)."""
FN = "id params body generator expression async"
ESTREE = {k: frozenset(v.split()) for k, v in {
    "Program": "body sourceType", "Identifier": "name", "Literal": "value raw",
    "ExpressionStatement": "expression", "BlockStatement": "body", "EmptyStatement": "", "DebuggerStatement": "",
    "WithStatement": "object body", "ReturnStatement": "argument", "LabeledStatement": "label body",
    "BreakStatement": "label", "ContinueStatement": "label", "IfStatement": "test consequent alternate",
    "SwitchStatement": "discriminant cases", "SwitchCase": "test consequent", "ThrowStatement": "argument",
    "TryStatement": "block handler finalizer", "CatchClause": "param body", "WhileStatement": "test body",
    "DoWhileStatement": "body test", "ForStatement": "init test update body", "ForInStatement": "left right body each",
    "ForOfStatement": "left right body", "FunctionDeclaration": FN, "FunctionExpression": FN, "ArrowFunctionExpression": FN,
    "VariableDeclaration": "declarations kind", "VariableDeclarator": "id init", "ThisExpression": "", "Super": "",
    "ArrayExpression": "elements", "ObjectExpression": "properties", "Property": "key computed value kind method shorthand",
    "UnaryExpression": "operator argument prefix", "UpdateExpression": "operator argument prefix",
    "BinaryExpression": "operator left right", "AssignmentExpression": "operator left right",
    "LogicalExpression": "operator left right", "MemberExpression": "object property computed",
    "ConditionalExpression": "test consequent alternate", "CallExpression": "callee arguments",
    "NewExpression": "callee arguments", "SequenceExpression": "expressions", "YieldExpression": "argument delegate",
    "AwaitExpression": "argument", "TemplateLiteral": "quasis expressions", "TaggedTemplateExpression": "tag quasi",
    "TemplateElement": "value tail", "ObjectPattern": "properties", "ArrayPattern": "elements", "RestElement": "argument",
    "AssignmentPattern": "left right", "SpreadElement": "argument", "ClassBody": "body",
    "MethodDefinition": "key computed value kind static", "ClassDeclaration": "id superClass body",
    "ClassExpression": "id superClass body", "MetaProperty": "meta property",
    "ImportDeclaration": "specifiers source", "ImportSpecifier": "local imported", "ImportDefaultSpecifier": "local",
    "ImportNamespaceSpecifier": "local", "ExportNamedDeclaration": "declaration specifiers source",
    "ExportSpecifier": "exported local", "ExportDefaultDeclaration": "declaration", "ExportAllDeclaration": "source"}.items()}
# plain objects inside nodes: no type tag
PLAIN = {"Regex": frozenset(("pattern", "flags")), "TemplateElementValue": frozenset(("cooked", "raw"))}
# struct or enum variant -> (ESTree type, further keys); others have the name of their ESTree type
VARIANT = {
    "ArrayAssignmentPattern": ("ArrayPattern", ""), "AssignmentRestElement": ("RestElement", ""),
    "AsyncArrowFunctionExpression": ("ArrowFunctionExpression", ""), "AsyncFunctionExpression": ("FunctionExpression", ""),
    "AsyncFunctionDeclaration": ("FunctionDeclaration", ""), "BindingIdentifier": ("Identifier", ""),
    "ComputedMemberExpression": ("MemberExpression", ""), "StaticMemberExpression": ("MemberExpression", ""),
    "RegexLiteral": ("Literal", "regex"), "Directive": ("ExpressionStatement", "directive")}
# not part of any finished tree: cover grammar placeholder, types no production builds
INTERNAL = {"ArrowParameterPlaceHolder", "Module", "Span", "Marker"}
# enums whose variants are written as what they hold
FLAT = {"ArrayExpressionElement", "Binding", "ArrayAssignmentPatternElement", "PropertyKey", "PropertyValue", "ArgumentListElement"}
SCALARS = {"Str": ("serialize_str",), "Num": ("serialize_f64",), "Bool": ("serialize_bool",), "Null": ("serialize_unit", "serialize_none")}
