# Reference lexical grammar (ECMA-262 section 11 and Annex B.1.1/B.1.2), one function per production.
# at/peek_at/peek2_at test the next characters, take() consumes one; begin() marks the first character of the token.
# Deviations are listed in DESIGN.md.


def lex_next(goal):
    resetnl()
    skip_trivia()
    begin()
    only()
    if at("#idstart", "\\"):
        return identifier_name()
    if at("#dec"):
        return numeric_literal()
    if at("."):
        if peek_at("#dec"):
            return numeric_literal()
        return dot_punctuator()
    if at("'", '"'):
        return string_literal()
    if at("`"):
        return template(1)
    if at("}"):
        if top_is(Brace.Template()):
            pop_brace()
            return template(0)
    if at("/"):
        if goal == "RegExp":
            return regular_expression()
    if at("#eof"):
        return tok("Eof", ("Null", 0))
    return punctuator()


def skip_trivia():
    while True:
        if at("#ws", "#lt"):
            take()
        elif at("/") and peek_at("/"):
            take()
            while not at("#lt", "#eof"):
                take()
        elif at("/") and peek_at("*"):
            multi_line_comment()
        else:
            return 0


def multi_line_comment():
    take()
    take()
    while True:
        if at("#eof"):
            fail()
        if at("*") and peek_at("/"):
            take()
            take()
            return 0
        take()


# ---------------------------------------------------------------- names
def identifier_name():
    v = ""
    if at("\\"):
        deviation("C05-escaped-reserved-word")
        c = unicode_escape()
    else:
        c = take()
    if not isin(c, "#idstart"):
        fail()
    v = chcat(v, c)
    while at("#idpart", "\\"):
        if at("\\"):
            c = unicode_escape()
        else:
            c = take()
        if not isin(c, "#idpart"):
            fail()
        v = chcat(v, c)
    if textis(v, "null"):
        return tok("NullLiteral", ("Null", 0))
    if wordin(v, BOOLS):
        return tok("BooleanLiteral", ("Str", v))
    if wordin(v, KEYWORDS):
        return tok("Keyword", ("Str", v))
    return tok("Identifier", ("Str", v))


def unicode_escape():
    take()
    if not at("u"):
        fail()
    take()
    d = ""
    if at("{"):
        take()
        while at("#hex"):
            d = chcat(d, take())
        if not at("}"):
            fail()
        take()
        if isempty(d):
            fail()
    else:
        d = hex_digits(4)
    n = radix(d, 16)
    if not validcp(n):
        fail()
    return chr(n)


def hex_digits(n):
    d = ""
    while n > 0:
        if not at("#hex"):
            fail()
        d = chcat(d, take())
        n = n - 1
    return d


# ---------------------------------------------------------------- numbers
def numeric_literal():
    if at("0") and peek_at("b", "B"):
        n = radix_literal(2, "#bin")
    elif at("0") and peek_at("o", "O"):
        n = radix_literal(8, "#oct")
    elif at("0") and peek_at("x", "X"):
        n = radix_literal(16, "#hex")
    elif at("0") and peek_at("#dec"):
        v = ""
        octal = True
        while at("#dec"):
            if at("8", "9"):
                octal = False
            v = chcat(v, take())
        deviation("C08-strict-octal")
        if octal:
            n = radix(v, 8)
        else:
            n = decimal_rest(v)
    elif at("#dec"):
        v = ""
        while at("#dec"):
            v = chcat(v, take())
        n = decimal_rest(v)
    else:
        n = fraction("")
    if at("#dec", "#idstart", "\\"):
        fail()
    return tok("NumericLiteral", ("Num", n))


def radix_literal(r, digits):
    take()
    take()
    v = ""
    while at(digits):
        v = chcat(v, take())
    if isempty(v):
        fail()
    return radix(v, r)


def decimal_rest(v):
    if at("."):
        return fraction(v)
    return exponent(v)


def fraction(v):
    v = chcat(v, take())
    while at("#dec"):
        v = chcat(v, take())
    return exponent(v)


def exponent(v):
    if at("e", "E"):
        v = chcat(v, take())
        if at("+", "-"):
            v = chcat(v, take())
        if not at("#dec"):
            fail()
        while at("#dec"):
            v = chcat(v, take())
    return parsef(v)


# ---------------------------------------------------------------- strings
def string_literal():
    q = pick("'\"")
    take()
    v = ""
    while True:
        if q == 39 and at("'"):
            break
        if q == 34 and at('"'):
            break
        if at("\n", "\r", "#eof"):
            fail()
        if at("\\"):
            if peek_at("#lt"):
                take()
                line_terminator_sequence()
            else:
                v = chcat(v, string_escape())
        else:
            v = chcat(v, take())
    take()
    return tok("StringLiteral", ("Str", v))


def line_terminator_sequence():
    if at("\r"):
        take()
        if at("\n"):
            take()
    else:
        take()


def string_escape():
    if peek_at("u"):
        deviation("C07-surrogate-escapes")
        return unicode_escape()
    if peek_at("x"):
        take()
        take()
        return chr(radix(hex_digits(2), 16))
    if peek_at("#oct"):
        deviation("C07-strict-octal-escape")
        take()
        d = chcat("", take())
        if at("#oct"):
            d = chcat(d, take())
            if less(radix(d, 8), 32) and at("#oct"):
                d = chcat(d, take())
        return chr(radix(d, 8))
    return simple_escape()


def simple_escape():
    take()
    if at("#eof"):
        fail()
    c = pick("bfnrtv")
    x = take()
    if c == 98:
        return 8
    if c == 102:
        return 12
    if c == 110:
        return 10
    if c == 114:
        return 13
    if c == 116:
        return 9
    if c == 118:
        return 11
    return x


# ---------------------------------------------------------------- templates
def template(head):
    take()
    record()
    v = ""
    while True:
        if at("`"):
            raw = recorded()
            take()
            return tok("Template", ("Str", raw), cooked=v, head=head, tail=1)
        if at("$") and peek_at("{"):
            raw = recorded()
            take()
            take()
            push_brace(Brace.Template())
            return tok("Template", ("Str", raw), cooked=v, head=head, tail=0)
        if at("#eof"):
            fail()
        if at("\\"):
            if peek_at("#lt"):
                take()
                line_terminator_sequence()
            else:
                v = chcat(v, template_escape())
        elif at("\r"):
            line_terminator_sequence()
            v = chcat(v, 10)
        else:
            v = chcat(v, take())


def template_escape():
    deviation("C07-tagged-template-escapes")
    if peek_at("u"):
        return unicode_escape()
    if peek_at("x"):
        take()
        take()
        return chr(radix(hex_digits(2), 16))
    if peek_at("#dec"):
        take()
        if not at("0"):
            fail()
        take()
        if at("#dec"):
            fail()
        return 0
    return simple_escape()


# ---------------------------------------------------------------- regular expressions
def regular_expression():
    take()
    if at("*", "/"):
        fail()
    p = ""
    cls = False
    while True:
        if at("#lt", "#eof"):
            fail()
        if at("/") and not cls:
            break
        if at("\\"):
            p = chcat(p, take())
            if at("#lt", "#eof"):
                fail()
        elif at("["):
            cls = True
        elif at("]"):
            cls = False
        p = chcat(p, take())
    take()
    f = ""
    while at("#idpart", "\\"):
        if at("\\"):
            fail()
        f = chcat(f, take())
    return tok("RegularExpression", ("Str", cat("", "/", p, "/", f)), pattern=p, flags=f)


# ---------------------------------------------------------------- punctuators
def dot_punctuator():
    take()
    if at(".") and peek_at("."):
        take()
        take()
        return tok("Punctuator", ("Punc", "..."))
    return tok("Punctuator", ("Punc", "."))


def punctuator():
    s = ""
    c = ext(s, PUNCTS)
    if c == 0:
        fail()
    if c == 123:
        push_brace(Brace.LBrace())
    if c == 125:
        pop_brace()
    while c != 0:
        take()
        s = chcat(s, c)
        c = ext(s, PUNCTS)
    return tok("Punctuator", ("Punc", s))
