"""ECMAScript token vocabulary (reference data, independent of the repository's own tables)."""
# enum variant name -> source text; the variant names are the repository's public vocabulary for punctuators
PUNCT = {
    "LBrace": "{", "RBrace": "}", "LParen": "(", "RParen": ")", "LBracket": "[", "RBracket": "]",
    "Dot": ".", "Ellipsis": "...", "Semicolon": ";", "Comma": ",", "LAngle": "<", "RAngle": ">",
    "LEqual": "<=", "GEqual": ">=", "Equal": "==", "NEqual": "!=", "StrictEqual": "===", "StrictNEqual": "!==",
    "Plus": "+", "Minus": "-", "Star": "*", "Mod": "%", "Pow": "**", "Inc": "++", "Dec": "--",
    "LShift": "<<", "RShift": ">>", "ZRShift": ">>>", "BitAnd": "&", "BitOr": "|", "BitXor": "^",
    "Bang": "!", "Tilde": "~", "LogicalAnd": "&&", "LogicalOr": "||", "Question": "?", "Colon": ":",
    "Assign": "=", "PlusAssign": "+=", "MinusAssign": "-=", "StarAssign": "*=", "ModAssign": "%=", "PowAssign": "**=",
    "LShiftAssign": "<<=", "RShiftAssign": ">>=", "ZRShiftAssign": ">>>=", "BitAndAssign": "&=", "BitOrAssign": "|=",
    "BitXorAssign": "^=", "FatArrow": "=>", "Slash": "/", "SlashAssign": "/=",
}
# punctuators the repository declares but that belong to ES2020 or to keywords; the scanner never produces them
NOT_PRODUCED = {"Instanceof", "QMarkDot", "QMarkQMark", "In"}

# ReservedWord of ES2019 without the literal words (null, true, false)
KEYWORDS = ("await break case catch class const continue debugger default delete do else enum export extends finally "
            "for function if import in instanceof new return super switch this throw try typeof var void while with "
            "yield").split()
LITERAL_WORDS = ("null", "true", "false")
STRICT_RESERVED = ("implements", "interface", "let", "package", "private", "protected", "public", "static", "yield")
