from specfile.exceptions import OptionsException, UnterminatedMacroException
from specfile.options import Options, TokenType


def roundtrip(h):
    s = h.str("s", h.cfg["n"])
    try:
        tokens = Options.tokenize(s)
    except (OptionsException, UnterminatedMacroException):
        h.cover("untokenizable")
        return
    h.cover("tokenized")
    h.check_eq("".join(str(t) for t in tokens), s, "text changes")


def words(s):
    """Reference: what poptParseArgvString() makes of a string, None if it's refused"""
    result = []
    word = ""
    quote = ""
    i = 0
    while i < len(s):
        c = s[i]
        i += 1
        if quote:
            if c == quote:
                quote = ""
                continue
            if c == "\\":
                if i == len(s):
                    return None
                if s[i] != quote:
                    word += c
                c = s[i]
                i += 1
            word += c
        elif c.isspace():
            if word:
                result.append(word)
            word = ""
        elif c == "'" or c == '"':
            quote = c
        else:
            if c == "\\":
                if i == len(s):
                    return None
                c = s[i]
                i += 1
            word += c
    if quote:
        return None
    if word:
        result.append(word)
    return result


def arguments(h):
    """Values of tokens make up the arguments RPM gets"""
    s = "".join(p if isinstance(p, str) else h.str("s%d" % i, p, exclude="%") for i, p in enumerate(h.cfg["t"]))
    want = words(s)
    try:
        tokens = Options.tokenize(s)
    except OptionsException:
        h.check(want is None, "string that can be tokenized is refused")
        return
    h.check(want is not None, "string that can't be tokenized is accepted")
    got = [""]
    for t in tokens:
        if t.type == TokenType.WHITESPACE:
            h.check(t.value.isspace(), "white space is something else")
            got.append("")
        else:
            got[-1] += t.value
    h.check_eq([x for x in got if x], want, "arguments")
    if want:
        h.cover("arguments")


def harnesses(tier):
    for n in range(0, 5 + (tier == "thorough")):
        yield "arguments", arguments, {"t": [n]}
        yield "arguments", arguments, {"t": ["'", n, "'"]}
        yield "arguments", arguments, {"t": ["a ", n, '"', 1, '"']}
    for n in range(0, 7 + (tier == "thorough")):
        yield "roundtrip", roundtrip, {"n": n}


COVERS_ALL = ["tokenized", "untokenizable", "arguments"]
BOUNDS = {
    "quick": 'all strings of up to 6 arbitrary characters; arguments of strings of up to 4 arbitrary characters without macros',
    "thorough": 'all strings of up to 7 arbitrary characters; arguments of strings of up to 5 arbitrary characters without macros',
}
ASSUMPTIONS = []
