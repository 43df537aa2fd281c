"""Realistic grammars with inputs of some hundred characters: lists, nested brackets, key/value documents, comments,
abandoned long prefixes, arithmetic. (Short random ones come from gen_rpa.)"""
from gen_rpa import Render, alt, chr_, grp, ref, rule, seq


def C(s, q=""):
    r = [chr_(c) for c in s]
    r[-1]["q"] = q
    return r


def cls(a, b, q=""):
    return {"k": "cls", "r": [[ord(a), ord(b)]], "q": q}


def any_(q=""):
    return {"k": "any", "q": q}


def word(rng, al, a, b):
    return "".join(rng.choice(al) for _ in range(rng.randint(a, b)))


def nested(rng, n, depth):
    """about n characters of brackets and x"""
    s, d = "", 0
    while len(s) < n:
        c = rng.choice("((x)x" if d < depth else "))x")
        if c == "(":
            d += 1
        elif c == ")":
            if d == 0:
                continue
            d -= 1
        s += c
    return s + ")" * d


def t_list(rng, n):
    items = [rule("word", seq([cls("a", "c", "+")])), rule("sep", rng.choice([seq(C(",")), seq(C(", ", "*")), seq([cls(",", ";")])])),
             rule("list", seq([ref("word"), grp(seq([ref("sep"), ref("word")]), "*")]))]
    s = word(rng, "abc", 1, 4)
    while len(s) < n:
        s += "," + word(rng, "abc", 1, rng.choice([1, 4, 40]))
    return items, 2, s, "abc,;d"


def t_nest(rng, n):
    b = alt([seq(C("(") + [ref("n", "*")] + C(")")), seq(C("x"))])
    items = [rule("n", b), rule("top", seq([ref("n", "+")])), rule("flat", seq([grp(alt([seq([ref("n")]), seq(C("y"))]), "*")]))]
    return items, rng.choice([1, 1, 2, 0]), nested(rng, n, rng.choice([3, 12, 30])), "()xy"


def t_kv(rng, n):
    items = [rule("k", seq([cls("a", "b", "+")])), rule("num", seq([cls("0", "9", "+")])), rule("v", alt([seq([ref("k")]), seq([ref("num")]), seq([ref("q")])])),
             rule("q", seq(C('"') + [grp({"k": "min", "l": seq([any_()]), "rs": [seq(C('"'))]}, "*")] + C('"'))),
             rule("pair", seq([ref("k")] + C("=") + [ref("v")] + C(";"))), rule("doc", seq([ref("pair", "+")]))]
    s = ""
    while len(s) < n:
        s += word(rng, "ab", 1, 3) + "=" + rng.choice([word(rng, "ab", 1, 4), word(rng, "0123456789", 1, 6), '"' + word(rng, "ab=;0", 0, 9) + '"']) + ";"
    return items, 5, s, 'ab="0;1'


def t_late(rng, n):
    """the same long thing tried again behind each alternative"""
    k = rng.choice(["z", "y", ""])
    items = [rule("n", alt([seq(C("(") + [ref("n", "*")] + C(")")), seq(C("x"))])), rule("m", seq([ref("n", "+")])),
             rule("s", alt([seq([ref("m")] + C("z")), seq([ref("m")] + C("y")), seq([ref("m")])])),
             rule("u", alt([seq([ref("s")] + C("!")), seq([ref("s")] + C("?")), seq([grp(alt([seq([ref("s")] + C("q")), seq([ref("m")])]))])]))]
    return items, rng.choice([2, 3]), nested(rng, n, 6) + k + rng.choice(["", "!", "?", "q"]), "()xzy!?"


def t_comment(rng, n):
    body = {"k": "min", "l": seq([any_()]), "rs": [seq(C("*/"))]}
    items = [rule("com", seq(C("/*") + [grp(body, "*")] + C("*/"))), rule("w", seq([cls("a", "z", "+")])), rule("blank", seq([cls(" ", " ", "+")])),
             rule("src", seq([grp(alt([seq([ref("com")]), seq([ref("w")]), seq([ref("blank")])]), "+")]))]
    s = ""
    while len(s) < n:
        s += rng.choice([word(rng, "abz", 1, 9), " ", "/*" + word(rng, "ab* /", 0, 20).replace("*/", "") + "*/"])
    return items, 3, s, "a */b"


def t_lr(rng, n):
    items = [rule("e", alt([seq([ref("e")] + C("+") + [ref("t")]), seq([ref("e")] + C("-") + [ref("t")]), seq([ref("t")])])),
             rule("t", alt([seq([ref("t")] + C("*") + [ref("f")]), seq([ref("f")])])),
             rule("f", alt([seq(C("(") + [ref("e")] + C(")")), seq([cls("0", "9", "+")])]))]
    s, d = "1", 0
    while len(s) < n:
        s += rng.choice("+-*")
        while rng.random() < 0.2 and d < 6:
            s += "("
            d += 1
        s += word(rng, "0123456789", 1, 3)
        while d and rng.random() < 0.4:
            s += ")"
            d -= 1
    return items, 0, s + ")" * d, "0+*()"


KINDS = {"list": t_list, "nest": t_nest, "kv": t_kv, "late": t_late, "comment": t_comment, "lr": t_lr}


def long_case(rng, n=None, kind=None):
    kind = kind or rng.choice(sorted(KINDS))
    n = n or rng.choice([60, 120, 200, 300, 400])
    if kind == "lr":
        n = min(n, 120)
    items, root, s, al = KINDS[kind](rng, n)
    if rng.random() < 0.35:
        p = rng.randrange(len(s))
        s = s[:p] + rng.choice(al) + s[p + rng.choice([0, 1]):]
    if rng.random() < 0.15:
        s = s[: rng.randrange(len(s))]
    return kind, items, Render(rng).grammar(items), root, s
