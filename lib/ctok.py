"""An independent C++ pre-processing tokenizer, used as the reference in the token-conservation oracles.
It knows nothing of gencpp.  tokens(text) -> list of (kind, text); white space and line continuations vanish,
comments are kept as one token (trailing white space stripped), directives are tokenized like the rest with
kind '#' tokens in place."""
import re

PUNCT = ["...", "<<=", ">>=", "->*", "<=>",
         "::", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=",
         "|=", "^=", "##", ".*"]
_re = re.compile(r"""
  (?P<ws>(?:\s|\\\r?\n)+)
 |(?P<com>//(?:[^\n\\]|\\(?!\r?\n)|\\\r?\n)*|/\*.*?(?:\*/|\Z))
 |(?P<id>[A-Za-z_\$~]?[A-Za-z_\$][A-Za-z_0-9\$]*)
 |(?P<num>\.?[0-9](?:[eEpP][+-]|'?[A-Za-z0-9_.])*)
 |(?P<str>"(?:[^"\\\n]|\\.)*")
 |(?P<chr>'(?:[^'\\\n]|\\.)*')
 |(?P<p>%s|[^\s])
""" % "|".join(re.escape(p) for p in PUNCT), re.X | re.S)


def tokens(text, comments=True):
    out = []
    pos = 0
    bol = True                         # nothing but white space and comments on this line so far
    n = len(text); indir = False
    while pos < n:
        m = _re.match(text, pos)
        if not m:                      # cannot happen: 'p' takes any non-space
            raise ValueError(text[pos:pos + 20])
        pos = m.end()
        k = m.lastgroup
        if k == "ws":
            if "\n" in m.group().replace("\\\n", "").replace("\\\r\n", ""):
                bol = True
                if indir:
                    out.append(("p", "#$")); indir = False
            continue
        t = m.group()
        if k == "id" and t[0] == "~":  # split the tilde off: '~A' and '~ A' are the same program
            out.append(("p", "~"))
            t = t[1:]
        if k == "com":
            if comments:
                out.append((k, re.sub(r"[ \t\r]+(?=\n|\Z)", "", t).rstrip()))
            continue
        if t == "#" and bol:           # a directive, not a stray '#'
            t = "#^"; indir = True
        bol = False
        out.append((k, t))
    if indir:
        out.append(("p", "#$"))
    return out


def texts(text, comments=True):
    return [t for _, t in tokens(text, comments)]
