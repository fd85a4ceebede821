import re


def strip(n):
    """Qualified name without template arguments."""
    out = []
    depth = 0
    i = 0
    L = len(n)
    while i < L:
        if depth == 0 and n.startswith("operator", i):
            m = re.match(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\])", n[i:])
            if m:
                out.append("operator" + m.group(1))
                i += m.end()
                continue
        c = n[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)
