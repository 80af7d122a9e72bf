"""Mechanical extraction of named entities (functions, methods, constants, types) from /repo's current source.

The emitted text is the source text of each entity, byte for byte, wrapped in its namespaces.  Dropped: everything
else in the file (includes, other entities).  Entities of the same file that the requested ones mention are added
automatically (closure), so a helper extracted by a refactoring is picked up.
"""
import os, re


class ExtractError(Exception):
    pass


class Ent:
    def __init__(self, ns, names, text, start, kind, cond=None):
        self.ns, self.names, self.text, self.start, self.kind = ns, names, text, start, kind


def blank(src):
    """same length text with comments / strings / chars blanked"""
    out = list(src)
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            for k in range(i, j):
                out[k] = " "
            i = j
        elif src.startswith("/*", i):
            j = src.find("*/", i)
            j = n if j < 0 else j + 2
            for k in range(i, j):
                if src[k] != "\n":
                    out[k] = " "
            i = j
        elif c == '"' and i > 0 and src[i - 1] == "R":
            m = re.match(r'"([^(]*)\(', src[i:])
            j = src.find(")" + m.group(1) + '"', i) + len(m.group(1)) + 2
            for k in range(i, j):
                if src[k] != "\n":
                    out[k] = " "
            i = j
        elif c == '"' or (c == "'" and not (i > 0 and (src[i - 1].isalnum() or src[i - 1] == "_"))):
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == "\\" else 1
            for k in range(i + 1, min(j, n)):
                out[k] = " "
            i = j + 1
        else:
            i += 1
    return "".join(out)


def match(b, i, op, cl):
    d = 0
    for j in range(i, len(b)):
        if b[j] == op:
            d += 1
        elif b[j] == cl:
            d -= 1
            if d == 0:
                return j
    raise ExtractError("unbalanced " + op)


def entity_names(b):
    """declared names of an entity from its blanked text; [] if unknown"""
    s = b.strip()
    s = re.sub(r"^(\s*template\s*<)", r"\1", s)
    # strip template header
    while s.startswith("template"):
        i = s.index("<")
        d = 0
        for j in range(i, len(s)):
            if s[j] == "<":
                d += 1
            elif s[j] == ">":
                d -= 1
                if d == 0:
                    break
        s = s[j + 1:].strip()
    m = re.match(r"(?:typedef\b.*?(\w+)\s*;)$", s, re.S)
    if m:
        return [m.group(1)], "typedef"
    m = re.match(r"using\s+namespace\b", s)
    if m:
        return ["using namespace"], "using"
    m = re.match(r"using\s+(\w+)\s*=", s)
    if m:
        return [m.group(1)], "using"
    m = re.match(r"using\s+([\w:]+)\s*;", s)
    if m:
        return [m.group(1).split("::")[-1]], "using"
    m = re.match(r"(?:enum\s+class|enum\s+struct|enum|class|struct|union)\s+(?:\[\[\w+\]\]\s*|alignas\([^)]*\)\s*)*([\w:]+)", s)
    head = s.split("{")[0]
    if m and "(" not in head.split(":")[0].replace("alignas(", ""):
        if "{" in s:
            body = s[s.index("{"):]
            names = [m.group(1)]
            if s.startswith("enum"):
                names += re.findall(r"\b([A-Za-z_]\w*)\b", re.sub(r"=[^,}]*", "", body))
            return names, "type"
        return [m.group(1)], "fwd"
    # function or variable
    depth = 0
    hd = s
    # variable: '=' before '(' or '{' or ';' before '('
    mm = re.search(r"[({=;\[]", re.sub(r"operator\s*(\(\)|[^\s\w(]+)", lambda m: "operator" + "_" * (len(m.group(0)) - 8), hd))
    if mm and mm.group(0) in "={;[":
        pre = hd[:mm.start()].strip()
        m2 = re.search(r"([\w:]+)\s*$", pre)
        if m2 and m2.group(1) not in ("class", "struct"):
            return [m2.group(1)], "var"
        return [], "other"
    # function
    i = 0
    while True:
        i = hd.find("(", i)
        if i < 0:
            return [], "other"
        pre = hd[:i].rstrip()
        m2 = re.search(r"((?:[\w:]+(?:<[^<>()]*>)?::)?~?(?:operator\s*(?:\(\s*\)|[^\s\w(]+|\s[\w:]+)|[A-Za-z_]\w*))\s*$", pre)
        if m2:
            nm = re.sub(r"\s+", "", m2.group(1))
            if nm in ("__attribute__", "alignas", "decltype", "noexcept"):
                i = match(hd, i, "(", ")") + 1
                continue
            return [nm], "func"
        i += 1


def parse(path):
    src = open(path, encoding="utf-8", errors="replace").read()
    return parse_text(src)


def parse_text(src):
    # raw length-preserving: use latin1-safe char indices
    b = blank(src)
    # blank preprocessor lines at top level handled during scan
    ents, defs = [], []
    n = len(src)

    def scan(i, end, ns):
        start = i
        while i < end:
            # skip whitespace
            while i < end and b[i].isspace():
                i += 1
            if i >= end:
                return
            if b[i] == "#":
                j = i
                while True:
                    k = b.find("\n", j)
                    if k < 0 or k >= end:
                        k = end
                        break
                    if b[k - 1] == "\\":
                        j = k + 1
                        continue
                    break
                line = src[i:k]
                if re.match(r"#\s*define", line):
                    m = re.match(r"#\s*define\s+(\w+)", line)
                    ents.append(Ent(None, [m.group(1)], line, i, "define"))
                i = k + 1
                continue
            if b[i] == ";" or b[i] == "}":
                i += 1
                continue
            m = re.compile(r"(inline\s+)?namespace\b\s*([\w:]*)\s*\{").match(b, i)
            if m:
                e = match(b, m.end() - 1, "{", "}")
                scan(m.end(), e, ns + ((m.group(2).split("::")) if m.group(2) else [""]))
                i = e + 1
                continue
            m = re.compile(r'extern\s+"\s*"\s*\{').match(b, i)
            if m:
                e = match(b, m.end() - 1, "{", "}")
                scan(m.end(), e, ns)
                i = e + 1
                continue
            # entity: to ';' at depth 0, or a function body '}'
            j = i
            isfunc = False
            while j < end:
                c = b[j]
                if c in "([":
                    j = match(b, j, c, {"(": ")", "[": "]"}[c]) + 1
                    continue
                if c == ";":
                    j += 1
                    break
                if c == "{":
                    e = match(b, j, "{", "}")
                    nm, kind = entity_names(b[i:j] + "{}" if True else "")
                    if kind == "func":
                        # constructor init list with braces: "X() : a{1}, b{2} {"
                        hd = b[i:j]
                        k = e + 1
                        rest = re.match(r"\s*[,{]", b[k:k + 50])
                        if rest and re.search(r"\)\s*(noexcept\s*)?:", hd):
                            j = k
                            continue
                        j = e + 1
                        break
                    j = e + 1
                    continue
                j += 1
            txt, bt = src[i:j], b[i:j]
            names, kind = entity_names(bt)
            ents.append(Ent(list(ns), names, txt, i, kind))
            i = j
    scan(0, n, [])
    return ents


def short(nm):
    return nm.split("::")[-1]


def wanted(e, want):
    for nm in e.names:
        for w in want:
            if nm == w or (("::" not in w) and e.kind != "func" and short(nm) == w) or nm.endswith("::" + w) or \
                    (w.endswith("::*") and nm.startswith(w[:-1])):
                return True
    return False


def extract(path, want, closure=True, exclude=(), optional=(), strip_static=False, methods_closure=True):
    """text of the wanted entities of path (in source order) plus same-file dependencies"""
    ents = parse(path)
    sel = set()
    for w in want:
        hit = [k for k, e in enumerate(ents) if wanted(e, [w]) and e.kind != "fwd"]
        if not hit and w not in optional:
            raise ExtractError("%s not found in %s" % (w, path))
        sel.update(hit)
    if closure:
        ch = True
        while ch:
            ch = False
            for k in list(sel):
                ids = set(re.findall(r"[A-Za-z_]\w*", blank(ents[k].text)))
                for q, e in enumerate(ents):
                    if q in sel:
                        continue
                    for nm in e.names:
                        if nm in exclude or short(nm) in exclude:
                            continue
                        if "::" in nm and not methods_closure:
                            continue
                        if short(nm) in ids and e.kind not in ("fwd", "other") and short(nm) not in ("main",):
                            if "::" in nm:
                                # method: only when the class matches one already selected
                                cls = nm.rsplit("::", 1)[0]
                                if not any(x.names and x.names[0].startswith(cls + "::") for y, x in enumerate(ents) if y in sel):
                                    continue
                                if "~" in nm or short(nm) == short(cls):
                                    continue
                            sel.add(q)
                            ch = True
                            break
    out = []
    for k in sorted(sel):
        e = ents[k]
        if e.ns is None:
            out.append(e.text)
            continue
        ns = e.ns
        o = "".join("namespace %s{" % (x + " " if x else "") for x in ns)
        out.append(o + "\n" + e.text + (";" if False else "") + "\n" + "}" * len(ns))
    names = [n for k in sorted(sel) for n in ents[k].names[:1]]
    return "\n".join(out) + "\n", names
