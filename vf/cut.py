"""Loop cutting: the Hoare rule for loops, applied mechanically to the current
text of a /repo source file.

cut(text, [(func, k, tag), ...]) rewrites the k-th loop (0-based, textual
order) of function `func`:

    while(C) B          for(I; C; S) B

into

    for([I]; VF_INV_<tag>_ENTER, once=1;; S, once=0)
        if(!once) { VF_INV_<tag>_STEP; assume(0); }
        else if(!(C)) break;
        else B

where the two macros are supplied by the harness: ENTER asserts the invariant
(base case), then sets every variable the loop assigns and the heap it may
write to an arbitrary state, and assumes the invariant; STEP asserts the
invariant again (inductive step).  Nothing else of the file is touched: the
condition, the body, break/continue and everything around the loop stay the
text of /repo.

check_vars lists the variables the harness declares that it havocs; a variable
assigned in the loop but not listed makes the cut structurally unsound, so it
is rejected (CutError) and the caller falls back to a bounded check.
"""
import re

class CutError(Exception):
    pass

def blank(text):
    """Same length text with comments, strings and char constants blanked."""
    out = list(text)
    i, n = 0, len(text)
    def wipe(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = text[i]
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            j = n if j < 0 else j + 2
            wipe(i, j); i = j
        elif text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
            wipe(i, j); i = j
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c:
                j += 2 if text[j] == "\\" else 1
            wipe(i + 1, min(j, n)); i = j + 1
        else:
            i += 1
    return "".join(out)

def match(b, i, o, c):
    d = 0
    for k in range(i, len(b)):
        if b[k] == o: d += 1
        elif b[k] == c:
            d -= 1
            if d == 0: return k
    raise CutError("unbalanced %s" % o)

def find_func(b, name):
    for m in re.finditer(r"\b%s\s*\(" % re.escape(name), b):
        # definition: at brace depth 0
        if b[:m.start()].count("{") != b[:m.start()].count("}"):
            continue
        close = match(b, m.end() - 1, "(", ")")
        k = close + 1
        while k < len(b) and b[k].isspace(): k += 1
        if k < len(b) and b[k] == "{":
            return k, match(b, k, "{", "}")
    raise CutError("function %s not found" % name)

def find_loops(b, start, end):
    """[(kw, pos, open paren, close paren)] of while/for loops in order
    (the `while` of do-while excluded)."""
    res = []
    do_tail = set()
    for m in re.finditer(r"\bdo\b", b[start:end]):
        p = start + m.end()
        while b[p].isspace(): p += 1
        if b[p] == "{":
            q = match(b, p, "{", "}") + 1
            while b[q].isspace(): q += 1
            do_tail.add(q)
    for m in re.finditer(r"\b(while|for)\b\s*\(", b[start:end]):
        pos = start + m.start()
        if pos in do_tail: continue
        op = start + m.end() - 1
        res.append((m.group(1), pos, op, match(b, op, "(", ")")))
    return res

def split_for(b, op, cl):
    parts, d, last = [], 0, op + 1
    for k in range(op + 1, cl):
        if b[k] in "([{": d += 1
        elif b[k] in ")]}": d -= 1
        elif b[k] == ";" and d == 0:
            parts.append((last, k)); last = k + 1
    parts.append((last, cl))
    if len(parts) != 3: raise CutError("for header")
    return parts

def body_end(b, cl, end):
    k = cl + 1
    while b[k].isspace(): k += 1
    if b[k] == "{": return match(b, k, "{", "}") + 1
    # single statement: up to ; at depth 0 (nested if/else/loops are handled
    # roughly: it only serves the assigned-variables scan)
    d = 0
    for j in range(k, end):
        if b[j] in "([{": d += 1
        elif b[j] in ")]}": d -= 1
        elif b[j] == ";" and d == 0: return j + 1
    return end

def assigned(seg):
    """Identifiers assigned in a blanked code segment (over-approximation of
    plain locals; members reached through -> or . are heap)."""
    res = set()
    for m in re.finditer(r"(?<![\w.>])([A-Za-z_]\w*)\s*(=(?!=)|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<=|>>=|\+\+|--)", seg):
        res.add(m.group(1))
    for m in re.finditer(r"(\+\+|--)\s*([A-Za-z_]\w*)(?!\s*(->|\.|\[))\b", seg):
        res.add(m.group(2))
    for m in re.finditer(r"(?<![\w)\]&])\s*&\s*([A-Za-z_]\w*)(?!\w*\s*(->|\[|\())", seg):
        res.add(m.group(1))
    return res

def declared(seg):
    res = set()
    for m in re.finditer(r"(?:^|[;{(])\s*(?:const\s+|unsigned\s+|static\s+|struct\s+)*[A-Za-z_]\w*[\s*]+([A-Za-z_]\w*)\s*(?==(?!=)|;|\[)", seg):
        res.add(m.group(1))
    return res

def cut(text, jobs):
    edits = []
    b = blank(text)
    for func, k, tag, allowed in jobs:
        s, e = find_func(b, func)
        if k == "vla":
            # the k-th job form ("vla"): T name[expr]; of that function becomes
            # T *name = VF_VLA_<tag>(expr); the storage is given by the harness
            m = re.search(r"([;{}])(\s*)((?:struct\s+)?[A-Za-z_]\w*)\s+" + allowed[0] + r"\s*\[([^\];]+)\]\s*;", b[s:e])
            if not m: raise CutError("array %s of %s not found" % (allowed[0], func))
            edits.append((s + m.start() + 1, s + m.end(), "%s%s *%s = VF_VLA_%s(%s);" % (m.group(2), m.group(3), allowed[0], tag, m.group(4))))
            continue
        loops = find_loops(b, s, e)
        if k >= len(loops): raise CutError("loop %d of %s not found" % (k, func))
        kw, pos, op, cl = loops[k]
        be = body_end(b, cl, e)
        seg = b[op + 1:be]
        if kw == "for":
            p = split_for(b, op, cl)
            scan = b[p[1][0]:be]
        else:
            scan = seg
        mod = assigned(scan) - declared(b[cl + 1:be])
        extra = mod - set(allowed) - {"errno"}
        if extra:
            raise CutError("loop %d of %s assigns %s, not covered by its invariant" % (k, func, sorted(extra)))
        T = tag
        if kw == "while":
            cond = text[op + 1:cl]; inc = ""; init = ""
        else:
            init = text[p[0][0]:p[0][1]].strip()
            cond = text[p[1][0]:p[1][1]]; inc = text[p[2][0]:p[2][1]].strip()
        if not cond.strip(): cond = "1"
        step = "(%svf_once_%s = 0)" % (("(%s), " % inc) if inc else "", T)
        if kw == "for" and re.match(r"\s*(const\s+|unsigned\s+|struct\s+)*[A-Za-z_]\w*[\s*]+[A-Za-z_]\w*\s*=", init) and not re.match(r"^\s*[A-Za-z_]\w*\s*=", init):
            head = "for(%s, vf_once_%s = (({ VF_INV_%s_ENTER; vf_errno(); }), 1);; %s)" % (init, T, T, step)
            # declaration in the header: the extra declarator must have the same type (integers only)
            if "*" in init: raise CutError("pointer declaration in for header")
        else:
            pre = ("(%s), " % init) if init else ""
            head = "for(int vf_once_%s = (%sVF_INV_%s_ENTER, 1);; %s)" % (T, "(void)" + pre if pre else "", T, step)
        new = "%s if(!vf_once_%s) { VF_INV_%s_STEP; __CPROVER_assume(0); } else if(!(%s)) break; else " % (head, T, T, cond)
        nl = text[pos:cl + 1].count("\n")
        edits.append((pos, cl + 1, new.replace("\n", " ") + "\n" * nl))
    for a, z, new in sorted(edits, reverse=True):
        text = text[:a] + new + text[z:]
    return text
