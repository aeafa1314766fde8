"""Mechanical extraction of functions from /repo's current Rust source into Verus units.

A unit template (contracts/<unit>.vrs) is Verus text in which directive blocks

    //@fn FILE :: CONTEXT :: NAME [ret=r] [name=NEW] [as=body|fn]
    //| requires ..., ensures ...            (spliced between signature and body)
    //@loop K                                (k-th loop of the body, in source order)
    //| invariant ..., decreases ...
    //@loop K start|end|before|after         (ghost text at that place)
    //@begin / //@tail                       (ghost text at body start / before the tail expression)
    //@before "tokens" [#n] / //@after "tokens" [#n]
    //@sub "tokens" => "text" [opt] [all]    (documented desugaring)
    //@sig "tokens" => "text"                (documented desugaring inside the signature)
    //@end

are replaced by the text of the named function, taken verbatim from the current source, with the
ghost text inserted and the listed desugarings applied. Nothing else is changed. All matching is on
tokens, so comments and layout never matter. A directive whose anchor is gone raises LostAnchor.
"""
import re, os

class LostAnchor(Exception):
    pass

class Tok:
    __slots__ = ("kind", "text", "a", "b")
    def __init__(s, kind, text, a, b):
        s.kind, s.text, s.a, s.b = kind, text, a, b
    def __repr__(s):
        return "%s@%d" % (s.text, s.a)

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")

def lex(src):
    toks, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = re.compile(r'(b|c)?r(#*)"').match(src, i)
        if m:
            close = '"' + m.group(2)
            j = src.index(close, m.end()) + len(close)
            toks.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == '"' or (c in "bc" and i + 1 < n and src[i+1] == '"'):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^\\'])'").match(src, i)
            if m:
                toks.append(Tok("chr", m.group(0), i, m.end())); i = m.end(); continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            toks.append(Tok("life", m.group(0), i, m.end())); i = m.end(); continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end())); i = m.end(); continue
        if c.isdigit():
            m = NUM.match(src, i)
            j = m.end()
            toks.append(Tok("num", src[i:j], i, j)); i = j; continue
        toks.append(Tok("p", c, i, i + 1)); i += 1
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN: d += 1
            elif t.text in CLOSE:
                d -= 1
                if d == 0: return j
    raise LostAnchor("unbalanced bracket")

def texts(s):
    return [t.text for t in lex(s)]

def find_seq(toks, pat, lo=0, hi=None):
    if not pat: return []
    hi = len(toks) if hi is None else hi
    out = []
    i = lo
    n = len(pat)
    while i + n <= hi:
        if all(toks[i + k].text == pat[k] for k in range(n)):
            out.append(i); i += n
        else:
            i += 1
    return out

ITEM_KW = {"mod", "impl", "trait", "macro_rules"}

def body_brace(toks, i, hi):
    """from an item keyword at i, index of the '{' (or '(' for macro_rules) that opens its body"""
    j = i
    ang = 0
    while j < hi:
        t = toks[j].text
        if t in ("(", "["):
            j = match_close(toks, j)
        elif t == "{":
            return j
        elif t == ";":
            return None
        j += 1
    return None

def find_context(toks, lo, hi, ctx):
    """narrow [lo,hi) to the body of the item whose header tokens contain ctx (list of texts)"""
    spans = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.text in ITEM_KW and (i == 0 or toks[i-1].text not in (":", "&", "->", "<", "(", "=", ">", ",")):
            b = body_brace(toks, i, hi)
            if b is not None:
                hdr = [x.text for x in toks[i:b]]
                n = len(ctx)
                if any(hdr[k:k+n] == ctx for k in range(len(hdr) - n + 1)):
                    e = match_close(toks, b)
                    spans.append((b + 1, e))
                    i += 1
                    continue
        i += 1
    return spans

def is_cfg_test(toks, lo, hi):
    return False

class FnItem:
    def __init__(self, src, toks, i_fn, hi):
        self.src, self.toks = src, toks
        self.i_fn = i_fn
        self.name = toks[i_fn + 1].text
        j = i_fn
        while j < hi:
            t = toks[j].text
            if t in ("(", "["):
                j = match_close(toks, j)
            elif t == "{":
                break
            elif t == ";":
                raise LostAnchor("fn %s has no body" % self.name)
            j += 1
        self.b = j
        self.e = match_close(toks, j)

def find_fn(src, toks, lo, hi, name):
    out = []
    for i in range(lo, hi - 1):
        if toks[i].kind == "id" and toks[i].text == "fn" and toks[i+1].text == name:
            out.append(i)
    return out

def locate(src, toks, ctxs, name, which=0):
    spans = [(0, len(toks))]
    for c in ctxs:
        nxt = []
        pat = texts(c)
        for lo, hi in spans:
            nxt += find_context(toks, lo, hi, pat)
        if not nxt:
            raise LostAnchor("no item `%s`" % c)
        spans = nxt
    cands = []
    for lo, hi in spans:
        for i in find_fn(src, toks, lo, hi, name):
            try:
                cands.append(FnItem(src, toks, i, hi))
            except LostAnchor:
                pass
    seen, uniq = set(), []
    for f in cands:
        if f.i_fn not in seen:
            seen.add(f.i_fn); uniq.append(f)
    if len(uniq) <= which:
        raise LostAnchor("no fn `%s` in %s" % (name, " :: ".join(ctxs)))
    return uniq[which]

def loops_of(toks, lo, hi):
    """(keyword index, body brace index, end index) of each loop inside [lo,hi), source order"""
    out = []
    for i in range(lo, hi):
        t = toks[i]
        if t.kind != "id" or t.text not in ("while", "for", "loop"):
            continue
        if t.text == "for" and i + 1 < hi and toks[i+1].text == "<":
            continue
        j = i + 1
        while j < hi:
            x = toks[j].text
            if x in ("(", "["):
                j = match_close(toks, j)
            elif x == "{":
                # `while let P { .. } = e`-style struct patterns are not used in these sources
                break
            j += 1
        if j < hi:
            out.append((i, j, match_close(toks, j)))
    return out

def tail_index(toks, b, e):
    """token index before which ghost text precedes the tail expression of block b..e"""
    i = b + 1
    start = i
    while i < e:
        t = toks[i]
        if t.text in OPEN:
            j = match_close(toks, i)
            # a block-like statement ends here when next token starts a new statement
            if t.text == "{" and j + 1 < e and toks[j+1].text not in (".", "?", "else", ")", ",", ";", "=", "+", "-", "*", "/", "&", "|", "<", ">"):
                start = j + 1
            i = j + 1
            continue
        if t.text == ";":
            start = i + 1
        i += 1
    return start

def render(src, a, b, edits):
    """apply edits (start, end, text, prio) to src[a:b]; edits are non-overlapping except insertions"""
    edits = sorted(edits, key=lambda x: (x[0], x[1], x[3]))
    out, p = [], a
    for (s, e, txt, _) in edits:
        if s < p:
            raise LostAnchor("overlapping edits")
        out.append(src[p:s]); out.append(txt); p = e
    out.append(src[p:b])
    return "".join(out)

def parse_q(line):
    """split a directive line into words and quoted strings"""
    return [m.group(1) if m.group(1) is not None else m.group(2)
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"|(\S+)', line)]

def expand_rep(s, names):
    """expand `$( .. )sep*` repetitions over the given metavariables, as macro_rules would"""
    while True:
        i = s.find("$(")
        if i < 0: return s
        d, j = 0, i + 1
        while True:
            if s[j] == "(": d += 1
            elif s[j] == ")":
                d -= 1
                if d == 0: break
            j += 1
        k = s.index("*", j)
        sep, body = s[j+1:k].strip(), s[i+2:j]
        n = {len(v) for q, v in names.items() if re.search(r"\$" + q + r"\b", body)}
        if len(n) != 1: raise LostAnchor("macro repetition over unknown metavariables")
        parts = []
        for m in range(n.pop()):
            b = body
            for q, v in names.items(): b = re.sub(r"\$" + q + r"\b", v[m] if m < len(v) else "", b)
            parts.append(b)
        s = s[:i] + sep.join(parts) + s[k+1:]

def locate_closure(src, toks, fn, spec):
    """The closure bound by `let NAME = |..| ..`, or the first one after the tokens `@a~b~c`, as a function body."""
    if spec.startswith("@"):
        pat = texts(spec[1:].replace("~", " "))
        hits = find_seq(toks, pat, fn.b + 1, fn.e)
        hits = [h + len(pat) for h in hits if toks[h + len(pat)].text in ("move", "|", "||", "&", "mut")]
        if not hits: raise LostAnchor("closure after `%s` not found" % " ".join(pat))
        k = hits[0]
    else:
        k = None
        for i in range(fn.b + 1, fn.e - 2):
            if toks[i].text == "let" and (toks[i+1].text == spec or (toks[i+1].text == "mut" and toks[i+2].text == spec)):
                k = i
                while toks[k].text != "=": k += 1
                k += 1; break
        if k is None: raise LostAnchor("closure `%s` not found" % spec)
    while k < fn.e and toks[k].text in ("move", "&", "mut"): k += 1
    if toks[k].text == "||": q = k
    elif toks[k].text == "|":
        q = k + 1
        while toks[q].text != "|":
            q = match_close(toks, q) + 1 if toks[q].text in ("(", "[", "{") else q + 1
    else: raise LostAnchor("no closure at `%s`" % spec)
    b = q
    k = q + 1
    if toks[k].text == "{" : return _with(fn, k, match_close(toks, k))
    while toks[k].text not in (",", ";", ")", "]", "}"):
        k = match_close(toks, k) + 1 if toks[k].text in ("(", "[", "{") else k + 1
    return _with(fn, b, k)

def locate_region(src, toks, fn, start, stop):
    """The statements from the tokens `@a~b` up to (excluding) the tokens `@c~d`, or without a stop to the end
    of the first block after the start (one `for`, `if`, `while` or `loop` statement), as a function body."""
    pat = texts(start[1:].replace("~", " "))
    hits = find_seq(toks, pat, fn.b + 1, fn.e)
    if not hits: raise LostAnchor("statement `%s` not found" % " ".join(pat))
    k = hits[0]
    if stop:
        pat = texts(stop[1:].replace("~", " "))
        ends = find_seq(toks, pat, k + 1, fn.e)
        if not ends: raise LostAnchor("statement `%s` not found" % " ".join(pat))
        return _with(fn, k - 1, ends[0])
    q = k
    while q < fn.e and toks[q].text != "{":
        q = match_close(toks, q) + 1 if toks[q].text in ("(", "[") else q + 1
    return _with(fn, k - 1, match_close(toks, q) + 1)

def _with(fn, b, e):
    import copy
    c = copy.copy(fn); c.b, c.e = b, e
    return c

class Unit:
    def __init__(self, repo, path):
        self.repo, self.path = repo, path
        self.functions = []      # (file, ctx, name, line)
        self.desugarings = []
        self.cache = {}

    def source(self, f):
        if f not in self.cache:
            p = os.path.join(self.repo, f)
            try:
                src = open(p).read()
            except OSError:
                raise LostAnchor("no file " + f)
            self.cache[f] = (src, lex(src))
        return self.cache[f]

    def expand(self, vacuity=False, stub=()):
        """vacuity: put `assert(false)` at each extracted body's start (every one must then fail).
        stub: indices of extracted functions whose body is left out (contract assumed, labelled so)."""
        self.functions, self.desugarings = [], []
        self.stub, self.lost = set(stub), {}
        lines = open(self.path).read().split("\n")
        return self._expand(lines, vacuity, os.path.dirname(self.path))

    def _expand(self, lines, vacuity, base):
        out, i = [], 0
        while i < len(lines):
            ln = lines[i].strip()
            if ln.startswith("//@include "):
                inc = os.path.join(base, ln.split(None, 1)[1].strip())
                out.append(self._expand(open(inc).read().split("\n"), vacuity, base))
                i += 1; continue
            if ln.startswith("//@for "):       # //@for X in a b c ... //@endfor : textual repetition
                var, vals = ln[len("//@for "):].split(" in ", 1)
                j = i + 1
                while lines[j].strip() != "//@endfor": j += 1
                for v in vals.split():
                    sub = list(zip(var.strip().split("/"), v.split("/")))
                    rep = []
                    for x in lines[i+1:j]:
                        for a, b in sub: x = x.replace(a, b)
                        rep.append(x)
                    out.append(self._expand(rep, vacuity, base))
                i = j + 1; continue
            if ln.startswith("//@fn "):
                j = i
                block = []
                while lines[j].strip() != "//@end":
                    if lines[j].strip().startswith("//@repeat "):   # inside a function: textual repetition
                        var, vals = lines[j].strip()[len("//@repeat "):].split(" in ", 1)
                        e = j + 1
                        while lines[e].strip() != "//@endrepeat": e += 1
                        for v in vals.split(): block += [x.strip().replace(var.strip(), v) for x in lines[j+1:e]]
                        j = e + 1; continue
                    block.append(lines[j].strip()); j += 1
                out.append(self.one(block, vacuity))
                i = j + 1; continue
            out.append(lines[i]); i += 1
        return "\n".join(out)

    def one(self, block, vacuity):
        head = block[0][len("//@fn "):]
        opts = {}
        m = re.search(r"\s+((?:\w+=\S+\s*)+)$", head)
        if m:
            for kv in m.group(1).split():
                k, v = kv.split("=", 1); opts[k] = v
            head = head[:m.start()]
        parts = [p.strip() for p in head.split(" :: ")]
        f, ctxs, name = parts[0], parts[1:-1], parts[-1]
        src, toks = self.source(f)
        fn = locate(src, toks, ctxs, name, int(opts.get("which", "0")))
        idx = len(self.functions)
        self.functions.append({"file": f, "context": " :: ".join(ctxs), "fn": opts.get("name", name),
                               "line": src.count("\n", 0, toks[fn.i_fn].a) + 1, "macro": opts.get("macro", "")})
        try:
            if "from" in opts: fn = locate_region(src, toks, fn, opts["from"], opts.get("to"))
            if "closure" in opts: fn = locate_closure(src, toks, fn, opts["closure"])
            return self.build(block, opts, f, src, toks, fn, name, vacuity, idx, idx in self.stub)
        except LostAnchor as e:
            # the contract stays, the body is out of reach: labelled, and covered by the bounded stand-in
            self.lost[idx] = str(e)
            return self.build(block, opts, f, src, toks, fn, name, vacuity, idx, True)

    def build(self, block, opts, f, src, toks, fn, name, vacuity, idx, stub):
        b, e = fn.b, fn.e
        edits = []
        prio = 0
        # parse directives
        items, cur = [], None
        spec = []
        cur = ("spec", spec)
        for ln in block[1:]:
            if ln.startswith("//|"):
                cur[1].append(ln[3:])
            elif ln.startswith("//@"):
                cur = (ln[3:].strip(), [])
                items.append(cur)
            elif ln == "":
                pass
            else:
                raise ValueError("bad template line: " + ln)
        loops = loops_of(toks, b + 1, e)
        sig_edits = []
        sig_text = None
        loop_labels = {}
        for d, body in items:
            txt = "\n".join(body)
            w = parse_q(d)
            prio += 1
            if stub and w[0] not in ("sig", "sigtext"):
                continue
            if w[0] == "loop":
                k = int(w[1])
                if k >= len(loops):
                    raise LostAnchor("%s: loop %d not found" % (name, k))
                kw, lb, le = loops[k]
                where = w[2] if len(w) > 2 else "spec"
                if where == "spec":
                    edits.append((toks[lb].a, toks[lb].a, "\n" + txt + "\n", prio))
                elif where == "start":
                    edits.append((toks[lb].b, toks[lb].b, "\n" + txt + "\n", prio))
                elif where == "end":
                    edits.append((toks[le].a, toks[le].a, "\n" + txt + "\n", prio))
                elif where == "before":
                    edits.append((toks[kw].a, toks[kw].a, "\n" + txt + "\n", prio))
                elif where == "after":
                    edits.append((toks[le].b, toks[le].b, "\n" + txt + "\n", prio))
                elif where == "bind":   # name the ghost iterator: for x in IT: e
                    ins = find_seq(toks, ["in"], kw, lb)
                    if not ins or toks[kw].text != "for":
                        raise LostAnchor("%s: loop %d is no for loop" % (name, k))
                    q = toks[ins[0]].b
                    edits.append((q, q, " " + w[3] + ":", prio))
                else:
                    raise ValueError(d)
            elif w[0] == "begin":
                edits.append((toks[b].b, toks[b].b, "\n" + txt + "\n", prio))
            elif w[0] == "tail":
                q = tail_index(toks, b, e)
                pos = toks[q].a if q < e else toks[e].a
                edits.append((pos, pos, "\n" + txt + "\n", prio))
            elif w[0] == "sigtext":  # the signature of a closure lifted to a function (its captures become parameters)
                sig_text = w[1].replace('\\"', '"')
            elif w[0] in ("before", "after"):
                pat = texts(w[1].replace('\\"', '"'))
                nth = int(w[2][1:]) if len(w) > 2 else 0
                hits = find_seq(toks, pat, b + 1, e)
                if len(hits) <= nth:
                    raise LostAnchor("%s: anchor `%s` not found" % (name, w[1]))
                h = hits[nth]
                pos = toks[h].a if w[0] == "before" else toks[h + len(pat) - 1].b
                edits.append((pos, pos, "\n" + txt + "\n", prio))
            elif w[0] in ("sub", "sig"):
                pat = texts(w[1].replace('\\"', '"'))
                rep = w[3].replace('\\"', '"')
                flags = w[4:]
                lo, hi = (b + 1, e) if w[0] == "sub" else (fn.i_fn, b)
                hits = find_seq(toks, pat, lo, hi)
                if not hits and "opt" not in flags:
                    raise LostAnchor("%s: `%s` not found" % (name, w[1]))
                if "all" not in flags:
                    hits = hits[:1]
                for h in hits:
                    tgt = edits if w[0] == "sub" else sig_edits
                    tgt.append((toks[h].a, toks[h + len(pat) - 1].b, rep, prio))
                if hits:
                    self.desugarings.append("%s::%s: `%s` -> `%s`" % (f, name, w[1], rep))
            elif w[0] == "loopify":   # `f(.., |x| { body })`, a call of its closure per item, becomes a loop with that body
                pat = texts(w[1].replace('\\"', '"'))
                nth = int(w[4][1:]) if len(w) > 4 else 0
                hits = find_seq(toks, pat, b + 1, e)
                if len(hits) <= nth:
                    raise LostAnchor("%s: `%s` not found" % (name, w[1]))
                h = hits[nth]; o = h + len(pat)
                rep = w[3].replace('\\"', '"')
                # invariants --- ghost text for the start of the body --- and for its end
                parts = re.split(r"\n\s*---\s*\n", "\n" + txt + "\n") + ["", ""]
                if toks[o].text == "{" and toks[match_close(toks, o) + 1].text == ")":
                    c = match_close(toks, o)
                    last = c + 2 if toks[c + 2].text == ";" else c + 1
                    edits.append((toks[h].a, toks[o].b, rep + "\n" + parts[0] + "\n{\n" + parts[1] + "\n", prio))
                    edits.append((toks[c].a, toks[last].b, "\n" + parts[2] + "\n}", prio))
                else:   # an expression as the closure's body
                    opens = [k for k in range(h, o) if toks[k].text == "(" and match_close(toks, k) > o]
                    if not opens: raise LostAnchor("%s: `%s` is no call" % (name, w[1]))
                    c = match_close(toks, opens[-1])
                    last = c + 1 if toks[c + 1].text == ";" else c
                    edits.append((toks[h].a, toks[o - 1].b, rep + "\n" + parts[0] + "\n{\n" + parts[1] + "\n", prio))
                    edits.append((toks[c].a, toks[last].b, ";\n" + parts[2] + "\n}", prio))
                self.desugarings.append("%s::%s: `%s { .. })` -> `%s { .. }`" % (f, name, w[1], rep))
            elif w[0] == "closure":   # give the closure matching the tokens a contract
                pat = texts(w[1].replace('\\"', '"'))
                hits = find_seq(toks, pat, b + 1, e)
                if not hits:
                    raise LostAnchor("%s: closure `%s` not found" % (name, w[1]))
                h = hits[0]; o = h + len(pat)
                if toks[o].text == "{" or pat[-1] == "{":
                    edits.append((toks[h].a, toks[o - 1].b, txt.strip(), prio))
                else:   # an expression body: up to the end of the argument
                    c = o
                    while toks[c].text not in (",", ")", ";", "}", "]"):
                        c = match_close(toks, c) + 1 if toks[c].text in ("(", "[", "{") else c + 1
                    edits.append((toks[h].a, toks[o - 1].b, txt.strip() + " {", prio))
                    edits.append((toks[c - 1].b, toks[c - 1].b, "}", prio))
            else:
                raise ValueError("unknown directive " + d)
        # signature
        if "ret" in opts and sig_text is None:
            arrow = None
            d = 0
            k = fn.i_fn
            if toks[k + 2].text == "<":        # generic parameters, which may contain `Fn(..) -> ..`
                k, ad = k + 2, 0
                while k < b:
                    if toks[k].text == "<": ad += 1
                    elif toks[k].text == ">" and toks[k-1].text != "-":
                        ad -= 1
                        if ad == 0: break
                    k += 1
            while k < b:
                if toks[k].text in ("(", "["):
                    k = match_close(toks, k)
                elif toks[k].text == "-" and toks[k+1].text == ">":
                    arrow = k; break
                k += 1
            if arrow is None:
                raise LostAnchor("%s: no return type" % name)
            # type extends to `where` or body
            k = arrow + 2
            while k < b and toks[k].text != "where":
                k += 1
            ts, te = toks[arrow + 2].a, toks[k - 1].b
            sig_edits.append((ts, ts, "(%s: " % opts["ret"], 0))
            sig_edits.append((te, te, ")", 9999))
        sig = render(src, toks[fn.i_fn].a, toks[b].a, sig_edits) if sig_text is None else sig_text
        if "name" in opts:
            sig = re.sub(r"^fn\s+" + re.escape(name), "fn " + opts["name"], sig)
        body = render(src, toks[b].b, toks[e].a, edits) if b <= e else ""
        if stub:
            body = " unimplemented!() "
        elif vacuity:
            body = "\n assert(false); // vacuity probe\n" + body
        out = sig.rstrip() + "\n" + "\n".join(spec) + "\n{" + body + "}\n"
        if "rep" in opts:     # macro repetitions: rep=name:A1,B1;name2:A2,B2
            out = expand_rep(out, {kv.split(":", 1)[0]: [x for x in kv.split(":", 1)[1].split(",") if x] for kv in opts["rep"].split(";")})
        if "macro" in opts:
            for kv in opts["macro"].split(","):
                a, c = kv.split(":", 1)
                out = out.replace("$" + a, c)
        attr = "#[verifier::external_body]\n" if stub else ""
        return "/*@F %d*/\n" % idx + attr + (opts.get("vis", "") + " " if "vis" in opts else "") + out + "/*@E %d*/" % idx
