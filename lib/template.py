"""Expansion of //@ directives: mechanical extraction of /repo functions into a verifier / native file.

Modes: 'verus' (contracts spliced in), 'vac' (verus + reachability probes), 'plain' (no contracts: native and Kani).
"""
import os
import re
import shlex

from desugar import annotate_closure, chains, desugar, hoist, select, spawned, loop_values
from rustsrc import (match_open_of, DROPS, Edits, FnText, LostAnchor, Source, clean, expand_macro, lex, match_close, parse_items,
                     nested_items, split_args)

REPO = os.environ.get("VX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rx(pat):
    """regex in a directive: a blank matches any whitespace (also none at token borders)"""
    return re.compile(pat.strip().replace(" ", r"\s*"), re.S)


def bind_tail(f, name, txt):
    """tail expression E of the body -> `let name = E; TXT name` """
    toks = f.toks
    b0, b1 = f.it.body
    end = b1 if toks[b1].t == "}" else b1 - 1
    i = b0 + 1
    start = i
    while i < end:
        # one statement / expression from here
        start = i
        j = i
        blocky = toks[j].t in ("if", "while", "for", "loop", "match", "{", "unsafe") or (toks[j].k == "l")
        stop = None
        while j < end:
            t = toks[j].t
            if t == ";":
                stop = j + 1
                break
            if t in ("(", "[", "{"):
                c = match_close(toks, j)
                if t == "{" and blocky:
                    nx = toks[c + 1].t
                    if nx not in ("else", ".", "?", "}", ")", ",", ";") and c + 1 < end and not (toks[j - 1].t == "=>"):
                        stop = c + 1
                        break
                    if c + 1 == end and toks[start].t in ("while", "for"):
                        stop = c + 1
                        break
                j = c
            j += 1
        if stop is None:
            break
        i = stop
        start = i
    if start >= end:
        raise LostAnchor(f"{f.name}: no tail expression")
    a, z = toks[start].s, toks[end - 1].e
    return f.text[:a] + f"let {name} = " + f.text[a:z] + f";\n{txt}\n{name}\n" + f.text[z:]


def drop_nested(f):
    ed = Edits(f.text)
    for n in nested_items(f.text, f.toks, f.it):
        ed.rep(f.toks[n.tok0].s, f.toks[n.tok1 - 1].e, "")
    return ed.apply()


def pub_fields(text):
    """every field of a struct item `pub` (visibility only)"""
    toks = lex(text)
    ed = Edits(text)
    i = next(k for k, t in enumerate(toks) if t.t == "struct")
    d = 0
    while i < len(toks) and not (d == 0 and toks[i].t in ("{", "(", ";")):
        if toks[i].t == "<":
            d += 1
        elif toks[i].t == ">" and toks[i - 1].t != "-":
            d -= 1
        elif toks[i].t == ">>":
            d -= 2
        i += 1
    if i >= len(toks) or toks[i].t == ";":
        return text
    c = match_close(toks, i)
    start = True
    k = i + 1
    ang = 0
    while k < c:
        t = toks[k]
        if t.t == "#" and toks[k + 1].t == "[":
            k = match_close(toks, k + 1) + 1
            continue
        if start:
            if t.t != "pub":
                ed.rep(t.s, t.s, "pub ")
            start = False
        if t.t in ("(", "[", "{"):
            k = match_close(toks, k)
        elif t.t == "<":
            ang += 1
        elif t.t == ">" and toks[k - 1].t != "-":
            ang -= 1
        elif t.t == ">>":
            ang -= 2
        elif t.t == "," and ang == 0:
            start = True
        k += 1
    return ed.apply()


def ensure_macro(args):
    # tn_types `ensure!(cond, err)`: if !(cond) { return Err(err) }   (crates/types/src/error.rs)
    return f"if !({args[0]}) {{ return Err({', '.join(args[1:])}); }}"


def verus_bytes(text):
    """byte-string literals as arrays, integer<->bytes conversions as their shims (lib/verus/bytes.rs)"""
    toks = lex(text)
    ed = Edits(text)
    for i, t in enumerate(toks):
        if t.k == "s" and t.t.startswith('b"'):
            try:
                val = eval(t.t)
            except Exception:
                continue
            ed.rep(t.s, t.e, "(&[" + ", ".join(f"{b}u8" for b in val) + "])")
        elif t.t in ("to_le_bytes", "to_be_bytes") and i and toks[i - 1].t == ".":
            ed.rep(t.s, t.e, "vx_" + t.t[3:5])
        elif t.t in ("from_le_bytes", "from_be_bytes") and i >= 2 and toks[i - 1].t == "::":
            ed.rep(toks[i - 2].s, t.e, f"vx_{toks[i - 2].t}_{t.t[5:7]}")
    return ed.apply()


class Region:
    def __init__(self, name, file, contracted, has_req, loops):
        self.name, self.file, self.contracted = name, file, contracted
        self.has_req, self.nloops = has_req, loops
        self.lo = self.hi = 0
        self.probes = []


def own_mut_self(f):
    """`mut self` as a parameter: a local the body uses instead"""
    i, j = f.params()
    if not (f.toks[i + 1].t == "mut" and f.toks[i + 2].t == "self" and f.toks[i + 3].t != ":"):
        return f.text, 0
    b0, b1 = f.it.body
    t = f.text
    out, at = t[:f.toks[i + 1].s] + "self" + t[f.toks[i + 2].e:f.toks[b0].e] + " let mut vx_self = self; ", f.toks[b0].e
    for k in range(b0 + 1, b1):
        if f.toks[k].t == "self" and f.toks[k].k == "i":
            out += t[at:f.toks[k].s] + "vx_self"
            at = f.toks[k].e
    return out + t[at:], 1


class Expander:
    def __init__(self, mode, repo=REPO):
        self.mode = mode
        self.repo = repo
        self.sources = {}
        self.included = set()
        self.out = []
        self.tail = []
        self.regions = []
        self.known = set()
        self.drops = set()
        self.subs = []
        self.inlined = []
        self.pulled = []
        self.probe_lines = []  # (marker)
        self.nprobe = 0
        self.type_sizes = {}

    def src(self, f):
        if f not in self.sources:
            p = f if os.path.isabs(f) else os.path.join(self.repo, f)
            if not os.path.exists(p):
                raise LostAnchor(f"no file {f}")
            self.sources[f] = Source(p)
        return self.sources[f]

    # ---- known names (anything the template or its includes declares)
    def scan_known(self, text):
        for m in re.finditer(r"\bfn\s+([A-Za-z_]\w*)", text):
            self.known.add(m.group(1))
        for m in re.finditer(r"\b(?:const|static|struct|enum|type)\s+([A-Za-z_]\w*)", text):
            self.known.add(m.group(1))
        for m in re.finditer(r"//@known (.*)", text):
            self.known.update(m.group(1).split())
        for m in re.finditer(r'//@(?:fn|item|impl)\s.*?path="([^"]*)"', text):
            self.known.add(m.group(1).split(" :: ")[-1].split()[-1])
        for m in re.finditer(r"//@include (\S+)", text):
            with open(os.path.join(VERIF, m.group(1))) as f:
                self.scan_known(f.read())

    def expand(self, text):
        self.scan_known(text)
        self._expand(text)
        for t in self.tail:
            self.emit(t)
        return "\n".join(self.out) + "\n"

    def emit(self, text):
        self.out.extend(text.split("\n"))

    def _expand(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            st = ln.strip()
            if not st.startswith("//@"):
                self.out.append(ln)
                i += 1
                continue
            word = st[3:].split(None, 1)[0] if len(st) > 3 else ""
            arg = st[3 + len(word):].strip()
            if word == "include":
                if arg in self.included:
                    i += 1
                    continue
                self.included.add(arg)
                with open(os.path.join(VERIF, arg)) as f:
                    self._expand(f.read())
                i += 1
            elif word == "known":
                i += 1
            elif word == "path":
                # a whole module (tree) compiled where it lies: //@path pub mod name = crates/..
                decl, f = [x.strip() for x in arg.split("=", 1)]
                f = os.path.join(self.repo, f)
                if not os.path.exists(f):
                    raise LostAnchor(f"no file {f}")
                self.out.append(f'#[path = "{f}"] {decl};')
                i += 1
            elif word in ("fn", "item", "impl", "module"):
                j = i + 1
                block = []
                while lines[j].strip() != "//@end":
                    block.append(lines[j])
                    j += 1
                    if j >= len(lines):
                        raise SystemExit(f"template: //@{word} without //@end: {arg}")
                opts = dict(x.split("=", 1) if "=" in x else (x, "1") for x in shlex.split(arg))
                getattr(self, "do_" + word)(opts, self.parse_block(block))
                i = j + 1
            elif word == "verus-only" or word == "plain-only":
                j = i + 1
                block = []
                while lines[j].strip() != "//@end-only":
                    block.append(lines[j])
                    j += 1
                if (word == "verus-only") == (self.mode in ("verus", "vac")):
                    self._expand("\n".join(block))
                i = j + 1
            else:
                raise SystemExit(f"template: unknown directive {st}")

    def parse_block(self, block):
        """-> list of (word, arg, [lines])"""
        out = []
        cur = None
        for ln in block:
            st = ln.strip()
            if st.startswith("//@"):
                word = st[3:].split(None, 1)[0]
                cur = (word, st[3 + len(word):].strip(), [])
                out.append(cur)
            elif cur is not None:
                cur[2].append(ln)
            elif st:
                raise SystemExit(f"template: stray line in block: {ln}")
        return out

    def do_sub(self, text, arg, optional):
        m = re.match(r"/(.*)/ =>(.*)$", arg, re.S)
        if not m:
            raise SystemExit(f"template: bad sub {arg}")
        pat, new = m.group(1), m.group(2).strip()
        text2, n = rx(pat).subn(new, text)
        if n == 0 and not optional:
            raise LostAnchor(f"substitution pattern not found: {pat}")
        if n:
            self.subs.append(f"{pat} => {new} (x{n})")
        return text2

    # ---- whole items (struct / enum / const / type)
    def do_item(self, opts, block):
        s = self.src(opts["file"])
        it = s.find(opts["path"])
        text = clean(s.text(it), keep_attrs=tuple(opts.get("keep", "").split(",")) if opts.get("keep") else ())
        for w, a, body in block:
            if w in ("sub", "sub?"):
                text = self.do_sub(text, a, w == "sub?")
        if self.mode in ("verus", "vac"):
            text = verus_bytes(text)
        if "nopub" not in opts and it.kind != "impl":
            text = re.sub(r"^\s*(pub\s*(\([^)]*\))?\s*)?", "pub ", text, count=1) if not text.lstrip().startswith("#") else text
            text = re.sub(r"\bpub\s*\((crate|super|in [^)]*)\)", "pub", text)
            if it.kind == "struct" and "rawfields" not in opts:
                text = pub_fields(text)
        for w, a, body in block:
            if w == "attr":
                text = "\n".join(body) + "\n" + text
        self.emit(f"// ---- extracted: {opts['file']} :: {opts['path']}")
        self.emit(text.strip())

    # ---- a whole module file, verbatim minus #[cfg(test)] (native only)
    def do_module(self, opts, block):
        s = self.src(opts["file"])
        text = clean(s.src, drop_tracing="keeptrace" not in opts,
                     keep_attrs=tuple(opts.get("keep", "derive,repr,default").split(",")))
        for w, a, body in block:
            if w in ("sub", "sub?"):
                text = self.do_sub(text, a, w == "sub?")
        self.emit(f"// ---- extracted file: {opts['file']}")
        self.emit(text)

    # ---- one function
    def do_fn(self, opts, block):
        s = self.src(opts["file"])
        it = s.find(opts["path"])
        f = FnText(clean(s.text(it)))
        # documented text-level steps
        f.text = expand_macro(f.text, "ensure", ensure_macro)
        f.reparse()
        if self.mode in ("verus", "vac"):
            f.text = expand_macro(f.text, "assert_eq", lambda a: f"assert!(({a[0]}) == ({a[1]}))")
            f.text = expand_macro(f.text, "assert_ne", lambda a: f"assert!(({a[0]}) != ({a[1]}))")
            f.reparse()
            f.text = verus_bytes(f.text)
            f.text, n = (f.text.replace("mut self", "&mut self", 1), 0) if opts.get("mutself") == "ref" and re.search(r"\(\s*mut self\b", f.text) else own_mut_self(f)
            if opts.get("mutself") == "ref":
                self.subs.append("`mut self` taken as `&mut self`, so that the contract can name the final state")
                f.reparse()
            if n:
                self.subs.append("`mut self` as a local copy `let mut vx_self = self`")
                f.reparse()
            f.text, n = loop_values(f.text)
            if n:
                self.subs.append(f"`let x = loop {{ break e }}` as an assignment before a plain break (x{n})")
            f.reparse()
        verus = self.mode in ("verus", "vac")
        is_trait_impl = "trait" in opts
        if is_trait_impl:
            f.no_pub()
        else:
            f.set_pub()
        if verus and opts.get("nested") == "drop":
            f.text = drop_nested(f)
            f.reparse()
            self.drops.add("items and `use` declared inside a function body (the nested functions are extracted and verified on their own)")
        helpers = self.resolve_helpers(s, it, f, verus)
        for w, a, body in block:
            if w in ("sub", "sub?"):
                f.text = self.do_sub(f.text, a, w == "sub?")
                f.reparse()
            elif w == "desugar" and verus:
                f.text, n = desugar(f.text, a)
                if n:
                    self.subs.append(f"{a} unfolded to its match (x{n})")
                f.reparse()
            elif w == "macro" and verus:
                # a macro call, its arguments dropped (an error's text)
                nm, rep = [x.strip() for x in a.split("=>")]
                f.text = expand_macro(f.text, nm, lambda _: rep)
                self.drops.add(f"the text of `{nm}!`")
                f.reparse()
            elif w == "hoist" and verus:
                f.text, n = hoist(f.text)
                if n:
                    self.subs.append(f"an early return of a loop as a flagged break (x{n})")
                f.reparse()
            elif w == "select":
                f.text, n = select(f.text, poll=not verus)
                if n and verus:
                    self.subs.append(f"select! as a free choice of one arm (x{n})")
                f.reparse()
            elif w == "spawned" and verus:
                f.text, n = spawned(f.text)
                if n:
                    self.subs.append(f"a spawned task as a call where it is spawned (x{n})")
                f.reparse()
            elif w == "chain" and verus:
                f.text, n = chains(f.text)
                if n:
                    self.subs.append(f"iterator chain unfolded to its loop (x{n})")
                f.reparse()
            elif w == "clos" and verus:
                f.text, n = annotate_closure(f.text, a, " ".join(x.strip() for x in body))
                f.reparse()
            elif w == "forvec" and verus:
                lp = f.loops()
                if int(a) >= len(lp) or lp[int(a)][1] is None:
                    raise LostAnchor(f"{opts['path']}: for loop {a} not found")
                _, it_, br_ = lp[int(a)]
                e0, e1 = f.toks[it_].e, f.toks[br_].s
                f.text = f.text[:e0] + " (" + f.text[e0:e1].strip() + ").vx_vec() " + f.text[e1:]
                f.reparse()
            elif w == "forwhile" and verus:
                # for PAT in EXPR { .. } over a Vec of Copy elements, as an index loop (allows `continue`)
                kw, it_, br_ = f.loops()[int(a)]
                if it_ is None:
                    raise LostAnchor(f"{opts['path']}: for loop {a} not found")
                t = f.toks
                pat = f.text[t[kw].e:t[it_].s].strip()
                ex = f.text[t[it_].e:t[br_].s].strip()
                rg = re.match(r"^([\w.]+)\s*\.\.\s*([\w.:]+)$", ex)
                if rg:
                    f.text = (f.text[:t[kw].s] + f"let mut vx_i{a} = {rg.group(1)};\nwhile vx_i{a} < {rg.group(2)} {{ let {pat} = vx_i{a}; vx_i{a} = vx_i{a} + 1;" + f.text[t[br_].e:])
                    self.subs.append(f"`for {pat} in a..b` as an index loop")
                    f.reparse()
                    continue
                f.text = (f.text[:t[kw].s] + f"let vx_v{a} = {ex}; let mut vx_i{a}: usize = 0;\nwhile vx_i{a} < vx_v{a}.len() {{ let {pat} = vx_v{a}[vx_i{a}]; vx_i{a} = vx_i{a} + 1;"
                          + f.text[t[br_].e:])
                self.subs.append(f"`for {pat} in ..` over a Vec as an index loop")
                f.reparse()
            elif w == "tail" and verus:
                f.text = bind_tail(f, a.strip(), "\n".join(body))
                f.reparse()
            elif w == "foot" and verus:
                # before the closing brace of a function without a tail expression
                f.text = f.text[:f.toks[f.it.body[1]].s] + "\n" + "\n".join(body) + "\n" + f.text[f.toks[f.it.body[1]].s:]
                f.reparse()
            elif w in ("vsub", "vsub?") and verus:
                f.text = self.do_sub(f.text, a, w == "vsub?")
                f.reparse()
            elif w in ("psub", "psub?") and not verus:
                f.text = self.do_sub(f.text, a, w == "psub?")
                f.reparse()
        if opts.get("async") == "drop":
            f.text = re.sub(r"\basync\s+", "", f.text)
            f.text = re.sub(r"\.\s*await\b", "", f.text)
            f.reparse()
            self.drops.add("async / .await (the function is verified as its sequential body)")
        if "rename" in opts:
            f.text = re.sub(r"\bfn\s+" + f.name + r"\b", "fn " + opts["rename"], f.text, count=1)
            f.reparse()
        name = opts["path"]
        contracted = any(w == "spec" for w, _, _ in block)
        reg = Region(name, opts["file"], contracted, False, 0)
        text = f.text
        if verus:
            if "ret" in opts:
                f.name_ret(opts["ret"])
            text = self.splice(f, block, reg)
        self.emit(f"// ---- extracted: {opts['file']} :: {opts['path']}")
        for w, a, body in block:
            if w == "attr" and verus:
                self.emit("\n".join(body))
        reg.lo = len(self.out) + 1
        self.emit(text.strip())
        reg.hi = len(self.out)
        self.regions.append(reg)
        for h in helpers:
            self.emit(h)

    def splice(self, f, block, reg):
        ed = Edits(f.text)
        loops = f.loops()
        vac = self.mode == "vac"
        b0, b1 = f.it.body
        head = ""
        annotated = set()
        for w, a, body in block:
            txt = "\n".join(body)
            if w == "spec":
                reg.has_req = "requires" in txt
                off = f.toks[b0].s
                ed.rep(off, off, "\n" + txt + "\n")
            elif w == "loop":
                p = a.split()
                n = int(p[0])
                po = dict(x.split("=", 1) for x in p[1:])
                if n >= len(loops):
                    raise LostAnchor(f"{reg.name}: loop {n} not found")
                kw, intok, br = loops[n]
                annotated.add(n)
                if "iter" in po:
                    if intok is None:
                        raise LostAnchor(f"{reg.name}: loop {n} is not a for loop")
                    off = f.toks[intok].e
                    ed.rep(off, off, f" {po['iter']}: ")
                off = f.toks[br].s
                ed.rep(off, off, "\n" + txt + "\n")
                if vac and "never" not in po:  # `never=1`: proved not to run
                    self.nprobe += 1
                    off = f.toks[br].e
                    ed.rep(off, off, f"\nproof {{ if vx_probe({self.nprobe}) {{ assert(false); /*probe {self.nprobe}*/ }} }}\n")
                    reg.probes.append(self.nprobe)
            elif w == "loopend":
                n = int(a)
                if n >= len(loops):
                    raise LostAnchor(f"{reg.name}: loop {n} not found")
                c = match_close(f.toks, loops[n][2])
                ed.rep(f.toks[c].s, f.toks[c].s, "\n" + txt + "\n")
            elif w == "loophead":
                n = int(a)
                if n >= len(loops):
                    raise LostAnchor(f"{reg.name}: loop {n} not found")
                off = f.toks[loops[n][2]].e
                ed.rep(off, off, "\n" + txt + "\n")
            elif w == "beforeloop":
                n = int(a)
                if n >= len(loops):
                    raise LostAnchor(f"{reg.name}: loop {n} not found")
                k = loops[n][0]
                if k >= 2 and f.toks[k - 1].t == ":" and f.toks[k - 2].k == "l":
                    k -= 2
                ed.rep(f.toks[k].s, f.toks[k].s, "\n" + txt + "\n")
            elif w == "afterloop":
                n = int(a)
                if n >= len(loops):
                    raise LostAnchor(f"{reg.name}: loop {n} not found")
                c = match_close(f.toks, loops[n][2])
                ed.rep(f.toks[c].e, f.toks[c].e, "\n" + txt + "\n")
            elif w == "head":
                head += "\n" + txt + "\n"
            elif w in ("before", "after", "before?", "after?"):
                m = re.match(r"/(.*)/$", a)
                mm = rx(m.group(1)).search(f.text, f.toks[b0].e)
                if not mm:
                    if w.endswith("?"):
                        continue
                    raise LostAnchor(f"{reg.name}: anchor /{m.group(1)}/ not found")
                off = mm.start() if w.startswith("before") else mm.end()
                if w.startswith("before"):
                    # at the start of the statement the anchor is in
                    q = len([t for t in f.toks if t.e <= off]) - 1
                    while q > b0 and f.toks[q].t not in (";", "{", "}", "=>", ",", "(", "["):
                        q = match_open_of(f.toks, q) - 1 if f.toks[q].t in (")", "]") else q - 1
                    if q >= b0 and f.toks[q].t in (";", "{", "}"):
                        off = f.toks[q].e
                ed.rep(off, off, "\n" + txt + "\n")
        if len(loops) != len(annotated) and reg.contracted:
            raise LostAnchor(f"{reg.name}: {len(loops)} loops in the source, {len(annotated)} with an invariant")
        reg.nloops = len(loops)
        if vac and reg.contracted:
            self.nprobe += 1
            head = f"\nproof {{ if vx_probe({self.nprobe}) {{ assert(false); /*probe {self.nprobe}*/ }} }}\n" + head
            reg.probes.append(self.nprobe)
        if head:
            off = f.toks[b0].e
            ed.rep(off, off, head)
        return ed.apply()

    # ---- helpers the current source calls but the template does not know
    def find_helper(self, s, it, form, name):
        cands = []
        for x in s.walk():
            if x.kind != "fn" or x.name != name:
                continue
            if form == "free" and x.parent is None:
                cands.append(x)
            elif form in ("self", "Self") and x.parent is not None and x.parent.kind == "impl" and it.parent is not None \
                    and x.parent.name.split(" for ")[-1] == it.parent.name.split(" for ")[-1]:
                cands.append(x)
            elif form == "free" and it.parent is not None and x.parent is it.parent:
                cands.append(x)
        return cands[0] if cands else None

    def resolve_helpers(self, s, it, f, verus):
        """verus: inline helper bodies; otherwise: pull the helper's text in beside the function"""
        emitted = []
        consts = {x.name: x for x in s.walk() if x.kind in ("const", "static")}
        for t in list(f.toks):
            if t.k == "i" and t.t in consts and t.t not in self.known and re.match(r"[A-Z][A-Z0-9_]*$", t.t):
                c = consts[t.t]
                self.known.add(t.t)
                self.pulled.append(t.t)
                txt = clean(s.text(c))
                if c.parent is None and it.parent is not None:
                    # cannot emit an item inside an impl: make it a block-local const
                    b = f.toks[f.it.body[0]].e
                    f.text = f.text[:b] + "\n" + re.sub(r"^\s*pub\s*(\([^)]*\))?", "", txt) + "\n" + f.text[b:]
                    self.known.discard(t.t)
                    f.reparse()
                else:
                    emitted.append(re.sub(r"^\s*pub\s*\(crate\)", "pub", txt) if verus else txt)
        done = set()
        for _ in range(20):
            todo = None
            for form, name, ti in f.calls():
                if name in self.known or (form, name) in done or name == f.name:
                    continue
                h = self.find_helper(s, it, form, name)
                if h is None:
                    continue
                todo = (form, name, ti, h)
                break
            if not todo:
                break
            form, name, ti, h = todo
            if verus:
                self.inline(s, f, form, ti, h)
                self.inlined.append(name)
            else:
                done.add((form, name))
                self.known.add(name)
                self.pulled.append(name)
                hf = FnText(expand_macro(clean(s.text(h)), "ensure", ensure_macro))
                hf.set_pub()
                more = self.resolve_helpers(s, h, hf, verus)
                if h.parent is None and it.parent is not None:
                    # a free helper of a method: file level, not inside the impl block
                    self.tail.append(hf.text)
                    self.tail.extend(more)
                else:
                    emitted.append(hf.text)
                    emitted.extend(more)
        return emitted

    def inline(self, s, f, form, ti, h):
        hf = FnText(expand_macro(clean(s.text(h)), "ensure", ensure_macro))
        b0, b1 = hf.it.body
        btoks = hf.toks[b0 + 1:b1]
        if any(t.k == "i" and t.t in ("return", "loop", "while", "for") for t in btoks) or any(t.t == "?" for t in btoks):
            raise LostAnchor(f"new helper `{hf.name}` without a contract (early return / loop, not inlinable)")
        if "async" in [t.t for t in hf.toks[:b0]]:
            raise LostAnchor(f"new async helper `{hf.name}` without a contract")
        params = hf.param_list()
        op = ti + 1
        cl = match_close(f.toks, op)
        args = split_args(f.text, f.toks, op + 1, cl)
        start = f.toks[ti].s if form == "free" else f.toks[ti - 2].s
        lets = []
        ps = [p for p in params if not re.match(r"^(&\s*('\w+\s+)?)?(mut\s+)?self$", p.strip())]
        if form == "Self" and len(ps) != len(params):
            raise LostAnchor(f"new helper `{hf.name}` called as Self::.. with a receiver")
        if len(ps) != len(args):
            raise LostAnchor(f"new helper `{hf.name}`: argument count")
        gen = "<" == hf.toks[[k for k, t in enumerate(hf.toks) if t.t == "fn"][0] + 2].t
        for k, a in enumerate(args):
            lets.append(f"let vx_h{k} = {a};")
        for k, p in enumerate(ps):
            pat, ty = p.split(":", 1)
            ann = "" if gen or "impl" in ty.split() else f": {ty.strip()}"
            lets.append(f"let {pat.strip()}{ann} = vx_h{k};")
        body = hf.text[hf.toks[b0].e:hf.toks[b1].s]
        new = "({ " + " ".join(lets) + " " + body.strip() + " })"
        f.text = f.text[:start] + new + f.text[f.toks[cl].e:]
        f.reparse()


PROBE_DECL = "verus! { pub uninterp spec fn vx_probe(k: int) -> bool; }\n"
