"""Mechanical rewrites of std combinator calls into the expressions std documents them as, and closure annotation.

    //@desugar opt.map_or_else      receiver.map_or_else(|| A, |p| B)  ->  (match receiver { Some(p) => B, None => A })
    //@clos any.0 &T -> (b: bool)   the closure argument of the 0-th `.any(` gets a type, a result name and the spec lines
"""
import re

from rustsrc import LostAnchor, lex, match_close, match_open_of

CTRL = {"return", "break", "continue"}


def receiver_start(toks, dot):
    """index of the first token of the postfix expression that ends before the '.' at toks[dot]"""
    i = dot - 1
    while True:
        t = toks[i]
        if t.t == "?":
            i -= 1
            continue
        if t.t in (")", "]"):
            i = match_open_of(toks, i) - 1
            # a call / index: what is before it belongs to the expression
            if toks[i].k == "i" and toks[i].t not in ("match", "if", "return", "in", "let", "else", "=", "mut", "move"):
                continue
            if toks[i].t in (")", "]", "?"):
                continue
            if toks[i].t == ">":        # turbofish, or a comparison before a parenthesis
                d, gt = 0, i
                while i >= 0:
                    if toks[i].t == ">":
                        d += 1
                    elif toks[i].t == ">>":
                        d += 2
                    elif toks[i].t == "<":
                        d -= 1
                        if d == 0:
                            break
                    i -= 1
                i -= 1          # '::'
                if i < 0 or toks[i].t != "::":
                    return gt + 1
                i -= 1
                continue
            return i + 1
        if t.t == "}":
            # a block / struct literal / match expression: find its head
            i = match_open_of(toks, i)
            raise LostAnchor("receiver ends in a block")
        if t.k == "i" or t.k in ("n", "s", "l"):
            if i - 1 >= 0 and toks[i - 1].t in (".", "::"):
                i -= 2
                continue
            if toks[i - 1].t == "!" and toks[i - 2].k == "i":
                i -= 2
                continue
            return i
        return i + 1


def parse_args(text, toks, op):
    """arguments of the call whose '(' is toks[op] -> ([(kind, params_text, body_text, s, e)], close)"""
    cl = match_close(toks, op)
    out = []
    i = op + 1
    while i < cl:
        s = i
        if toks[i].t == "move":
            i += 1
        params = None
        if toks[i].t == "||":
            params = ""
            i += 1
        elif toks[i].t == "|":
            j = i + 1
            while toks[j].t != "|":
                if toks[j].t in ("(", "[", "{"):
                    j = match_close(toks, j)
                j += 1
            params = text[toks[i].e:toks[j].s].strip()
            i = j + 1
        b = i
        if params is not None and toks[i].t == "->":
            while toks[b].t != "{":
                b += 1
            i = b
        while i < cl and toks[i].t != ",":
            if toks[i].t in ("(", "[", "{"):
                i = match_close(toks, i)
            elif toks[i].t == "::" and toks[i + 1].t == "<":
                d = 0
                i += 1
                while True:
                    if toks[i].t == "<":
                        d += 1
                    elif toks[i].t == ">":
                        d -= 1
                    elif toks[i].t == ">>":
                        d -= 2
                    if d <= 0:
                        break
                    i += 1
            i += 1
        body = text[toks[b].s:toks[i - 1].e].strip()
        out.append(("clos" if params is not None else "expr", params, body, toks[s].s, toks[i - 1].e))
        i += 1
    return out, cl


def has_ctrl(body):
    d = 0
    for t in lex(body):
        if t.t in ("return", "?"):
            return True
    return False


def unreturn(body):
    """`{ S; if C { A; return E; } REST }` as `{ S; if C { A; E } else { REST } }`"""
    toks = lex(body)
    if not toks or toks[0].t != "{" or not any(t.t == "return" for t in toks) or match_close(toks, 0) != len(toks) - 1:
        return body
    i = 1
    while i < len(toks) - 1:
        if toks[i].t == "if" and toks[i - 1].t in ("{", ";", "}"):
            o = i + 1
            while toks[o].t != "{":
                o = match_close(toks, o) + 1 if toks[o].t in ("(", "[") else o + 1
            c = match_close(toks, o)
            if toks[c + 1].t == "else":
                return body
            k = o + 1
            ret = None
            while k < c:
                if toks[k].t == "return" and toks[k - 1].t in ("{", ";", "}"):
                    ret = k
                    break
                k = match_close(toks, k) + 1 if toks[k].t in ("(", "[", "{") else k + 1
            if ret is not None:
                e = c - 1
                expr = body[toks[ret].e:toks[e].s if toks[e].t == ";" else toks[e].e].strip()
                rest = body[toks[c].e:toks[-1].s].strip()
                return body[:toks[ret].s] + expr + " } else " + unreturn("{ " + rest + " }") + " }"
            i = c + 1
            continue
        i = match_close(toks, i) + 1 if toks[i].t in ("(", "[", "{") else i + 1
    return body


def app(arg, val, ask=False):
    """apply a closure literal / function path to the expression text `val` -> (pattern, body)"""
    kind, params, body, _, _ = arg
    if kind == "clos":
        body = unreturn(body)
        if has_ctrl(body) and not (ask and not any(t.t == "return" for t in lex(body))):
            raise LostAnchor("closure with control flow")
        p = params
        m = re.match(r"^((?:mut\s+)?\w+)\s*:", p)
        if m:
            p = m.group(1)
        return p or "()", body
    return "vx_d", f"({body})(vx_d)"


def thunk(arg):
    kind, params, body, _, _ = arg
    if kind == "clos":
        if has_ctrl(body):
            raise LostAnchor("closure with control flow")
        return body
    return f"({body})()"


def rewrite(kind, meth, recv, a):
    K = f"{kind}.{meth}"
    if K == "opt.map":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Some({p}) => Some({b}), None => None }})"
    if K == "opt.map_or":
        p, b = app(a[1], "")
        return f"(match {recv} {{ Some({p}) => {{ {b} }} None => {{ {a[0][2]} }} }})"
    if K == "opt.map_or_else":
        p, b = app(a[1], "")
        return f"(match {recv} {{ Some({p}) => {{ {b} }} None => {{ {thunk(a[0])} }} }})"
    if K == "opt.and_then":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Some({p}) => {{ {b} }} None => None }})"
    if K == "opt.or_else":
        return f"(match {recv} {{ Some(vx_d) => Some(vx_d), None => {{ {thunk(a[0])} }} }})"
    if K == "opt.unwrap_or_else":
        return f"(match {recv} {{ Some(vx_d) => vx_d, None => {{ {thunk(a[0])} }} }})"
    if K == "opt.unwrap_or":
        return f"(match {recv} {{ Some(vx_d) => vx_d, None => {{ {a[0][2]} }} }})"
    if K == "opt.ok_or_else":
        return f"(match {recv} {{ Some(vx_d) => Ok(vx_d), None => Err({thunk(a[0])}) }})"
    if K == "opt.ok_or":
        return f"(match {recv} {{ Some(vx_d) => Ok(vx_d), None => Err({a[0][2]}) }})"
    if K == "opt.is_some_and":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Some({p}) => {{ {b} }} None => false }})"
    if K == "opt.is_none_or":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Some({p}) => {{ {b} }} None => true }})"
    if K == "opt.filter":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Some(vx_v) => {{ let {p} = &vx_v; if {b} {{ Some(vx_v) }} else {{ None }} }} None => None }})"
    if K == "opt.flatten":
        return f"(match {recv} {{ Some(vx_v) => vx_v, None => None }})"
    if K == "res.map":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Ok({p}) => Ok({b}), Err(vx_e) => Err(vx_e) }})"
    if K == "res.map_err":
        p, b = app(a[0], "")
        if p == "vx_d" and b.startswith("("):
            return f"(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err(vx_d) => Err({a[0][2]}(vx_d)) }})"
        return f"(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({p}) => Err({b}) }})"
    if K == "res.and_then":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Ok({p}) => {{ {b} }} Err(vx_e) => Err(vx_e) }})"
    if K == "res.or_else":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({p}) => {{ {b} }} }})"
    if K == "res.ok":
        return f"(match {recv} {{ Ok(vx_v) => Some(vx_v), Err(_) => None }})"
    if K == "res.unwrap_or_else":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Ok(vx_v) => vx_v, Err({p}) => {{ {b} }} }})"
    if K == "res.unwrap_or":
        return f"(match {recv} {{ Ok(vx_v) => vx_v, Err(_) => {{ {a[0][2]} }} }})"
    if K == "bool.then_some":
        return f"(if {recv} {{ Some({a[0][2]}) }} else {{ None }})"
    if K == "bool.then":
        return f"(if {recv} {{ Some({thunk(a[0])}) }} else {{ None }})"
    if K == "vec.retain":
        p, b = app(a[0], "")
        return f"{{ let mut vx_keep = Vec::new(); for vx_e in {recv}.vx_drain() {{ let vx_k = {{ let {p} = &vx_e; {b} }}; if vx_k {{ vx_keep.push(vx_e); }} }} {recv}.vx_put(vx_keep); }}"
    if K == "res.is_ok_and":
        p, b = app(a[0], "")
        return f"(match {recv} {{ Ok({p}) => {{ {b} }} Err(_) => false }})"
    raise SystemExit(f"template: unknown desugar {K}")


def fold_loop(meth, recv, a, q):
    """`it.try_fold(A, |acc, P| B)` and `it.try_for_each(|P| B)` as the loop std documents"""
    c = a[-1]
    if c[0] != "clos" or any(t.t == "return" for t in lex(unreturn(c[2]))):
        raise LostAnchor(f"{meth}: not a closure without return")
    ps = split_params(c[1])
    body = unreturn(c[2])
    if meth == "try_for_each" and len(ps) == 1:
        lp = f"for {ps[0]} in {recv} {{ ({body})?; }}"
        return f"({{ {lp} }})" if q else f"{lp} Ok(())"
    if meth == "try_fold" and len(ps) == 2 and len(a) == 2:
        lp = f"let mut vx_acc = {a[0][2]}; for {ps[1]} in {recv} {{ let {ps[0]} = vx_acc; vx_acc = ({body})?; }}"
        return f"({{ {lp} vx_acc }})" if q else f"{lp} Ok(vx_acc)"
    raise LostAnchor(f"{meth}: unexpected arguments")


def desugar(text, arg):
    """arg: `opt.map_or_else [/receiver regex/]`; every (matching) occurrence, innermost first; none is fine"""
    m = re.match(r"(\w+)\.(\w+)(?:\s+/(.*)/)?\s*$", arg)
    if not m:
        raise SystemExit(f"template: bad desugar {arg}")
    kind, meth, pat = m.groups()
    n = 0
    for _ in range(60):
        toks = lex(text)
        hit = None
        for i in range(1, len(toks) - 1):
            if toks[i].t == meth and toks[i - 1].t == "." and toks[i + 1].t == "(":
                rs = receiver_start(toks, i - 1)
                recv = text[toks[rs].s:toks[i - 2].e]
                if pat and not re.search(pat, recv, re.S):
                    continue
                hit = (i, rs, recv)
        if not hit:
            return text, n
        i, rs, recv = hit
        args, cl = parse_args(text, toks, i + 1)
        if kind == "iter":
            # a fold that stops at the first error, whose error leaves the function (`?` or the last expression)
            q = toks[cl + 1].t == "?"
            tail = toks[cl + 1].t == "}" and cl + 2 == len(toks)
            if not (q or tail):
                raise LostAnchor(f"{meth}: its result is kept")
            new = fold_loop(meth, recv, args, q)
            text = text[:toks[rs].s] + new + text[toks[cl + 1].e if q else toks[cl].e:]
            n += 1
            continue
        new = rewrite(kind, meth, recv, args)
        text = text[:toks[rs].s] + new + text[toks[cl].e:]
        n += 1
    raise LostAnchor(f"desugar {arg}: too many occurrences")


def annotate_closure(text, arg, spec):
    """arg: `METHOD.N TYPES -> (r: T)`; spec lines may use $0, $1.. for the closure's parameters"""
    m = re.match(r"(\w+)\.(\d+)(\??)\s+(.*?)\s*->\s*(\(.*\))\s*$", arg)
    if not m:
        raise SystemExit(f"template: bad clos {arg}")
    meth, n, opt, types, ret = m.group(1), int(m.group(2)), m.group(3), m.group(4), m.group(5)
    types = [t.strip() for t in types.split(" ; ")]
    toks = lex(text)
    k = 0
    for i in range(1, len(toks) - 1):
        if toks[i].t != meth or toks[i - 1].t not in (".", "::"):
            continue
        op = i + 1
        if toks[op].t == "::":      # turbofish
            while toks[op].t != "(":
                op += 1
        if toks[op].t != "(":
            continue
        if k < n:
            k += 1
            continue
        args, _ = parse_args(text, toks, op)
        cs = [a for a in args if a[0] == "clos"]
        if len(cs) != 1:
            raise LostAnchor(f"closure of .{meth}( #{n} not found")
        _, params, body, s, e = cs[0]
        ps = split_params(params)
        if len(ps) != len(types):
            raise LostAnchor(f"closure of .{meth}( #{n}: {len(ps)} parameters")
        hdr, lets = [], []
        sp = spec
        for q, (p, ty) in enumerate(zip(ps, types)):
            p = re.sub(r"\s*:.*$", "", p, flags=re.S) if re.match(r"^\w+\s*:", p) else p
            if re.match(r"^\w+$", p) and p != "_":
                nm = p
            else:
                nm = f"vx_c{q}"
                pat = p.strip()
                while pat.startswith("&"):
                    pat = pat[1:].strip()
                    nm_e = f"*{nm}"
                    lets.append(f"let {pat} = {nm_e};")
                    pat = None
                    break
                if pat is not None and pat != "_":
                    lets.append(f"let {pat} = {nm};")
            hdr.append(f"{nm}: {ty}")
            sp = re.sub(r"\$" + str(q), nm, sp)
        new = f"|{', '.join(hdr)}| -> {ret} {sp} {{ {' '.join(lets)} {body} }}"
        return text[:s] + new + text[e:], 1
    if opt:
        return text, 0
    raise LostAnchor(f"closure of .{meth}( #{n} not found")


def loop_values(text):
    """`let P = loop { .. break E .. };`  ->  `let vx_lN; loop { .. { vx_lN = E; break; } .. } let P = vx_lN;`"""
    total = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(len(toks) - 1):
            if toks[i].t == "loop" and toks[i + 1].t == "{" and toks[i - 1].t == "=" :
                c = match_close(toks, i + 1)
                j = i - 1
                while j >= 0 and toks[j].t != "let":
                    j -= 1
                if j < 0 or toks[c + 1].t != ";":
                    continue
                hit = (i, c, j)
                break
        if hit is None:
            return text, total
        i, c, j = hit
        name = f"vx_l{total}"
        pat = text[toks[j].e:toks[i - 1].s].strip()
        ty = ""
        m = re.match(r"^((?:mut\s+)?\w+)\s*(:.*)$", pat, re.S)
        if m:
            ty = m.group(2)
        ed = []
        k = i + 2
        while k < c:
            if toks[k].t in ("loop", "while", "for") and toks[k - 1].k != "l":
                q = k
                while toks[q].t != "{":
                    q = match_close(toks, q) if toks[q].t in ("(", "[") else q
                    q += 1
                k = match_close(toks, q) + 1
                continue
            if toks[k].t == "break" and toks[k + 1].t not in (";", "}", ","):
                q = k + 1
                while toks[q].t not in (";", "}", ","):
                    if toks[q].t in ("(", "[", "{"):
                        q = match_close(toks, q)
                    q += 1
                bn = text[toks[k + 1].s:toks[q - 1].e]
                mt = re.search(r"\blet\s+(?:mut\s+)?" + re.escape(bn) + r"\s*:([^=]*)=", text[toks[i].s:toks[c].e]) if not ty else None
                if mt:
                    ty = ": " + mt.group(1).strip()
                ed.append((toks[k].s, toks[q - 1].e, "{ " + name + " = " + text[toks[k + 1].s:toks[q - 1].e] + "; break; }"))
                k = q
                continue
            k += 1
        ed.append((toks[j].s, toks[i].s, f"let {name}{ty}; "))
        ed.append((toks[c].e, toks[c + 1].e, f" let {pat} = {name};"))
        for a, b, new in sorted(ed, reverse=True):
            text = text[:a] + new + text[b:]
        total += 1


def hoist(text):
    """`for P in E { S if C { B return R; } }`  ->  `let mut vx_hN = false; for P in E { S if C { vx_hN = true; break; } } if vx_hN { B return R; }`
    when the block uses no variable of the loop (rustc checks that: it would not be in scope)"""
    total = 0
    k = 0
    while True:
        toks = lex(text)
        if k >= len(toks) - 1:
            return text, total
        if toks[k].t != "for" or toks[k - 1].t not in ("{", ";", "}"):
            k += 1
            continue
        o = k
        while toks[o].t != "{":
            o = match_close(toks, o) + 1 if toks[o].t in ("(", "[") else o + 1
        c = match_close(toks, o)
        k += 1
        if toks[c - 1].t != "}":
            continue
        b = match_open_of(toks, c - 1)
        i, q = o + 1, None
        while i < b:
            if toks[i].t == "if" and toks[i - 1].t in ("{", ";", "}"):
                q = i
            if toks[i].t in ("break", "continue"):
                q = None
                break
            i = match_close(toks, i) + 1 if toks[i].t in ("(", "[", "{") else i + 1
        if q is None or any(t.t in ("else", ";", "for", "while", "loop", "match") for t in toks[q:b]):
            continue
        r = c - 2
        while r > b and not (toks[r].t == "return" and toks[r - 1].t in ("{", ";", "}")):
            r -= 1
        if r <= b or any(t.t in ("break", "continue") for t in toks[b:c]):
            continue
        h = f"vx_h{total}"
        blk = text[toks[b].s:toks[c - 1].e]
        text = text[:toks[k - 1].s] + f"let mut {h} = false; " + text[toks[k - 1].s:toks[b].s] + "{ " + h + " = true; break; } } if " + h + " " + blk + text[toks[c].e:]
        total += 1
        k += 8


def select(text, poll=False):
    """`tokio::select! { P = E => B .. }`  ->  `match vx_pick(N)[.await] { 0 => { if let P = E.await { B } } .. }`: one arm at a
    time, the choice left open; an arm whose pattern does not match does nothing.
    `poll` (native): every arm's future is polled, in an order the driver gives (`vx_order(N)`), until one is ready"""
    total = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(len(toks) - 2):
            if toks[i].t == "select" and toks[i + 1].t == "!" and toks[i + 2].t == "{":
                hit = i
                break
        if hit is None:
            return text, total
        s0 = hit
        while s0 >= 2 and toks[s0 - 1].t == "::":
            s0 -= 2
        o, c = hit + 2, match_close(toks, hit + 2)
        i = o + 1
        if toks[i].t == "biased" and toks[i + 1].t == ";":
            i += 2
        arms = []
        while i < c:
            if toks[i].t == "else":
                raise LostAnchor("select! with an else arm")
            a = i
            while toks[i].t != "=":
                i = match_close(toks, i) + 1 if toks[i].t in ("(", "[", "{") else i + 1
            pat = text[toks[a].s:toks[i - 1].e]
            e = i + 1
            i = e
            while toks[i].t != "=>":
                if toks[i].t == ",":
                    raise LostAnchor("select! arm with a condition")
                i = match_close(toks, i) + 1 if toks[i].t in ("(", "[", "{") else i + 1
            ex = text[toks[e].s:toks[i - 1].e]
            b = i + 1
            if toks[b].t == "{":
                i = match_close(toks, b) + 1
                body = text[toks[b].s:toks[i - 1].e]
            else:
                i = b
                while i < c and toks[i].t != ",":
                    i = match_close(toks, i) + 1 if toks[i].t in ("(", "[", "{") else i + 1
                body = "{ " + text[toks[b].s:toks[i - 1].e] + " }"
            if i < c and toks[i].t == ",":
                i += 1
            arms.append((pat, ex, body))
        if poll:
            n = len(arms)
            new = "{ " + " ".join(f"let mut vx_o{q} = None;" for q in range(n)) + " let vx_w = { "
            new += " ".join(f"let mut vx_f{q} = ::std::pin::pin!({ex});" for q, (_, ex, _) in enumerate(arms))
            new += f" ::std::future::poll_fn(|vx_c| {{ for vx_i in vx_order({n}) {{ match vx_i {{ "
            for q in range(n):
                new += (f"{q} => if let ::std::task::Poll::Ready(v) = ::std::future::Future::poll(vx_f{q}.as_mut(), vx_c) "
                        f"{{ vx_o{q} = Some(v); return ::std::task::Poll::Ready({q}usize); }} ")
            new += "_ => {} } } ::std::task::Poll::Pending }).await }; match vx_w { "
            for q, (pat, ex, body) in enumerate(arms):
                new += f"{q} => {{ if let Some({pat}) = vx_o{q} {body} }} "
            new += "_ => {} } }"
            text = text[:toks[s0].s] + new + text[toks[c].e:]
            total += 1
            continue
        new = f"match vx_pick({len(arms)}).await {{ "
        for q, (pat, ex, body) in enumerate(arms):
            if re.match(r"^(_|mut \w+|[a-z_]\w*)$", pat):
                new += f"{q} => {{ let {pat} = ({ex}).await; {body} }} "
            else:
                new += f"{q} => {{ if let {pat} = ({ex}).await {body} }} "
        new += "_ => {} }"
        text = text[:toks[s0].s] + new + text[toks[c].e:]
        total += 1


def spawned(text):
    """`X.spawn_task(NAME, async move { B })`  ->  `vx_spawned({ B })`: the task as a call at the place where it is spawned"""
    total = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(2, len(toks) - 2):
            if toks[i].t in ("spawn_task", "spawn_critical_task") and toks[i - 1].t == "." and toks[i + 1].t == "(":
                hit = i
                break
        if hit is None:
            return text, total
        rs = receiver_start(toks, hit - 1)
        cl = match_close(toks, hit + 1)
        b = hit + 2
        while b < cl and not (toks[b].t == "async" and toks[b + 1].t in ("move", "{")):
            b += 1
        if b >= cl:
            raise LostAnchor("spawned task is not an async block")
        b += 2 if toks[b + 1].t == "move" else 1
        e = match_close(toks, b)
        text = text[:toks[rs].s] + f"vx_spawned({text[toks[b].s:toks[e].e]})" + text[toks[cl].e:]
        total += 1


def split_params(p):
    out, d, cur = [], 0, ""
    for c in p:
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


ADAPT = {"map", "filter", "filter_map"}


def chains(text):
    """ITER.map(..).filter(..).filter_map(..).collect()  ->  { let mut v = Vec::new(); for x in ITER { .. v.push(y); } v }
    and ITER...for_each(f)  ->  for x in ITER { .. f(y); }      (std's documented meaning of the adaptors)"""
    total = 0
    while True:
        toks = lex(text)
        hit = None
        for i in range(1, len(toks) - 1):
            if toks[i].t in ("collect", "for_each") and toks[i - 1].t == "." and toks[i + 1].t in ("(", "::"):
                op = i + 1
                if toks[op].t == "::":
                    while toks[op].t != "(":
                        op += 1
                cl = match_close(toks, op)
                # adaptors, outermost first
                links = []
                dot = i - 1
                ok = True
                while True:
                    k = dot - 1
                    if toks[k].t != ")":
                        break
                    o = match_open_of(toks, k)
                    if toks[o - 1].t in ADAPT and toks[o - 2].t == ".":
                        args, _ = parse_args(text, toks, o)
                        links.append((toks[o - 1].t, args))
                        dot = o - 2
                        continue
                    break
                rs = receiver_start(toks, dot)
                base = text[toks[rs].s:toks[dot - 1].e]
                if toks[i].t == "collect" and not links:
                    continue
                # `collect::<Result<Vec<_>, E>>()?`: the first error leaves the function
                res = None
                if toks[i].t == "collect" and op > i + 1 and cl + 1 < len(toks) and toks[cl + 1].t == "?":
                    m = re.match(r"::\s*<\s*(\w*Result)\s*<\s*Vec\s*<.*>\s*(,[^<>]*)?>\s*>$", text[toks[i + 1].s:toks[op - 1].e], re.S)
                    if m and links and links[0][0] == "map":
                        res = f"{m.group(1)}<_{m.group(2) or ''}>"
                hit = (i, op, cl, rs, base, links, res)
                break
        if hit is None:
            return text, total
        i, op, cl, rs, base, links, res = hit
        links.reverse()
        n = f"{total}"
        cur = f"vx_x{n}"
        pre, post = "", ""
        for q, (meth, args) in enumerate(links):
            p, b = app(args[0], "", res is not None and q == len(links) - 1)
            if p == "vx_d" and args[0][0] != "clos":
                b = f"({args[0][2]})(vx_d)"
            nxt = f"vx_y{n}_{q}"
            if meth == "map":
                ty = f": {res}" if res and q == len(links) - 1 else ""
                pre += f"let {nxt}{ty} = {{ let {p} = {cur}; {b} }}; "
                cur = nxt + ("?" if ty else "")
            elif meth == "filter_map":
                pre += f"let vx_o{n}_{q} = {{ let {p} = {cur}; {b} }}; if let Some({nxt}) = vx_o{n}_{q} {{ "
                post += "} "
                cur = nxt
            else:
                pre += f"let vx_b{n}_{q} = {{ let {p} = &{cur}; {b} }}; if vx_b{n}_{q} {{ "
                post += "} "
        if res is not None:
            cl += 1
        if toks[i].t == "collect":
            new = f"{{ let mut vx_col{n} = Vec::new(); for vx_x{n} in {base} {{ {pre}vx_col{n}.push({cur}); {post}}} vx_col{n} }}"
        else:
            args, _ = parse_args(text, toks, op)
            if args[0][0] == "clos":
                p, b = app(args[0], "")
                call = f"let {p} = {cur}; {b};"
            else:
                call = f"{args[0][2]}({cur});"
            new = f"for vx_x{n} in {base} {{ {pre}{call} {post}}}"
            if toks[cl + 1].t == ";":
                cl += 1
        text = text[:toks[rs].s] + new + text[toks[cl].e:]
        total += 1
