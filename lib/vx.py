"""Mechanical extraction of functions from /repo into Verus, and the run of Verus on them.

A contract template (specs/*.rs) is Verus source with directives:

  //@include FILE
  //@fn CRATE | PATH          copy a function; sections until //@end
  //@impl CRATE | PATH        copy an impl block
  //@use CRATE | PATH         copy an item verbatim (struct, const, enum ...)
  sections inside //@fn and //@impl:
  //@as NAME                  emit the function under another name
  //@header TEXT              emit the impl/fn under another header (impl only)
  //@free SELFTYPE<GENERICS>  turn a method into a free function (self -> self_)
  //@only A, B / //@skip A, B methods of an impl
  //@sub RE => TEXT           a textual rewrite, counted and reported
  //@hoisted                  items declared inside the body are extracted separately: drop them here
  //@trait CRATE | PATH       (impl) also the methods the impl inherits from the trait's provided bodies
  //@freefill TYPE            (with //@trait) discharge those as free functions over TYPE, with //@freespec
  //@elsewhere A, B           methods discharged by a separate //@fn (the verifier sees a cycle)
  //@ghost                    text put at the start of an impl
  //@spec [METHOD]            contract of the function (or of METHOD in an impl)
  //@loop N [METHOD]          invariant text for the N-th loop
  //@loophead N [METHOD]      proof text at the start of that loop's body
  //@looptail N [METHOD]      proof text at the end of that loop's body
  //@head [METHOD]            proof text at the start of the body
  //@closure N [METHOD]       contract of the outermost closures with N parameters: the first line gives
                              their types and the result, "T1; T2 -> (q: R)", the rest requires and ensures
                              with $1, $2 for the parameters' names; after a line "---", proof text
                              (sections separated by "===" take turns)
  //@inner N [METHOD]         the same for the closures inside those
  //@inline F => PRELUDE      a call F(a, |p| body) becomes { PRELUDE body }, with $p, $a1, and $1 for F's groups
  //@literals                 reveal the text of every string literal in the body (calls lit_bytes)
  //@static CRATE | PATH      copy a static; its //@spec becomes the static's postcondition
  //@generic NAME             the method's first type parameter is spelled NAME (as in the trait's contract)
  //@end

Paths are matched against `rsx` item paths, layout-insensitively; a path that
starts with ~ is a regular expression.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsx

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))

# crate name -> (manifest, package, features)
CRATES = {
    "sval": ("Cargo.toml", "sval", "std"),
    "sval_json": ("json/Cargo.toml", "sval_json", "std"),
    "sval_buffer": ("buffer/Cargo.toml", "sval_buffer", "std"),
    # the same crates without an allocator: "-" turns the default features off (and the panic
    # that debug builds raise at a failed allocation, as its documented feature does)
    "sval_noalloc": ("Cargo.toml", "sval", "-"),
    "sval_buffer_noalloc": ("buffer/Cargo.toml", "sval_buffer", "-no_debug_assertions"),
    "sval_nested_noalloc": ("nested/Cargo.toml", "sval_nested", "-no_debug_assertions"),
    "sval_ref": ("ref/Cargo.toml", "sval_ref", "std"),
    "sval_dynamic": ("dynamic/Cargo.toml", "sval_dynamic", ""),
    "sval_fmt": ("fmt/Cargo.toml", "sval_fmt", "std"),
    "sval_serde": ("serde/Cargo.toml", "sval_serde", "std"),
    "sval_nested": ("nested/Cargo.toml", "sval_nested", "std"),
    "sval_flatten": ("flatten/Cargo.toml", "sval_flatten", "std"),
    "sval_derive_macros": ("derive_macros/Cargo.toml", "sval_derive_macros", ""),
    "derived": (None, "derive_types", ""),
}


class Undecided(Exception):
    """The code left what the extraction understands: no verdict, never an alarm."""


_cache = {}
_counter = [0]


def _catalogue_manifest():
    """The crate of derived types: it belongs to /verif, the macro it runs to /repo."""
    home = os.path.join(ROOT, "derive_types")
    if REPO == "/repo":
        return os.path.join(home, "Cargo.toml")
    copy = os.path.join(BUILD, "derive_types")
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(home, copy, ignore=shutil.ignore_patterns("target"))
    path = os.path.join(copy, "Cargo.toml")
    text = open(path).read().replace('"/repo', f'"{REPO}')
    open(path, "w").write(text)
    return path


def expand(crate):
    """The macro-expanded source of a crate in /repo's working tree, parsed."""
    if crate in _cache:
        return _cache[crate]
    manifest, package, features = CRATES[crate]
    _counter[0] += 1
    nonce = f"vx_{os.getpid()}_{time.time_ns()}_{_counter[0]}"
    path = os.path.join(REPO, manifest) if manifest else _catalogue_manifest()
    cmd = ["cargo", "+nightly", "rustc", "--offline", "--manifest-path", path,
           "-p", package, "--lib", "--target-dir", os.path.join(BUILD, "expand")]
    if features.startswith("-"):
        cmd += ["--no-default-features"]
    if features.strip("-"):
        cmd += ["--features", features.strip("-")]
    cmd += ["--", "-Zunpretty=expanded", "--cfg", nonce, "-Awarnings"]
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    p = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=600)
    if p.returncode != 0 or not p.stdout.strip():
        raise Undecided(f"cannot expand {crate}: {p.stderr[-1500:]}")
    try:
        root = rsx.parse(p.stdout)
    except rsx.ReadError as e:
        raise Undecided(f"cannot read the expansion of {crate}: {e}")
    _cache[crate] = root
    return root


def _key(path):
    return re.sub(r"\s+", "", path)


def _normalise_impl_spelling(path):
    return re.sub(r",\s*(?=[>)}])", "", path)


def find(crate, path):
    root = expand(crate)
    hits = []
    if path.startswith("~"):
        rx = re.compile(path[1:])
        hits = [i for i in rsx.walk(root) if rx.fullmatch(i.path)]
    else:
        want = _key(_normalise_impl_spelling(path))
        hits = [i for i in rsx.walk(root) if _key(_normalise_impl_spelling(i.path)) == want]
        if not hits:
            # functions nested in function bodies
            hits = _find_nested(root, path)
    if len(hits) != 1:
        raise Undecided(f"{crate} | {path}: {len(hits)} items match")
    return hits[0]


def _find_nested(root, path):
    """`a::f::{body}::{impl ..}::g` looks inside the body of f."""
    if "::{body}::" not in path:
        return []
    outer, inner = path.split("::{body}::", 1)
    outs = [i for i in rsx.walk(root) if i.kind == "fn" and i.body and _key(i.path) == _key(outer)]
    res = []
    for o in outs:
        sub = rsx.parse(o.body_text_items())
        res += [i for i in rsx.walk(sub) if _key(_normalise_impl_spelling(i.path)) == _key(_normalise_impl_spelling(inner))]
    return res


def _body_text_items(self):
    """The items (struct/impl/fn/const) at the start of a body, as text."""
    toks, (lo, hi) = self.toks, self.body
    out, i = [], lo
    while i < hi:
        j = rsx._skip_attrs(toks, i, hi)
        if j < hi and toks[j].text in ("struct", "impl", "fn", "enum", "const", "unsafe", "pub"):
            b = rsx._find_body(toks, j, hi)
            if b is None:
                break
            end = toks[b].match + 1 if toks[b].text == "{" else b + 1
            out.append(rsx.render(self.src, toks, j, end))
            i = end
        else:
            # skip a statement
            k = j
            while k < hi and toks[k].text != ";":
                k = toks[k].match + 1 if toks[k].text in rsx.OPEN else k + 1
            i = k + 1
    return "\n".join(out)


rsx.Item.body_text_items = _body_text_items


# --------------------------------------------------------------------------
# templates


class Directive:
    def __init__(self, kind, crate, path, line):
        self.kind, self.crate, self.path, self.line = kind, crate, path, line
        self.opts = {}
        self.subs = []
        self.inlines = []
        self.sections = {}  # (section, n, method) -> text


def read_template(name, seen=None):
    """Yield text chunks and Directives."""
    path = os.path.join(ROOT, "specs", name)
    out, cur, sect = [], None, None
    for no, line in enumerate(open(path).read().split("\n"), 1):
        m = re.match(r"\s*//@(\w+)\s*(.*)$", line)
        if not m:
            if cur is None:
                out.append(line)
            elif sect is not None:
                cur.sections[sect] = cur.sections.get(sect, "") + line + "\n"
            elif line.strip():
                raise SystemExit(f"{name}:{no}: text outside a section")
            continue
        word, rest = m.group(1), m.group(2).strip()
        if word == "include":
            parts = rest.split()
            inc = read_template(parts[0])
            if len(parts) > 1 and parts[1] == "stub":
                # contracts only: these are discharged by another template
                for d in inc:
                    if isinstance(d, Directive):
                        d.opts["contract_only"] = parts[0]
            out += inc
        elif word in ("fn", "impl", "use", "static"):
            crate, p = [x.strip() for x in rest.split("|", 1)]
            cur, sect = Directive(word, crate, p, f"{name}:{no}"), None
            if word == "use":
                out.append(cur)
                cur = None
        elif word == "end":
            out.append(cur)
            cur = sect = None
        elif word in ("as", "header", "free", "only", "skip", "vis", "trait", "elsewhere", "literals", "hoisted", "freefill", "attr", "generic"):
            cur.opts[word] = rest
            sect = None
        elif word == "sub":
            a, b = rest.split(" => ", 1) if " => " in rest else (rest.rsplit("=>", 1)[0].strip(), "")
            cur.subs.append((a, b))
            sect = None
        elif word == "inline":
            cur.inlines.append(tuple(x.strip() for x in rest.split(" => ", 1)))
            sect = None
        elif word in ("loop", "loophead", "looptail", "closure", "inner", "outline"):
            parts = rest.split()
            sect = (word, int(parts[0]), parts[1] if len(parts) > 1 else None)
            cur.sections.setdefault(sect, "")
        elif word in ("spec", "head", "ghost", "freespec"):
            sect = (word, 0, rest or None)
            cur.sections.setdefault(sect, "")
        else:
            raise SystemExit(f"{name}:{no}: unknown directive {word}")
    return out


class Unit:
    """One extracted function in the generated file."""

    def __init__(self, crate, path, name):
        self.crate, self.path, self.name = crate, path, name
        self.first = self.last = 0
        self.contract = False
        self.stubbed = None
        self.rewrites = 0
        self.loops = 0
        # an extracted function without a contract, which callers know nothing about
        self.bare = False
        self.kind_fn = False


def _split_ret(item, lo, hi):
    """(sig tokens end, ret lo, ret hi, where lo)"""
    toks = item.toks
    i, depth = lo, 0
    arrow = None
    where = hi
    while i < hi:
        t = toks[i]
        if t.text in ("(", "["):
            i = t.match + 1
            continue
        if t.text == "<":
            depth += 1
        elif t.text == ">":
            depth -= 1
        elif t.text == "->" and depth == 0 and arrow is None:
            arrow = i
        elif t.text == "where" and depth == 0:
            where = i
            break
        i += 1
    return arrow, where


def emit_fn(item, d, method, unit, stub):
    """Text of an extracted function with its contract spliced in."""
    toks = item.toks
    lo, hi = item.header
    lo = rsx._skip_attrs(toks, lo, hi)
    arrow, where = _split_ret(item, lo, hi)
    spec = d.sections.get(("spec", 0, method))
    if spec is None and method is not None:
        spec = d.sections.get(("spec", 0, "*"))
    unit.contract = bool(spec and spec.strip())
    sig = item.text(lo, arrow if arrow is not None else where)
    # `const fn` is an executable detail: Verus treats it as its own mode
    sig = re.sub(r"\bconst\s+(?=(unsafe\s+)?fn\b)", "", sig)
    sig = re.sub(r"^pub\s*\([^)]*\)", "pub", sig)
    # `mut self` is a local copy: spelled out, the verifier does not know the pattern
    mutself = re.search(r"\(\s*mut\s+self\b", sig) is not None
    sig = re.sub(r"\(\s*mut\s+self\b", "(self", sig)
    unnamed = iter(range(99))
    sig = re.sub(r"(?<=[(,])(\s*)_\s*:", lambda m: f"{m.group(1)}_arg{next(unnamed)}:", sig)
    if method is None:
        if "vis" in d.opts:
            sig = re.sub(r"^pub\s+", "", sig)
            sig = (d.opts["vis"] + " " + sig).strip()
        if "as" in d.opts:
            sig = re.sub(r"\bfn\s+\w+", "fn " + d.opts["as"], sig, count=1)
    ret = item.text(arrow + 1, where) if arrow is not None else None
    wh = item.text(where, hi) if where < hi else ""
    text = sig
    if ret is not None:
        text += f" -> (r: {ret})" if unit.contract else f" -> {ret}"
    if wh:
        text += " " + wh.rstrip().rstrip(",") + ","
    text += "\n"
    if spec:
        text += spec
    if item.body is None:
        return text + ";\n"
    if stub:
        return "#[verifier::external_body]\n" + text + "{ unimplemented!() }\n"
    # body with loop invariants
    blo, bhi = item.body
    inserts = {}
    ls = rsx.loops(item)
    unit.loops = len(ls)
    want = {n for (s, n, m) in d.sections if s in ("loop", "loophead", "looptail") and m == method}
    if want and (max(want) + 1 > len(ls)):
        raise Undecided(f"{unit.path}: expected a loop {max(want)}, found {len(ls)}")
    reveals = ""
    if "literals" in d.opts:
        lits = sorted({t.text for t in toks[blo:bhi] if re.match(r'^r?#*"', t.text)})
        reveals = "".join(_literal_facts(x) for x in lits)
        reveals += "".join(_char_facts(x) for x in sorted({t.text for t in toks[blo:bhi] if re.match(r"^'(?:[^'\\\\]|\\\\.)'$", t.text)}))
    for n, (kw, ob) in enumerate(ls):
        inv = d.sections.get(("loop", n, method))
        if inv is not None:
            inserts.setdefault(("before", ob), []).append("\n" + inv)
            if toks[kw].text == "for":
                # name the ghost iterator
                k = kw
                while toks[k].text != "in":
                    k = toks[k].match + 1 if toks[k].text in rsx.OPEN else k + 1
                inserts.setdefault(("after", k), []).append(" it:")
        h = d.sections.get(("loophead", n, method))
        if reveals:
            h = reveals + (h or "")
        if h is not None:
            inserts.setdefault(("after", ob), []).append("\n" + h)
        t = d.sections.get(("looptail", n, method))
        if t is not None:
            inserts.setdefault(("before", toks[ob].match), []).append("\n" + t)
    out, prev = [], None
    dropped = set()
    for kw, ob in ls:
        # `for &x in ..` spelled out: the verifier has no reference patterns
        if toks[kw].text == "for" and toks[kw + 1].text == "&" and toks[kw + 3].text == "in":
            dropped.add(kw + 1)
            inserts.setdefault(("after", ob), []).insert(0, f" let {toks[kw + 2].text} = *{toks[kw + 2].text};")
            unit.rewrites += 1
    if "hoisted" in d.opts:
        i = blo
        while i < bhi:
            j = rsx._skip_attrs(toks, i, bhi)
            if toks[j].text in ("struct", "impl", "enum") or (toks[j].text == "fn"):
                b = rsx._find_body(toks, j, bhi)
                end = toks[b].match + 1 if toks[b].text == "{" else b + 1
                dropped.update(range(i, end))
                i = end
            else:
                while i < bhi and toks[i].text != ";":
                    i = toks[i].match + 1 if toks[i].text in rsx.OPEN else i + 1
                i += 1
    cut = None
    for (sname, n, m), sect in d.sections.items():
        if sname == "outline" and m == method:
            cut = outline(item, ls, n, sect, unit)
            inserts.setdefault(("after", ls[n][1]), []).append(cut[0])
            dropped.update(cut[1])
    for k in range(blo, bhi):
        if k in dropped:
            continue
        t = toks[k]
        if prev is not None:
            gap = item.src[prev.end:t.start]
            out.append(gap if gap.strip() == "" else ("\n" if "\n" in gap else " "))
        for s in inserts.get(("before", k), []):
            out.append(s)
        out.append(t.text)
        for s in inserts.get(("after", k), []):
            out.append(s)
        prev = t
    body = "".join(out)
    # `#[inline]`-style attributes on statements are dropped with the rest
    body = re.sub(r"#\[(?:inline|allow|cold)[^\]]*\]", "", body)
    head = d.sections.get(("head", 0, method))
    if head is None:
        head = d.sections.get(("head", 0, "*"), "") if method is not None else ""
    body, n = normalise(body)
    unit.rewrites += n
    if mutself:
        body = "let mut self_ = self;\n" + re.sub(r"\bself\b(?!\s*::)", "self_", body)
        unit.rewrites += 1
    unit.kind_fn = True
    head = ("    proof { assert(false); }\n" if VACUITY else "") + reveals + head
    return text + "{\n" + head + body + "\n}\n"


def outline(item, ls, n, sect, unit):
    """The body of a loop as a function of its own: the verifier does not follow a closure
    into a loop. Its state goes in and comes back by value; nothing may leave the loop
    except through `?`."""
    if n >= len(ls):
        raise Undecided(f"{unit.path}: expected a loop {n}, found {len(ls)}")
    toks = item.toks
    lo, hi = ls[n][1] + 1, toks[ls[n][1]].match
    if any(toks[k].text in ("break", "continue", "return") for k in range(lo, hi)):
        raise Undecided(f"{unit.path}: the loop is left by break, continue or return")
    first, rest = sect.split("\n", 1)
    head, params, state, args = [x.strip() for x in first.split("|")]
    name, generics = (head.split(None, 1) + [""])[:2]
    contract, _, proof = rest.partition("---\n")
    var, ty = [x.strip() for x in state.split(":")]
    body, prev = [], None
    for k in range(lo, hi):
        if prev is not None:
            gap = item.src[prev.end:toks[k].start]
            body.append(gap if gap.strip() == "" else ("\n" if "\n" in gap else " "))
        body.append(toks[k].text)
        prev = toks[k]
    body, _ = normalise("".join(body))
    unit.rewrites += 1
    # `case: P` lines: one copy of the body per case, so that each proof stays small; that the
    # cases cover everything is an obligation of its own
    cases = re.findall(r"^case: (.*)$", contract, flags=re.M)
    contract = re.sub(r"^case: .*\n", "", contract, flags=re.M)
    ret = f"-> (r: core::result::Result<{ty}, sval::Error>)\n"
    code = f"{{\n{proof}let mut {var} = {var};\n{body}\nOk({var})\n}}\n"
    if not cases:
        text = f"pub fn {name}{generics}({params}, {var}: {ty}) {ret}{contract}{code}"
    else:
        text = f"#[verifier::external_body]\npub fn {name}{generics}({params}, {var}: {ty}) {ret}{contract}{{ unimplemented!() }}\n"
        for k, c in enumerate(cases):
            text += f"#[verifier::spinoff_prover]\npub fn {name}_{k}{generics}({params}, {var}: {ty}) {ret}{contract.replace('requires ', f'requires {c}, ', 1)}{code}"
        text += f"pub fn {name}_cases{generics}({params}, {var}: {ty})\n{contract[:contract.index('    ensures')]}{{ assert({' || '.join(f'({c})' for c in cases)}); }}\n"
    unit.outlined = re.sub(r"\bself\b", "self_", text)
    return f"\n{var} = {name}({args}, {var})?;\n", set(range(lo, hi))


def _seq_u8(s):
    b = s.encode()
    return "Seq::<u8>::empty()" if not b else "seq![" + ", ".join(f"{x}u8" for x in b) + "]"


def _literal_facts(x):
    """The bytes of a string literal, proved from its characters."""
    import ast
    out = f"proof {{ reveal_strlit({x}); lit_bytes({x}@); "
    try:
        s = ast.literal_eval(x) if x.startswith('"') else None
    except (ValueError, SyntaxError):
        s = None
    if s is not None and s.isascii():
        out += f"assert({x}.spec_bytes() =~= {_seq_u8(s)}); "
    return out + "}\n"


def _char_facts(x):
    import ast
    try:
        c = ast.literal_eval(x)
    except (ValueError, SyntaxError):
        return ""
    if not c.isascii():
        return ""
    return f"proof {{ ascii_char({x}); assert(encode_utf8(seq![{x}]) == seq![{ord(c)}u8]); }}\n"


def _bytes_literal(m):
    import ast
    return "[" + ", ".join(str(b) + "u8" for b in ast.literal_eval(m.group(1))) + "]"


def normalise(body):
    """Rewrites that every function gets: spelling only, the meaning is Rust's own definition."""
    count = 0
    for rx, to in (
        (r'\*(b"(?:[^"\\]|\\.)*")', _bytes_literal),                       # *b"ab" is [b'a', b'b']
        (r"(?<![\w'])static\s+(\w+)\s*:", r"let \1:"),                       # a static local to a body
        (r'::core::panicking::panic\s*\(\s*"(?:[^"\\]|\\.)*"\s*\)', "unreached()"),  # unreachable!()
        (r"::core::panicking::unreachable_default_msg\s*\(\s*\)", "unreached()"),
    ):
        body, n = re.subn(rx, to, body)
        count += n
    return body, count


def apply_subs(text, d, unit):
    if "generic" in d.opts:
        m = re.search(r"\bfn\s+\w+\s*<(?:\s*'\w+\s*,)*\s*(\w+)\s*:", text)
        if m and m.group(1) != d.opts["generic"]:
            text = re.sub(r"\b%s\b" % m.group(1), d.opts["generic"], text)
    for a, b in d.subs:
        text, n = re.subn(a, b, text)
        unit.rewrites += n
    for callee, prelude in d.inlines:
        text = inline_calls(text, callee, prelude, unit)
    # a closure's parameter that is not used needs a name
    return re.sub(r"\|\s*_\s*\|", "|_w|", text)


def inline_calls(text, callee, prelude, unit):
    """`F(a, |p| body)` -> `{ PRELUDE body }`: the verifier has no closures that borrow mutably. F's own
    contract, which the template discharges, says that it calls its argument once, with
    what PRELUDE binds, and returns the result."""
    rx = re.compile(callee + r"\s*\(")
    pos = 0
    while True:
        m = rx.search(text, pos)
        if not m:
            return text
        args, i = [], m.end()
        while True:
            e = _balanced(text, i, ",)")
            args.append(text[i:e].strip())
            i = e + 1
            if text[e] == ")":
                break
            # a closure's body may hold a comma only inside brackets
        args = [a for a in args if a]
        c = re.match(r"\|\s*(\w+)\s*\|\s*(.*)$", args[-1], flags=re.S) if args else None
        if not c:
            # the function itself, or an argument that is no closure
            pos = m.end()
            continue
        if re.search(r"\?|\breturn\b", c.group(2)):
            raise Undecided(f"{unit.path}: the argument of {m.group(0)} returns early")
        pre = prelude.replace("$p", c.group(1))
        for k, a in enumerate(m.groups(), 1):
            pre = pre.replace(f"${k}", a)
        for k, a in enumerate(args, 1):
            pre = pre.replace(f"$a{k}", a)
        text = text[:m.start()] + "{ " + pre + " " + c.group(2) + " }" + text[i:]
        unit.rewrites += 1
        pos = m.start()


def _balanced(text, i, stops):
    """Index of the first of `stops` at depth 0 from i (literals skipped)."""
    depth = 0
    lit = re.compile(r"b?'(?:\\.[^']*|[^'\\])'" + r'|b?"(?:\\.|[^"\\])*"')
    while i < len(text):
        m = lit.match(text, i)
        if m:
            i = m.end()
            continue
        c = text[i]
        if depth == 0 and c in stops:
            return i
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth < 0:
                return i
        i += 1
    return i


def annotate_closures(text, d, method, word="closure", count=None):
    """Give the outermost closures the contract the template declares for their number of parameters
    (and those inside them, one level down, the contract of //@inner)."""
    secs = {n: v for (s, n, m), v in d.sections.items() if s == word and m == method}
    for (s, n, m), v in d.sections.items():
        if s == word and m == "*":
            secs.setdefault(n, v)
    if not secs:
        return text
    inner_count = {}
    rx = re.compile(r"([(,=]\s*)(move\s+)?\|([^|\n]*(?:\n[^|]*)?)\|(?!\s*->)(?!\|)")
    out, pos, count = [], 0, {} if count is None else count
    start = text.index("{") if "{" in text and word == "closure" else 0
    while True:
        m = rx.search(text, max(pos, start))
        if not m:
            out.append(text[pos:])
            return "".join(out)
        params = [x.strip() for x in re.split(r",(?![^(]*\))", m.group(3)) if x.strip()]
        names = [re.sub(r"\s*:.*", "", x, flags=re.S) for x in params]
        sec = secs.get(len(params))
        if sec is not None and "===\n" in sec:
            # closures that take turns
            turns = sec.split("===\n")
            turn = count.get(len(params), 0)
            count[len(params)] = turn + 1
            sec = turns[turn % len(turns)]
        b = m.end()
        while text[b].isspace():
            b += 1
        if text[b] == "{":
            e = _balanced(text, b + 1, "}") + 1
            body = text[b:e]
        else:
            e = _balanced(text, b, ",)")
            body = "{ " + text[b:e] + " }"
        if sec is None or not all(re.fullmatch(r"(mut\s+)?\w+|\([\w\s,]*\)", x) for x in names):
            out.append(text[pos:b])
            pos = b
            continue
        if word == "closure":
            body = annotate_closures(body, d, method, "inner", inner_count)
        for k, x in enumerate(names):
            if x.startswith("("):
                names[k] = f"p{k}_"
                body = "{ let " + x + " = " + names[k] + "; " + body + " }"
            if x.startswith("mut "):
                names[k] = x[4:].strip() + "_0"
                body = "{ let mut " + x[4:].strip() + " = " + names[k] + "; " + body + " }"
        names = [f"p{k}_" if x == "_" else x for k, x in enumerate(names)]
        first, _, rest = sec.partition("\n")
        types, ret = first.rsplit("->", 1)
        types = [x.strip() for x in types.split(";")]
        for k, x in enumerate(names):
            rest = rest.replace(f"${k + 1}", x)
        rest, _, proof = rest.partition("---\n")
        if proof:
            body = "{ " + proof + body + " }"
        out.append(text[pos:m.start()] + m.group(1) + (m.group(2) or "") + "|"
                   + ", ".join(f"{a}: {t}" for a, t in zip(names, types)) + "| -> " + ret.strip() + "\n" + rest + body)
        pos = e


def free_fn(text, selftype):
    """method -> free function: `&mut self` -> `self_: &mut T`."""
    m = re.match(r"(.*?)(<[^>]*>)?$", selftype)
    text = re.sub(r"&\s*('\w+\s+)?mut\s+self\b", lambda m: f"self_: &{m.group(1) or ''}mut {selftype}", text, count=1)
    text = re.sub(r"&\s*('\w+\s+)?self\b", lambda m: f"self_: &{m.group(1) or ''}{selftype}", text, count=1)
    text = re.sub(r"\bself\b", "self_", text)
    return text


def assemble(template, stubs):
    """Generate the Verus source; `stubs` are unit names to leave out of verification."""
    lines, units, missing = [], [], []

    def add(text):
        lines.extend(text.split("\n"))

    for chunk in read_template(template):
        if isinstance(chunk, str):
            lines.append(chunk)
            continue
        d = chunk
        try:
            item = find(d.crate, d.path)
        except Undecided as e:
            missing.append((d.path, str(e)))
            continue
        if d.kind == "use":
            u = Unit(d.crate, d.path, d.path)
            txt = item.text(item.lo, item.hi)
            txt = re.sub(r"#\[[^\]]*\]", "", txt).lstrip()
            txt = re.sub(r"^pub\s*\([^)]*\)", "pub", txt)
            if txt.startswith(("enum ", "struct ")):
                txt = "pub " + txt
            if txt.startswith("pub struct "):
                # the contracts speak of fields
                h, b = (txt[:txt.index("{")], txt[txt.index("{"):]) if "{" in txt else ("", txt)
                txt = h + re.sub(r"([{,]\s*)(?:pub(?:\([^)]*\))?\s+)?(\w+\s*:(?!:))", r"\1pub \2", b)
            add(txt)
            continue
        if d.kind == "static" and "contract_only" in d.opts:
            continue
        if d.kind == "static":
            m = re.match(r"(?s).*?\bstatic\s+(\w+)\s*:\s*(.*?)\s=\s(.*);\s*$", re.sub(r"#\[[^\]]*\]", "", item.text(item.lo, item.hi)))
            if not m:
                missing.append((d.path, "not a static"))
                continue
            u = Unit(d.crate, d.path, m.group(1))
            u.key = d.crate + "::" + d.path
            u.contract = True
            u.stubbed = stubs.get(u.key)
            init, n = normalise(m.group(3))
            u.rewrites += n
            text = f"exec static {m.group(1)}: {m.group(2)}\n" + d.sections.get(("spec", 0, None), "") + "{\n" + d.sections.get(("head", 0, None), "") + init + "\n}\n"
            if u.stubbed:
                text = "#[verifier::external_body]\n" + text
            text = apply_subs(text, d, u)
            u.first = len(lines) + 1
            add(text)
            u.last = len(lines)
            if "contract_only" not in d.opts:
                units.append(u)
            continue
        if d.kind == "fn":
            u = Unit(d.crate, d.path, d.opts.get("as", item.name))
            key = d.crate + "::" + d.path
            try:
                text = emit_fn(item, d, None, u, stubs.get(key) or d.opts.get("contract_only"))
            except Undecided as e:
                missing.append((d.path, str(e)))
                u.stubbed = str(e)
                text = emit_fn(item, d, None, u, str(e))
            u.key = key
            u.bare = not u.contract and not _inherits_contract(u.name, lines)
            u.stubbed = stubs.get(key) or u.stubbed
            text = apply_subs(text, d, u)
            if not getattr(u, "outlined", None):
                text = annotate_closures(text, d, None)
            if "free" in d.opts:
                text = free_fn(text, d.opts["free"])
            if getattr(u, "outlined", None) and not u.stubbed:
                text += annotate_closures(apply_subs(u.outlined, d, u), d, None)
            if "attr" in d.opts:
                text = d.opts["attr"] + "\n" + text
            u.first = len(lines) + 1
            add(text)
            u.last = len(lines)
            if "contract_only" not in d.opts:
                units.append(u)
            continue
        # impl
        header = d.opts.get("header", item.header_text)
        if d.subs and "header" not in d.opts:
            for a, b in d.subs:
                header = re.sub(a, b, header)
        add(header + " {")
        add(d.sections.get(("ghost", 0, None), ""))
        only = {x.strip() for x in d.opts["only"].split(",")} if "only" in d.opts else None
        skip = {x.strip() for x in d.opts["skip"].split(",")} if "skip" in d.opts else set()
        # methods whose bodies are discharged by a separate //@fn of the same template
        elsewhere = {x.strip() for x in d.opts.get("elsewhere", "").split(",")}
        got = set()
        methods = [f for f in item.items if f.kind == "fn"]
        inherited, after = set(), []
        if "trait" in d.opts:
            # methods the impl leaves to the trait's provided bodies
            tc, tp = [x.strip() for x in d.opts["trait"].split("|", 1)]
            try:
                tr = find(tc, tp)
                have = {f.name for f in methods}
                fills = [f for f in tr.items if f.kind == "fn" and f.body and f.name not in have]
                inherited = {f.name for f in fills}
                methods += fills
            except Undecided as e:
                missing.append((d.path, str(e)))
        for f in methods:
            if (only is not None and f.name not in only) or f.name in skip:
                continue
            got.add(f.name)
            if "freefill" in d.opts and f.name in inherited:
                # the verifier sees a cycle between the impl and the generic default: the impl
                # gets the contract, a free function of the same body discharges it
                u = Unit(d.crate, f"{d.path}::{f.name} (inherited)", f.name)
                add(apply_subs(emit_fn(f, Directive("fn", d.crate, d.path, d.line), f.name, u, "inherited"), d, Unit("", "", "")))
                fs = d.sections.get(("freespec", 0, f.name))
                if fs is None or "contract_only" in d.opts:
                    continue
                key = f"{d.crate}::{d.path}::{f.name}"
                dd = Directive("fn", d.crate, d.path, d.line)
                dd.opts = {"as": "inherited_" + f.name}
                dd.sections = {("spec", 0, None): fs, ("head", 0, None): d.sections.get(("head", 0, f.name), "")}
                u = Unit(d.crate, f"{d.path}::{f.name} (inherited)", f.name)
                u.key = key
                u.stubbed = stubs.get(key)
                after.append((u, free_fn(apply_subs(emit_fn(f, dd, None, u, stubs.get(key)), d, u), d.opts["freefill"])))
                continue
            key = f"{d.crate}::{d.path}::{f.name}"
            u = Unit(d.crate, f"{d.path}::{f.name}", f.name)
            u.key = key
            try:
                text = emit_fn(f, d, f.name, u, stubs.get(key) or f.name in elsewhere or d.opts.get("contract_only"))
            except Undecided as e:
                missing.append((u.path, str(e)))
                u.stubbed = str(e)
                text = emit_fn(f, d, f.name, u, str(e))
            u.bare = not u.contract and not re.search(r"\bfor\b(?!\s*<)", header)
            u.stubbed = stubs.get(key) or u.stubbed
            text = annotate_closures(apply_subs(text, d, u), d, f.name)
            if "attr" in d.opts:
                text = d.opts["attr"] + "\n" + text
            u.first = len(lines) + 1
            add(text)
            u.last = len(lines)
            if f.name not in elsewhere and "contract_only" not in d.opts:
                units.append(u)
        ghosts = {m for (s, n, m) in d.sections if s == "spec" and m not in (None, "*")} - got - skip
        if ghosts and "contract_only" not in d.opts:
            missing.append((d.path, "no method " + ", ".join(sorted(ghosts))))
        if only and only - got:
            missing.append((d.path, "no method " + ", ".join(sorted(only - got))))
        add("}")
        for u, text in after:
            u.first = len(lines) + 1
            add(text)
            u.last = len(lines)
            units.append(u)
    return "\n".join(lines) + "\n", units, missing


def _inherits_contract(name, lines):
    """Is what comes next inside an `impl Trait for Type`, and does a trait above give `name` a contract?"""
    for n in range(len(lines) - 1, -1, -1):
        if re.match(r"\s*(unsafe )?impl\b", lines[n]):
            body = "\n".join(lines[n:])
            if body.count("{") <= body.count("}") or not re.search(r"\bfor\b(?!\s*<)", lines[n].split("{")[0]):
                return False
            return re.search(r"\bfn %s\b[^;{]*\bensures\b[^;{]*;" % re.escape(name), "\n".join(lines[:n])) is not None
    return False


# --------------------------------------------------------------------------
# running Verus

FAILED = ("postcondition not satisfied", "fails to satisfy `callee.requires", "precondition not satisfied", "precondition not met",
          "requires not satisfied", "assertion failed",
          "invariant not satisfied", "possible arithmetic", "possible division", "decreases not satisfied",
          "recommendation not met", "unreachable", "possible truncation", "loop invariant", "possible shift",
          "possible bit shift", "index out of bounds", "possible missing overflow",
          "unable to prove post-condition of closure", "unable to prove pre-condition of closure",
          "unable to prove precondition of closure", "unable to prove postcondition of closure")
RLIMIT = ("rlimit", "resource limit", "took too long", "timed out")


def _messages(stderr):
    """rustc-style messages: (level, text, [lines])."""
    msgs, cur = [], None
    for line in stderr.split("\n"):
        m = re.match(r"(error|warning|note)(?:\[\w+\])?: (.*)$", line)
        if m:
            cur = [m.group(1), m.group(2), [], [line]]
            msgs.append(cur)
            continue
        if cur is None:
            continue
        cur[3].append(line)
        m = re.match(r"\s*(?:-->|:::) \S*?:(\d+):\d+", line)
        if m:
            cur[2].append(int(m.group(1)))
        m = re.match(r"\s*(\d+)\s*[|/]", line)
        if m:
            cur[2].append(int(m.group(1)))
    return msgs


class Result:
    pass


# a closure with neither a contract (`-> (r: T) ensures ..`) nor a parameter the template itself typed
LOOSE_CLOSURE = re.compile(r"[(,=]\s*(?:move\s+)?\|(?!\|)(?!_e\b)[^|\n]*\|(?!\s*->)|[(,=]\s*(?:move\s+)?\|\|\s*(?!->)[\w{(]")
QUANTIFIER = re.compile(r"\b(forall|exists|choose)\s*\|[^|]*\|")


def _no_literals(code):
    code = re.sub(r"//[^\n]*", "", code)
    code = re.sub(r"b?'(?:\\.[^']*|[^'\\])'", "' '", code)
    code = re.sub(r'b?"(?:\\.|[^"\\])*"', '""', code)
    return QUANTIFIER.sub("", code)


# set while checking that no contract's precondition is a contradiction
VACUITY = False


def vacuous(template, timeout=900):
    """The functions whose contract nothing can meet: `assert(false)` at their start is accepted."""
    global VACUITY
    VACUITY = True
    try:
        r = verify(template, keep=os.path.join(BUILD, "verus", "vacuity_" + template), timeout=timeout)
    finally:
        VACUITY = False
    if not r.failed:
        return None
    seen = {f[0] for f in r.failed} | {u[0] for u in r.undecided}
    return sorted({u.path for u in r.units if not u.stubbed and u.kind_fn and u.path not in seen})


def verify(template, keep=None, rlimit=30, timeout=600, max_rounds=8):
    """Extract, run Verus, and say which obligations hold, fail or stay undecided."""
    t0 = time.time()
    stubs = {}
    res = Result()
    res.template = template
    os.makedirs(os.path.join(BUILD, "verus"), exist_ok=True)
    out_path = keep or os.path.join(BUILD, "verus", template)
    rounds = 0
    while True:
        rounds += 1
        text, units, missing = assemble(template, stubs)
        with open(out_path, "w") as f:
            f.write(text)
        cmd = ["verus", out_path, "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", "4",
               "--crate-type", "lib"]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
            stdout, stderr, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired:
            stdout, stderr, rc = "", "", -1
            res.timeout = True
        try:
            js = json.loads(stdout[stdout.index("{"):])
        except ValueError:
            js = {}
        vr = js.get("verification-results", {})
        res.cmd = " ".join(cmd)
        res.units, res.missing, res.text, res.path = units, missing, text, out_path
        res.verified = vr.get("verified", 0)
        res.smt_ms = js.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(js.get("times-ms"), dict) else 0
        res.stderr = stderr
        res.failed, res.undecided, hard = [], [(p_, m_) for p_, m_ in missing], []
        for u in units:
            if u.stubbed:
                res.undecided.append((u.path, u.stubbed))

        def owner(ls):
            for n in reversed(ls):
                for u in units:
                    if u.first <= n <= u.last:
                        return u
            return None

        for level, msg, ls, raw in _messages(stderr):
            if level != "error" or msg.startswith("aborting due to"):
                continue
            # the innermost function that contains any quoted line
            own = None
            for n in ls:
                for u in units:
                    if u.first <= n <= u.last:
                        own = u
                        break
                if own:
                    break
            low = msg.lower()
            if any(k in low for k in RLIMIT):
                res.undecided.append((own.path if own else "?", "solver resource limit"))
            elif any(k in low for k in FAILED) and vr and not raw[0].startswith("error["):
                if own is None:
                    # a lemma over the contracts: says nothing about the code by itself
                    res.undecided.append(("lemma", msg + "\n" + "\n".join(raw)))
                    continue
                code = "\n".join(text.split("\n")[own.first - 1:own.last])
                called = set(re.findall(r"\b(\w+)\s*\(", code)) - {own.name}
                helpers = sorted({u.name for u in units if u.bare} & called)
                if helpers:
                    # the caller cannot be decided against a callee that has no contract
                    res.undecided.append((own.path, "calls " + ", ".join(helpers) + ", which has no contract"))
                    continue
                if LOOSE_CLOSURE.search(_no_literals(code)):
                    # a closure the template gives no contract: its result is unknown to the verifier
                    res.undecided.append((own.path, "contains a closure that has no contract"))
                    continue
                res.failed.append((own.path, msg, "\n".join(raw)))
            else:
                hard.append((own, msg, "\n".join(raw)))
        if hard and rounds < max_rounds:
            progressed = False
            for own, msg, raw in hard:
                if own is not None and own.key not in stubs:
                    stubs[own.key] = "outside the verifier's reach: " + msg
                    progressed = True
            if progressed:
                continue
        if hard:
            for own, msg, raw in hard:
                res.undecided.append((own.path if own else "(file)", msg + "\n" + raw))
            if not vr:
                res.failed = []
                res.verified = 0
        if not res.verified and not res.failed and not res.undecided:
            res.undecided.append(("(file)", "verus gave no verdict: " + stderr[-400:]))
        if getattr(res, "timeout", False):
            res.undecided.append(("(file)", "verus timed out"))
        break
    res.rounds = rounds
    res.wall = time.time() - t0
    # functions whose every obligation was discharged
    bad = {f[0] for f in res.failed} | {u[0] for u in res.undecided}
    res.proved = [u for u in units if u.path not in bad and not u.stubbed] if res.verified else []
    return res


if __name__ == "__main__":
    for t in sys.argv[1:]:
        if t == "--warm":
            for c in CRATES:
                expand(c)
            continue
        if t == "--vacuity":
            continue
        if "--vacuity" in sys.argv:
            print(t, vacuous(t))
            continue
        r = verify(t)
        print(f"{t}: verified={r.verified} failed={len(r.failed)} undecided={len(r.undecided)} units={len(r.units)} proved={len(r.proved)} smt={r.smt_ms}ms wall={r.wall:.1f}s rounds={r.rounds}")
        for f in r.failed:
            print("  FAILED", f[0], "::", f[1])
            print("\n".join("      " + l for l in f[2].split("\n")))
        for u in r.undecided:
            print("  UNDECIDED", u[0], "::", u[1][:1500])
