"""Verus obligations. /verif/verus/shard.rs is a template: specification, lemmas, and for each function under
contract a directive naming the function in /repo/src. On every run the text of each function (signature and body)
is taken from /repo's current source; the directive only adds the name of the result, the contract, loop invariants
and ghost blocks. One Verus run per function: that function with its body, all others reduced to their contracts."""
import concurrent.futures, hashlib, json, os, re, signal, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SHARD_REPO", "/repo")
OUT = os.environ.get("SHARD_OUT", os.path.join(HERE, "target", "verus"))
TEMPLATE = os.environ.get("SHARD_TEMPLATE", os.path.join(HERE, "verus", "shard.rs"))


class Lost(Exception):
    """The code no longer has the shape the annotations attach to."""


# --- reading Rust -----------------------------------------------------------------------------------------------------
TOKEN = re.compile(r"""//[^\n]*|/\*|"(?:\\.|[^"\\])*"|'(?:\\[^']+|[^\\'])'""", re.S)


def mask(s):
    """s with comments, strings and character literals blanked out (same length)."""
    out, i = [], 0
    while True:
        t = TOKEN.search(s, i)
        if not t:
            return "".join(out) + s[i:]
        a, b = t.span()
        if t[0] == "/*":
            d = 1
            while b < len(s) and d:
                if s.startswith("/*", b):
                    d, b = d + 1, b + 2
                elif s.startswith("*/", b):
                    d, b = d - 1, b + 2
                else:
                    b += 1
        out += [s[i:a], re.sub(r"[^\n]", " ", s[a:b])]
        i = b


PAIR = {"{": "}", "(": ")", "[": "]"}


def close(m, i):
    """Position of the bracket closing the one at i, in masked text."""
    d, o, c = 0, m[i], PAIR[m[i]]
    for k in range(i, len(m)):
        if m[k] == o:
            d += 1
        elif m[k] == c:
            d -= 1
            if d == 0:
                return k
    raise Lost("unbalanced brackets")


# Types of fields the verifier does not take as they are; see DESIGN.md.
STRUCT_SUBS = [("*mut u8", "Ptr<u8>"), ("*mut Entity", "Ptr<Entity>"), ("PhantomData<fn(G)>", "core::marker::PhantomData<G>")]


# A function pointer is a number standing for it.
MACRO_SUBS = [("ComponentDescriptor::drop_handler_wrapper::<$item>", "drop_handler_of::<$item>()")]


class Source:
    def __init__(self, path):
        self.s = open(os.path.join(REPO, "src", path)).read()
        self.m = mask(self.s)
        self.path = path
        # test modules are not code
        for t in list(re.finditer(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{", self.m)):
            e = close(self.m, t.end() - 1) + 1
            self.m = self.m[:t.start()] + " " * (e - t.start()) + self.m[e:]

    def impls(self):
        for t in re.finditer(r"^(?:unsafe )?impl\b[^{;]*\{", self.m, re.M):
            yield re.sub(r"\s+", " ", t.group(0)[:-1]).strip(), t.end(), close(self.m, t.end() - 1)

    def function(self, impl, name):
        """(signature, body without outer braces) of the function, in an impl block whose header matches.
        `macro M N`: in the expansion of M for N elements."""
        if impl == "const":
            return self.constant(name, 0, len(self.m))
        if impl.startswith("macro "):
            return self.expansion(impl.split()[1], int(impl.split()[2]), name)
        regions = [(0, len(self.m))] if impl == "-" else [(a, b) for h, a, b in self.impls() if re.fullmatch(impl, h)]
        found = []
        if name.isupper():
            if len(regions) != 1:
                raise Lost("%s in %s: found %d times" % (impl, self.path, len(regions)))
            return self.constant(name, *regions[0])
        for a, b in regions:
            for t in re.finditer(r"\bfn\s+%s\b" % re.escape(name), self.m[a:b]):
                p = a + t.start()
                if self.m.count("{", a, p) != self.m.count("}", a, p):
                    continue
                start = p
                for w in re.finditer(r"(?:\bpub(?:\s*\([^)]*\))?\s+|\bconst\s+|\bunsafe\s+)+$", self.m[a:p]):
                    start = a + w.start()
                o = self.body_start(p)
                found.append((self.s[start:o], self.s[o + 1:close(self.m, o)]))
        if len(found) != 1:
            raise Lost("%s in %s %s: found %d times" % (name, self.path, impl, len(found)))
        return found[0]

    def body_start(self, p):
        i = p
        while True:
            c = self.m[i]
            if c in "([":
                i = close(self.m, i)
            elif c == "{":
                return i
            elif c == ";":
                raise Lost("function without a body")
            i += 1

    def names(self):
        return set(re.findall(r"\bfn\s+(\w+)", self.m))

    def const(self, name):
        t = re.search(r"\bconst\s+%s\s*:[^;]*;" % name, self.m)
        if not t:
            raise Lost("constant %s in %s" % (name, self.path))
        return "pub " + self.s[t.start():t.end()]

    def constant(self, name, a, b):
        """The constant defined in this region, as a function."""
        t = list(re.finditer(r"\bconst\s+%s\s*:\s*(\w+)\s*=" % name, self.m[a:b]))
        if len(t) != 1:
            raise Lost("constant %s in %s" % (name, self.path))
        a += t[0].end()
        e = a
        while self.m[e] != ";":
            e = close(self.m, e) + 1 if self.m[e] in "([{" else e + 1
        return "fn const_%s() -> %s " % (name, t[0][1]), " " + self.s[a:e].strip() + " "

    def macro(self, name):
        t = re.search(r"\bmacro_rules!\s*%s\s*\{" % name, self.m)
        if not t:
            raise Lost("macro %s in %s" % (name, self.path))
        return self.s[t.start():close(self.m, t.end() - 1) + 1]

    def expansion(self, macro, n, name):
        """The function in the expansion of the macro for a tuple of n; the types are called T1, T2, .. in the order given."""
        found = []
        for t in re.finditer(r"\b%s!\s*\(" % macro, self.m):
            e = close(self.m, t.end() - 1)
            args = [self.s[a:b].strip() for a, b in operands(self.m, t.end(), e)]
            if args[0] == str(n):
                found.append([re.fullmatch(r"\(\s*\w+\s*,\s*(\d+)\s*\)", x) for x in args[1:]])
        if len(found) != 1 or len(found[0]) != n or None in found[0]:
            raise Lost("%s! for %d" % (macro, n))
        idx = [x[1] for x in found[0]]
        text = self.macro(macro)
        text = text[text.index("{") + 1:]
        text = text[text.index("=>"):]

        def each(text):
            out = ""
            while True:
                m = mask(text)
                t = re.search(r"\$\(", m)
                if not t:
                    return out + text
                e = close(m, t.end() - 1)
                q = re.compile(r"\s*([,;]?)\s*\*").match(m, e + 1)
                if not q:
                    raise Lost("repetition in %s!" % macro)
                inner = text[t.end():e]
                reps = [re.sub(r"\$elem\b", "T%d" % (i + 1), inner.replace("$elem_idx", k)) for i, k in enumerate(idx)]
                out += text[:t.start()] + ((q[1] + " ").join(reps))
                text = text[q.end():]
        text = each(text)
        text = re.sub(r"\btuple_index!\(\s*(\w+)\s*,\s*(\d+)\s*\)", r"\1.\2", text)
        x = Source.__new__(Source)
        x.s, x.m, x.path = text, mask(text), self.path
        if name.isupper():
            return x.constant(name, 0, len(x.m))
        return x.function_at(name)

    def function_at(self, name):
        t = list(re.finditer(r"\b(?:unsafe\s+)?fn\s+%s\b" % re.escape(name), self.m))
        if len(t) != 1:
            raise Lost("%s found %d times" % (name, len(t)))
        o = self.body_start(t[0].start())
        return self.s[t[0].start():o], self.s[o + 1:close(self.m, o)]

    def struct(self, name, ghost=""):
        """The definition; ghost: fields added to it."""
        t = re.search(r"\bstruct\s+%s\b" % name, self.m)
        if not t:
            raise Lost("struct %s in %s" % (name, self.path))
        o = generics_end(self.m, t.end())
        while self.m[o] not in "{(;":
            o += 1
        if self.m[o] == ";":
            raise Lost("struct %s in %s has no fields" % (name, self.path))
        e = close(self.m, o)
        head, inner = self.s[t.start():o + 1], self.s[o + 1:e]
        mi = mask(inner)
        # uncommented, public fields
        inner = "".join(a if b == a or b == " " and a.isspace() else " " for a, b in zip(inner, mi))
        inner = re.sub(r"#\[[^\]]*\]", "", inner)
        inner = re.sub(r"\bpub(\s*\([^)]*\))?\s+", "", inner)
        for a, b in STRUCT_SUBS:
            inner = inner.replace(a, b)
        if head.endswith("{"):
            inner = re.sub(r"(^|,)(\s*)(\w+\s*:)", r"\1\2pub \3", inner)
            if ghost:
                inner = inner.rstrip().rstrip(",") + ", pub " + ghost + " "
            return "pub " + head + inner + "}"
        return "pub " + head + ", ".join("pub " + f.strip() for f in inner.split(",") if f.strip()) + ");"


# --- template ---------------------------------------------------------------------------------------------------------
class Directive:
    pass


def for_tuple(text, n):
    """The text for tuples of n: $N is n; $[..] and lines after $* are repeated for every element, $E its type, $i its position."""
    def each(t):
        return "".join(t.replace("$E", "T%d" % (i + 1)).replace("$i", str(i)) for i in range(n))
    text = re.sub(r"^\$\*(.*\n)", lambda t: each(t[1]), text, flags=re.M)
    text = re.sub(r"\$\[(.*?)\$\]", lambda t: each(t[1]), text, flags=re.S)
    return text.replace("$N", str(n))


def parse_template(text):
    """List of str | Directive."""
    items, cur, part = [], None, None
    text = re.sub(r"^//@tuples (\d+) (\d+)\n(.*?)^//@endtuples\n", lambda t: "".join(for_tuple(t[3], n) for n in range(int(t[1]), int(t[2]) + 1)), text, flags=re.M | re.S)
    for line in text.splitlines(keepends=True):
        st = line.strip()
        if st.startswith("//@fn "):
            m = re.fullmatch(r"//@fn (\S+) \| (.+?) \| (\w+)(?: -> (\w+))?(?: as ([\w:/]+))?", st)
            assert m, st
            cur = Directive()
            cur.kind, cur.path, cur.impl, cur.name, cur.ret = "fn", m[1], m[2].strip(), m[3], m[4]
            cur.key = m[5] or m[3]
            cur.parts, cur.subs, cur.calls, cur.typed, cur.trusted, cur.attrs, cur.result = {"spec": ""}, [], [], None, None, [], None
            cur.cast = False
            part = "spec"
        elif cur is None and st.startswith(("//@const ", "//@struct ", "//@macro ")):
            d = Directive()
            st, _, d.ghost = st.partition(" + ")
            d.kind, d.path, d.name = st[3:].split()
            items.append(d)
        elif cur is not None and st == "//@end":
            items.append(cur)
            cur = None
        elif cur is not None and st.startswith("//@sub "):
            m = re.fullmatch(r"//@sub `(.*?)` => `(.*?)`", st)
            cur.subs.append((m[1], m[2]))
        elif cur is not None and st.startswith("//@call "):
            m = re.fullmatch(r"//@call `(.*?)` => `(.*?)`", st)
            cur.calls.append((m[1], m[2]))
        elif cur is not None and re.match(r"//@typed( |$)", st):
            cur.typed = (st.split()[1:] or ["self.mem.get(", "self.mem.get_mut("])
        elif cur is not None and st == "//@cast":
            cur.cast = True
        elif cur is not None and st.startswith("//@result "):
            cur.result = st[len("//@result "):]
        elif cur is not None and st.startswith("//@attr "):
            cur.attrs.append(st[len("//@attr "):])
        elif cur is not None and st.startswith("//@trusted "):
            cur.trusted = st[len("//@trusted "):]
        elif cur is not None and re.match(r"//@(start|tail|ret|(?:before|loop|top|body|last|after) \d+)$", st):
            part = st[3:]
            cur.parts[part] = ""
        elif cur is not None:
            cur.parts[part] += line
        else:
            items.append(line)
    assert cur is None
    return items


# Substitutions applied to every body; DESIGN.md states them.
GLOBAL_SUBS = [
    (r"\.get_unchecked\(", ".get_uc("),
    (r"\.get_unchecked_mut\(", ".get_uc_mut("),
    (r"\.into\(\)", ".into_some()"),
    (r"\bG::(empty_slice|empty_slice_mut)\(\)", r"\1::<G>()"),
    (r"\.binary_search_by_key\(\s*([^,]*),\s*\|e\|\s*\{?\s*e\.component_type_id\s*\}?\s*\)", r".search_ids(\1)"),
]


# Associated types of a group, by the types standing for them in the template.
GROUP_TYPES = [
    (r"(?:<G as ComponentGroup>|\bG)::(RefTuple|SliceRefTuple)<('\w+)>", r"\1<\2, G>"),
    (r"(?:<G as ComponentGroup>|\bG)::(MutRefTuple|SliceMutRefTuple)<('\w+)>", r"&\2 mut \1<G>"),
]


def replace(text, a, b):
    """a by b, spaces and line breaks aside."""
    return re.sub(r"\s*".join(re.escape(x) for x in re.findall(r"\w+|[^\w\s]", a)), lambda t: b, text)


def operands(m, a, b):
    """Ranges of m[a:b] between commas at depth 0."""
    out, depth, last = [], 0, a
    for k in range(a, b):
        depth += m[k] in "([{"
        depth -= m[k] in ")]}"
        if m[k] == "," and depth == 0:
            out.append((last, k))
            last = k + 1
    if m[last:b].strip():
        out.append((last, b))
    return out


def calls(text, a, b):
    """Calls `a(x, y)` become `{ let a_0 = x; let a_1 = y; b a_0, a_1) }`; $n in a and b stands for a name."""
    pat = r"\s*".join(r"(\w+)" if x == "$n" else re.escape(x) for x in re.findall(r"\$n|\w+|[^\w\s]", a)) + r"\s*\("
    if re.match(r"\w", a):
        pat = r"(?<![\w.:])" + pat
    done = 0
    while True:
        m = mask(text)
        t = re.compile(pat).search(m, done)
        if not t:
            return text
        e = close(m, t.end() - 1)
        args = operands(m, t.end(), e)
        new = "{ " + "".join("let a_%d = %s; " % (k, calls(text[x:y].strip(), a, b)) for k, (x, y) in enumerate(args))
        new += (b.replace("$n", t[1]) if t.groups() else b) + ", ".join("a_%d" % k for k in range(len(args))) + ") }"
        text = text[:t.start()] + new + text[e + 1:]
        done = t.start() + len(new)


def typed(text, forms):
    """`(E as *mut T)` is E.cast::<T>(); `&*E` and `&mut *E` are references into memory."""
    text = re.sub(r"\(\s*([^()]*?)\s+as\s+\*\s*(?:mut|const)\s+(\w+)\s*\)", r"\1.cast::<\2>()", text)
    while True:
        m = mask(text)
        t = re.search(r"&\s*(mut\b)?\s*\*", m)
        if not t:
            return text
        i = t.end()
        while i < len(m) and m[i] not in ",;)]}":
            i = close(m, i) + 1 if m[i] in "([{" else i + 1
        text = text[:t.start()] + "{ let p = %s; %sp) }" % (text[t.end():i].strip(), forms[1 if t[1] else 0]) + text[i:]


def signature(sig, ret, result=None):
    """The signature with its result named; result: the type to put in place of an `impl Iterator`."""
    sig = re.sub(r"\bpub\s*\([^)]*\)", "pub", sig)
    sig = re.sub(r"\bconst\s+(?=(unsafe\s+)?fn\b)", "", sig)
    sig = re.sub(r"//[^\n]*", "", sig)
    sig = sig.rstrip()
    if ret:
        m = mask(sig)
        # the arrow after the parameter list
        o = m.index("(", generics_end(m, re.search(r"\bfn\s+\w+", m).end()))
        c = close(m, o)
        w = re.search(r"\bwhere\b", m[c:])
        end = c + w.start() if w else len(sig)
        a = m.find("->", c)
        if a < 0:
            raise Lost("no result")
        ty = sig[a + 2:end].strip()
        if result:
            if not ty.startswith("impl Iterator"):
                raise Lost("the result is no impl Iterator")
            ty = result
        sig = sig[:a] + "-> (" + ret + ": " + ty + ") " + sig[end:]
    return sig


def generics_end(m, i):
    while m[i].isspace():
        i += 1
    if m[i] != "<":
        return i
    d = 0
    while True:
        if m[i] == "<":
            d += 1
        elif m[i] == ">" and m[i - 1] != "-":
            d -= 1
            if d == 0:
                return i + 1
        i += 1


LOOP = re.compile(r"(?:'\w+\s*:\s*)?\b(?:while|loop|for)\b")


def for_each(body):
    """`E.iter_mut().for_each(|x| B)` as a loop."""
    m = mask(body)
    t = re.search(r"([\w.]+)\s*\.\s*iter_mut\s*\(\)\s*\.\s*for_each\s*\(\s*\|\s*(\w+)\s*\|", m)
    if not t:
        return body
    e = close(m, m.index("(", m.index("for_each", t.start())))
    return body[:t.start()] + "for %s in %s.iter_mut() { %s; }" % (t[2], t[1], body[t.end():e].strip().rstrip(";")) + body[e + 1:]


def annotate(body, d):
    body = for_each(body)
    m = mask(body)
    loops = [t for t in LOOP.finditer(m) if not re.match(r"for\s*<", m[t.start():])]
    want = {int(k.split()[1]) for k in d.parts if k.startswith("loop ")}
    if len(loops) != (max(want) if want else 0):
        raise Lost("%s has %d loops, invariants are written for %d" % (d.key, len(loops), len(want)))
    ins = []
    for n, t in enumerate(loops, 1):
        i = t.end()
        while m[i] != "{":
            i = close(m, i) + 1 if m[i] in "([" else i + 1
        e = close(m, i)
        if "before %d" % n in d.parts:
            ins.append((t.start(), "\n" + d.parts["before %d" % n]))
        head, bind = over_slice(body[t.start():i], n)
        if head:
            ins.append((t.start(), head, i))
            ins.append((i + 1, "\n" + d.parts.get("top %d" % n, "") + bind))
        if "loop %d" % n in d.parts:
            ins.append((i, "\n" + d.parts["loop %d" % n]))
        if "body %d" % n in d.parts:
            ins.append((i + 1, "\n" + d.parts["body %d" % n]))
        if "last %d" % n in d.parts:
            ins.append((e, "\n" + d.parts["last %d" % n]))
        if "after %d" % n in d.parts:
            ins.append((e + 1, "\n" + d.parts["after %d" % n]))
    if "start" in d.parts:
        ins.append((0, "\n" + d.parts["start"]))
    if "ret" in d.parts:
        ins.append((0, "let %s = {" % d.ret))
        ins.append((len(body), "};\n%s%s" % (d.parts["ret"], d.ret)))
    if "tail" in d.parts:
        ins.append((len(body), "\n" + d.parts["tail"]))
    # from the back; what is put at one position keeps its order
    for x in reversed(sorted(ins, key=lambda x: x[0])):
        body = body[:x[0]] + x[1] + body[x[-1] if len(x) > 2 else x[0]:]
    return body


def over_slice(head, n):
    """`for (i, x) in E.iter().enumerate()` as a loop over the positions of the slice, and what binds i and x in its body.
    i_N is the number of rounds begun."""
    t = re.fullmatch(r"((?:'\w+\s*:\s*)?)for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s+(.*?)\s*\.\s*iter(_mut)?\s*\(\)\s*\.\s*enumerate\s*\(\)\s*(?:\.\s*skip\s*\((.*)\)\s*)?", head, re.S)
    if not t:
        t = re.fullmatch(r"((?:'\w+\s*:\s*)?)for\s+(\w+)\s+in\s+(.*?)\s*\.\s*iter_mut\s*\(\)\s*", head, re.S)
        if not t:
            return None, None
        return ("let it_%d = %s; let n_%d = it_%d.len(); let mut i_%d: usize = 0; %swhile i_%d < n_%d " % (n, t[3], n, n, n, t[1], n, n),
                "let %s = it_%d.nth(i_%d); i_%d = i_%d + 1;" % (t[2], n, n, n, n))
    label, i, x, e, mut, skip = t[1], t[2], t[3], t[4], t[5], t[6]
    if mut:
        if skip:
            raise Lost("loop over part of a mutable slice")
        r = re.fullmatch(r"([\w.]+)\s*\[\s*0\s*\.\.(.*)\]", e, re.S)
        if not r:
            raise Lost("loop over a mutable slice of another form")
        return ("let n_%d: usize = %s; let mut i_%d: usize = 0; %swhile i_%d < n_%d " % (n, r[2], n, label, n, n),
                "let %s = i_%d; let %s = slot_mut(&mut %s, i_%d); i_%d = i_%d + 1;" % (i, n, x, r[1], n, n, n))
    if e.endswith("]"):
        e = "&" + e
    first = "{ let k: usize = %s; if k < it_%d.len() { k } else { it_%d.len() } }" % (skip, n, n) if skip else "0"
    return ("let it_%d = %s; let mut i_%d: usize = %s; %swhile i_%d < it_%d.len() " % (n, e, n, first, label, n, n),
            "let %s = i_%d; let %s = &it_%d[i_%d]; i_%d = i_%d + 1;" % (i, n, x, n, n, n, n))


def substitute(body, d):
    # debug_assert_eq!(a, b) compares; keep both operands
    def eq(text):
        while True:
            mk = mask(text)
            t = re.search(r"\b(?:debug_)?assert(?:_(eq|ne))?!\(", mk)
            if not t:
                return text
            c = close(mk, t.end() - 1)
            if not t[1]:
                x, y = operands(mk, t.end(), c)[0]
                text = text[:t.start()] + "check(" + text[x:y] + text[c:]
                continue
            inner = mk[t.end():c]
            depth, cut = 0, []
            for k, ch in enumerate(inner):
                depth += ch in "([{"
                depth -= ch in ")]}"
                if ch == "," and depth == 0:
                    cut.append(k)
            a = text[t.end():t.end() + cut[0]]
            b = text[t.end() + cut[0] + 1: t.end() + cut[1] if len(cut) > 1 and inner[cut[1]:].strip(" \n,") else c].strip().rstrip(",")
            text = text[:t.start()] + "check((%s) %s (%s))" % (a.strip(), "==" if t[1] == "eq" else "!=", b.strip()) + text[c + 1:]
    body = eq(body)
    for a, b in GLOBAL_SUBS:
        body = re.sub(a, b, body)
    for a, b in d.calls:
        body = calls(body, a, b)
    if d.typed:
        body = typed(body, d.typed)
    for a, b in d.subs:
        body = replace(body, a, b)
    if d.cast:
        body = re.sub(r"\s+as\s+\*\s*(?:mut|const)\s+(\w+)", r".cast::<\1>()", body)
    return body


# The lemmas, in parts that are verified at the same time.
LEMMAS = ["lemmas/1", "lemmas/2"]


class Unit:
    def __init__(self, template=TEMPLATE):
        self.items = parse_template(open(template).read())
        self.sources, self.texts = {}, {}
        self.fns = [d for d in self.items if not isinstance(d, str) and d.kind == "fn"]
        self.keys = [d.key for d in self.fns if d.trusted is None]
        assert len(set(self.keys)) == len(self.keys), "keys not unique"

    def source(self, path):
        if path not in self.sources:
            try:
                self.sources[path] = Source(path)
            except OSError as e:
                raise Lost("cannot read %s" % path)
        return self.sources[path]

    def extracted(self, d):
        if d.key not in self.texts:
            try:
                self.texts[d.key] = self.source(d.path).function(d.impl, d.name)
            except Lost as e:
                self.texts[d.key] = e
        if isinstance(self.texts[d.key], Lost):
            raise self.texts[d.key]
        return self.texts[d.key]

    def generate(self, target):
        """Text of the crate in which `target` (a key, or a set of them) keeps its body / lemmas keep their proofs."""
        out = []
        targets = {target} if isinstance(target, str) else target
        nth = 0
        for d in self.items:
            if isinstance(d, str):
                if d.strip() == "//@lemma":
                    d = "" if LEMMAS[nth % len(LEMMAS)] in targets else "#[verifier::external_body]\n"
                    nth += 1
                out.append(d)
            elif d.kind == "const":
                out.append(self.source(d.path).const(d.name) + "\n")
            elif d.kind == "macro":
                text = self.source(d.path).macro(d.name)
                for a, b in MACRO_SUBS:
                    text = text.replace(a, b)
                out.append(text + "\n")
            elif d.kind == "struct":
                out.append(self.source(d.path).struct(d.name, d.ghost) + "\n")
            else:
                try:
                    sig, body = self.extracted(d)
                except Lost:
                    if d.key in targets:
                        raise
                    continue  # functions calling it become undecided
                for a, b in d.subs:
                    sig = replace(sig, a, b)
                for a, b in GROUP_TYPES:
                    sig = re.sub(a, b, sig)
                sig = signature(sig, d.ret, d.result)
                spec = d.parts["spec"]
                if d.key in targets:
                    b = substitute(annotate(body, d), d)
                    # what holds before a loop and is not touched by it stays known in and after it
                    attrs = d.attrs + (["#[verifier::loop_isolation(false)]"] if any(x.startswith("loop ") for x in d.parts) else [])
                    out.append("// BEGIN %s\n%s%s\n%s{%s}\n// END\n" % (d.key, "".join(a + "\n" for a in attrs), sig, spec, b))
                else:
                    out.append("#[verifier::external_body]\n%s\n%s{ unimplemented!() }\n" % (sig, spec))
        return "".join(out)

    def weight(self, key):
        if key not in LEMMAS:
            return 1
        n = sum(isinstance(d, str) and d.strip() == "//@lemma" for d in self.items)
        return len(range(LEMMAS.index(key), n, len(LEMMAS)))

    def unknown_calls(self, key):
        """Functions of the crate the function calls that have no contract in the template."""
        d = next(x for x in self.fns if x.key == key)
        src = self.source(d.path)
        _, body = src.function(d.impl, d.name)
        called = set(re.findall(r"\b(\w+)\s*(?:::<[^>]*>)?\(", mask(body)))
        text = "".join(x for x in self.items if isinstance(x, str))
        known = set(re.findall(r"\bfn\s+(\w+)", text)) | {x.name for x in self.fns}
        return sorted((called & src.names()) - known)


def run(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, cwd=OUT)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", ""


def one(unit, key, timeout, deadline):
    """An obligation not discharged is tried again with another seed of the solver and twice the resources."""
    left = deadline - time.time()
    if left < 5:
        return dict(name=key, functions=[key] if key not in LEMMAS else [], status="undecided", verified=0, failures=[], time=0.0, reason="time used up")
    r = once(unit, key, min(timeout, left), 30, 0)
    left = deadline - time.time()
    if (r["status"] == "failed" or r["reason"] == "solver resource limit") and left > 5:
        q = once(unit, key, min(timeout, left), 60, 7)
        if q["status"] == "proved" or r["status"] == "undecided":
            q["time"] += r["time"]
            return q
    return r


def once(unit, key, timeout, rlimit, seed):
    r = dict(name=key, functions=[key] if key not in LEMMAS else [], status="undecided", verified=0, failures=[], time=0.0, reason="")
    t0 = time.time()
    try:
        text = unit.generate(key)
    except Lost as e:
        r["reason"] = "annotations do not attach: %s" % e
        return r
    path = os.path.join(OUT, re.sub(r"\W+", "_", key) + ".rs")
    with open(path, "w") as f:
        f.write(text)
    code, o, e = run(["verus", path, "--crate-type=lib", "--output-json", "--rlimit", str(rlimit), "--multiple-errors", "5", "--num-threads", "2",
                   "--smt-option", "smt.random_seed=%d" % seed], timeout)
    r["time"] = time.time() - t0
    if code is None:
        r["reason"] = "not finished in %d s" % timeout
        return r
    try:
        res = json.loads(o[o.index("{"):])["verification-results"]
    except Exception:
        r["reason"] = "no verdict: " + e[-300:]
        return r
    msgs = [m for m in re.split(r"\n(?=error)", "\n" + e) if m.startswith("error")]
    if res.get("encountered-vir-error") or "errors" not in res or res.get("encountered-error") and not res.get("errors"):
        r["reason"] = "outside the verifier's subset: " + (msgs[0][:400] if msgs else e[-300:])
        return r
    if code == 0 and res["errors"] == 0:
        r["status"], r["verified"] = "proved", unit.weight(key)
        return r
    r["verified"] = 0
    if re.search(r"Resource limit|rlimit", e):
        r["reason"] = "solver resource limit"
        return r
    msgs = [m for m in msgs if not m.startswith("error: aborting")]
    try:
        unknown = unit.unknown_calls(key) if key not in LEMMAS else []
    except Lost:
        unknown = []
    if unknown:
        r["reason"] = "calls %s, which has no contract" % ", ".join(unknown)
        return r
    # a closure without a contract says nothing to its caller
    own = text[text.find("// BEGIN %s\n" % key):]
    if re.search(r"[(,=]\s*(?:move\s+)?\|[^|]*\|(?!\s*->)", mask(own[:own.find("\n// END")])):
        r["reason"] = "a closure has no contract"
        return r
    r["status"] = "failed"
    r["failures"] = msgs
    return r


def keys():
    return Unit().keys + LEMMAS


def batch(unit, names, timeout):
    """Results for those of the names that one run, of all of them together, proves. A function the verifier does not take
    is left out and the run repeated."""
    out = []
    names = list(names)
    for again in range(5):
        try:
            text = unit.generate(frozenset(names))
        except Lost:
            names = [n for n in names if attaches(unit, n)]
            continue
        if not names:
            break
        path = os.path.join(OUT, "batch_%s.rs" % hashlib.sha1(" ".join(names).encode()).hexdigest()[:12])
        with open(path, "w") as f:
            f.write(text)
        code, o, e = run(["verus", path, "--crate-type=lib", "--output-json", "--time-expanded", "--rlimit", "30", "--num-threads", "2"], timeout)
        try:
            j = json.loads(o[o.index("{"):])
            res = j["verification-results"]
            if res.get("encountered-vir-error") or "errors" not in res or code != 0 and not res["errors"]:
                bad = located(text, path, e)
                if not bad:
                    break
                names = [n for n in names if n not in bad]
                continue
            times, broken = {}, set()
            for m in j["times-ms"]["smt"]["smt-run-module-times"]:
                for x in m["function-breakdown"]:
                    f = x["function"].split("::")[-1]
                    times.setdefault(f, []).append(x["time"] / 1000.0)
                    if x["success"] is not True:
                        broken.add(f)
        except Exception:
            break
        fns = {n: fn_of(text, n) for n in names if n not in LEMMAS}
        if (code != 0 or res["errors"] or broken) and (not broken or broken - set(fns.values()) and not set(names) & set(LEMMAS)):
            break  # not clear what was proved
        for n in names:
            if n in LEMMAS:
                if broken:
                    continue
                t = sum(sum(v) for k, v in times.items() if k.startswith("lemma"))
            elif fns[n] in broken:
                continue
            else:
                v = times.get(fns[n], [0.0])
                t = sum(v) / len(v)
            out.append(dict(name=n, functions=[n] if n not in LEMMAS else [], status="proved", verified=unit.weight(n), failures=[], time=t, reason=""))
        break
    return out


def attaches(unit, key):
    try:
        unit.generate(key)
        return True
    except Lost:
        return False


def fn_of(text, key):
    t = re.compile(r"\bfn\s+(\w+)").search(text, text.find("// BEGIN %s\n" % key))
    return t[1]


def located(text, path, err):
    """Keys of the functions the errors point into."""
    at = [int(x) for x in re.findall(r"--> \S*%s:(\d+)" % re.escape(os.path.basename(path)), err)]
    bad, cur = set(), None
    for i, l in enumerate(text.split("\n"), 1):
        if l.startswith("// BEGIN "):
            cur = l[9:].strip()
        if i in at and cur:
            bad.add(cur)
        if l == "// END":
            cur = None
    return bad


def verify(names, timeout, jobs=6, total=570):
    """One result per name, after at most `total` seconds. Names are first tried in a few joint runs; where one is not
    accepted, one by one."""
    deadline = time.time() + total
    if not names:
        return []
    os.makedirs(OUT, exist_ok=True)
    unit = Unit()
    assert set(names) <= set(unit.keys) | set(LEMMAS), "no such contract"
    rest = [n for n in names if n not in LEMMAS]
    k = max(1, min(4, len(rest) // 8))
    groups = [g for g in [rest[i::k] for i in range(k)] + [[l] for l in LEMMAS if l in names] if g]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        got = list(ex.map(lambda g: batch(unit, g, min(timeout, total / 2)), groups))
        done = [x for r in got for x in r]
        proved = {x["name"] for x in done}
        todo = [n for n in names if n not in proved]
        done += list(ex.map(lambda n: one(unit, n, timeout, deadline), todo))
    return sorted(done, key=lambda r: names.index(r["name"]))


if __name__ == "__main__":
    import sys
    names = sys.argv[1:] or keys()
    if len(names) == 1 and names[0].endswith("*"):
        names = [k for k in keys() if k.startswith(names[0][:-1])]
    for r in verify(names, 300, 6):
        print("%-55s %-9s %3d verified %5.1f s  %s" % (r["name"], r["status"], r["verified"], r["time"], r["reason"]))
        for f in r["failures"]:
            print(f)
