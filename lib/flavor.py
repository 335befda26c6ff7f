"""A translator for the bitstream descriptions in /repo/src/mg/media/mp4/*.fl.

The MP4 / transport-stream code of mediagoom includes headers which its own
build generates with Flavor (deps/flavor, a git submodule that is empty here).
This module writes the same kind of header from the .fl files of the tree under
test: one C++ class per description, with get(IBitstream&) and put(IBitstream&).
Only what those descriptions use is supported; anything else is an error.
"""
import os
import re
import sys

TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*.*?\*/)
  | (?P<inc>%include[ \t]+"(?P<incf>[^"]+)")
  | (?P<pragma>%pragma[^\n]*)
  | (?P<verb>%(?P<vk>\.c|\.j|g|p|)\{(?P<vb>.*?)%(?P=vk)\})
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<chr>'(?:[^'\\]|\\.)*')
  | (?P<bin>0b[01.]+)
  | (?P<num>0[xX][0-9a-fA-F]+|\d+)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>\[\[|\]\]|\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^~!<>=?:;,.(){}\[\]])
''', re.X | re.S)


class Tok:
    __slots__ = ("k", "v", "x")

    def __init__(self, k, v, x=None):
        self.k, self.v, self.x = k, v, x


def lex(text):
    out, i = [], 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise SyntaxError("flavor: cannot read %r" % text[i:i + 40])
        i = m.end()
        k = m.lastgroup if m.lastgroup in ("ws", "lc", "bc") else None
        if m.group("ws") or m.group("lc") or m.group("bc"):
            continue
        if m.group("inc"):
            out.append(Tok("inc", m.group("incf")))
        elif m.group("pragma"):
            out.append(Tok("pragma", m.group("pragma")))
        elif m.group("verb"):
            out.append(Tok("verb", m.group("vb"), m.group("vk")))
        elif m.group("bin"):
            out.append(Tok("num", str(int(m.group("bin")[2:].replace(".", ""), 2))))
        elif m.group("num"):
            out.append(Tok("num", m.group("num")))
        elif m.group("str") or m.group("chr"):
            out.append(Tok("lit", m.group(0)))
        elif m.group("id"):
            out.append(Tok("id", m.group("id")))
        else:
            out.append(Tok("op", m.group("op")))
    # "]]" inside an ordinary subscript (a[b[i]]) never occurs in the tree
    return out


BASE = {"int", "char", "short", "bit", "unsigned", "uint64_t", "int64_t",
        "uint32_t", "double", "float", "long"}


class Gen:
    def __init__(self, toks, known, maps):
        self.t, self.i = toks, 0
        self.known, self.maps = known, maps
        self.array = 256
        self.out = []

    # ---- tokens
    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else Tok("end", "")

    def at(self, v, n=0):
        return self.peek(n).v == v and self.peek(n).k in ("op", "id")

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, v):
        if not self.at(v):
            raise SyntaxError("flavor: expected %r, got %s (after %s)" % (
                v, self.peek().v, " ".join(t.v for t in self.t[max(0, self.i - 12):self.i])))
        self.i += 1

    def until(self, *ends):
        """Tokens up to (not including) one of ends at depth 0."""
        depth, out = 0, []
        while True:
            t = self.peek()
            if t.k == "end":
                raise SyntaxError("flavor: end of file in an expression")
            if depth == 0 and t.k == "op" and t.v in ends:
                return out
            if t.k == "op":
                if t.v in ("(", "[", "{"):
                    depth += 1
                elif t.v == "[[":
                    depth += 2
                elif t.v in (")", "]", "}"):
                    depth -= 1
                elif t.v == "]]":
                    depth -= 2
            out.append(self.next())

    # ---- expressions
    def expr(self, toks, stream="var_bs"):
        out, k = [], 0
        while k < len(toks):
            t = toks[k]
            if t.k == "id" and t.v == "nextbits":
                out.append(stream + ".nextbits")
            elif t.k == "id" and t.v == "numbits":
                out.append(stream + ".getpos")
            elif t.k == "op" and t.v == "." and k and toks[k - 1].k == "id" \
                    and toks[k - 1].v in self.pointers:
                out.append("->")
            else:
                out.append(t.v)
            k += 1
        return " ".join(out).replace(" -> ", "->")

    # ---- file level
    def file(self):
        while self.peek().k != "end":
            t = self.peek()
            if t.k == "verb":
                self.next()
                if t.x in ("", ".c"):
                    self.out.append(t.v)
            elif t.k == "inc":
                self.next()
                self.out.append('#include "%s.h"' % t.v[:-3])
            elif t.k == "pragma":
                self.pragma()
            elif t.k == "id" and t.v in ("class", "abstract", "aligned"):
                self.klass()
            elif t.k == "id" and t.v == "map":
                self.map()
            elif t.k == "id" and t.v == "const":
                toks = self.until(";")
                self.eat(";")
                self.pointers = set()
                self.out.append(self.expr(toks).replace("const ", "const ", 1) + ";")
            elif self.at(";"):
                self.next()
            else:
                raise SyntaxError("flavor: unexpected %r at file level" % t.v)
        return "\n".join(self.out)

    def pragma(self):
        m = re.search(r"array\s*=\s*(\d+)", self.next().v)
        if m:
            self.array = int(m.group(1))

    def map(self):
        self.eat("map")
        name = self.next().v
        self.eat("(")
        self.until(")")
        self.eat(")")
        self.eat("{")
        rows, width = [], None
        while not self.at("}"):
            code = self.next()
            self.eat(",")
            value = self.next()
            rows.append((code.v, value.v))
            if self.at(","):
                self.next()
        self.eat("}")
        width = self.maps[name]
        o = self.out
        o.append("inline unsigned int __map_get_%s(IBitstream & b) { switch (b.getbits(%d)) {" % (name, width))
        o += ["case %s: return %s;" % r for r in rows]
        o.append("default: return 0; } }")
        o.append("inline void __map_put_%s(IBitstream & b, unsigned int v) { switch (v) {" % name)
        seen = set()
        for c, v in rows:
            if v not in seen:
                seen.add(v)
                o.append("case %s: b.putbits(%s, %d); return;" % (v, c, width))
        o.append('default: throw InvalidInput(_T(__FILE__), __LINE__); } }')

    def klass(self):
        aligned = None
        while not self.at("class"):
            if self.at("abstract"):
                self.next()
            elif self.at("aligned"):
                self.next()
                self.eat("(")
                aligned = self.next().v
                self.eat(")")
            else:
                raise SyntaxError("flavor: class expected")
        self.eat("class")
        name = self.next().v
        params, base, ident = [], None, False
        self.pointers = set()
        if self.at("("):
            self.next()
            if not self.at(")"):
                while True:
                    p = self.until(",", ")")
                    t = [x.v for x in p]
                    if any(x in self.known for x in t):
                        params.append((" ".join(t[:-1]) + " * ", t[-1]))
                    else:
                        params.append((" ".join(t[:-1]) + " ", t[-1]))
                    if self.at(","):
                        self.next()
                        continue
                    break
            self.eat(")")
        if self.at("extends"):
            self.next()
            base = self.next().v
        if self.at(":"):
            self.next()
            self.until("{")
            ident = True
        self.known.add(name)
        self.members, self.decls = {}, []
        self.eat("{")
        # classes chosen by an identifier are not used by the library: parse, drop
        start = self.i
        self.pre_pointers()
        get, put = [], []
        while not self.at("}"):
            self.stmt(get, put, True)
        self.eat("}")
        if self.at(";"):
            self.next()
        if ident or self.unused:
            return
        sig = ", ".join(["IBitstream & var_bs"] + [a + b for a, b in params])
        o = self.out
        o.append("class %s%s {\npublic:" % (name, " : public " + base if base else ""))
        for fn, body in (("get", get), ("put", put)):
            o.append("virtual int %s(%s) {" % (fn, sig))
            o.append("int var_ret = 0; int var_dim0 = 0, var_dim0_end = 0; (void)var_dim0; (void)var_dim0_end;")
            if base:
                o.append("%s::%s(var_bs);" % (base, fn))
            if aligned:
                o.append("var_bs.align(%s);" % aligned)
            o += body
            o.append("return var_ret;\n}")
        o += self.decls
        o.append("};\n")

    def pre_pointers(self):
        """Names of members whose type is a class (they are held by pointer)."""
        self.unused = False
        depth, k = 1, self.i
        while depth:
            t = self.t[k]
            if t.k == "op" and t.v == "{":
                depth += 1
            elif t.k == "op" and t.v == "}":
                depth -= 1
            elif t.k == "id" and t.v in self.known and self.t[k + 1].k == "id":
                self.pointers.add(self.t[k + 1].v)
            elif t.k == "id" and t.v == "lengthof":
                self.unused = True
            k += 1

    # ---- statements
    def declare(self, name, text):
        if name not in self.members:
            self.members[name] = text
            self.decls.append(text)

    def stmt(self, g, p, top=False):
        t = self.peek()
        if t.k == "verb":
            self.next()
            if t.x == "g":
                (g.append(t.v) if top else g.append("{" + t.v + "}"))
                if not top:
                    p.append("{}")
            elif t.x == "p":
                (p.append(t.v) if top else p.append("{" + t.v + "}"))
                if not top:
                    g.append("{}")
            elif t.x in ("", ".c"):
                self.decls.append(t.v)
            return
        if t.k == "pragma":
            self.pragma()
            return
        if self.at(";"):
            self.next()
            g.append(";")
            p.append(";")
            return
        if self.at("{"):
            self.next()
            g.append("{")
            p.append("{")
            while not self.at("}"):
                self.stmt(g, p, True)
            self.next()
            g.append("}")
            p.append("}")
            return
        if self.at("if") or self.at("while"):
            w = self.next().v
            self.eat("(")
            e = self.expr(self.until(")"))
            self.eat(")")
            for o in (g, p):
                o.append("%s (%s)" % (w, e))
            self.stmt(g, p)
            if w == "if" and self.at("else"):
                self.next()
                g.append("else")
                p.append("else")
                self.stmt(g, p)
            return
        if self.at("for"):
            self.next()
            self.eat("(")
            a = self.expr(self.until(";"))
            self.eat(";")
            b = self.expr(self.until(";"))
            self.eat(";")
            c = self.expr(self.until(")"))
            self.eat(")")
            for o in (g, p):
                o.append("for (%s; %s; %s)" % (a, b, c))
            self.stmt(g, p)
            return
        if self.at("skipbits"):
            self.next()
            self.eat("(")
            e = self.expr(self.until(")"))
            self.eat(")")
            self.eat(";")
            g.append("var_bs.skipbits(%s);" % e)
            p.append("for (int __k = (%s); __k > 0; --__k) var_bs.putbits(0, 1);" % e)
            return
        if self.at("nextcode"):
            self.next()
            self.eat("(")
            self.eat("aligned")
            self.eat("(")
            al = self.next().v
            self.eat(")")
            self.eat(",")
            e = self.until(")")
            self.eat(")")
            self.eat(";")
            bits = 4 * (len(e[0].v) - 2)
            g.append("var_bs.nextcode(%s, %d, %s);" % (e[0].v, bits, al))
            p.append("var_bs.align(%s);" % al)
            return
        if t.k == "id" and (t.v in BASE or t.v in ("const", "aligned", "little")):
            return self.variable(g, p)
        if t.k == "id" and t.v in self.known and self.peek(1).k == "id":
            return self.object(g, p)
        toks = self.until(";")
        self.eat(";")
        e = self.expr(toks)
        g.append(e + ";")
        p.append(e + ";")

    def object(self, g, p):
        cls, name = self.next().v, self.next().v
        args = ""
        if self.at("("):
            self.next()
            args = self.expr(self.until(")"))
            self.eat(")")
        self.eat(";")
        self.declare(name, "%s * %s;" % (cls, name))
        a = ", " + args if args.strip() else ""
        g.append("{ %s = new %s; %s->get(var_bs%s); }" % (name, cls, name, a))
        p.append("{ %s->put(var_bs%s); }" % (name, a))

    def variable(self, g, p):
        aligned, little, words = None, False, []
        while self.peek().k == "id" and (self.peek().v in BASE or self.peek().v in ("const", "aligned", "little")):
            v = self.next().v
            if v == "aligned":
                self.eat("(")
                aligned = self.next().v
                self.eat(")")
            elif v == "little":
                little = True
            elif v != "const":
                words.append(v)
        ctype = " ".join(words)
        if self.at("("):
            self.next()
            w = self.until(")")
            self.eat(")")
            name = self.next().v
            sub, loops = "", []
            dims = 0
            partial = False
            while self.at("[[") or self.at("["):
                partial = self.next().v == "[["
                e = self.expr(self.until("]]" if partial else "]"))
                self.next()
                dims += 1
                if partial:
                    sub += "[%s]" % e
                else:
                    sub += "[__d%d]" % dims
                    loops.append("for (unsigned int __d%d = 0; __d%d < (unsigned int)(%s); ++__d%d)" % (dims, dims, e, dims))
                    size = e if e.isdigit() else None
            init = None
            if self.at("="):
                self.next()
                init = self.expr(self.until(";"))
            self.eat(";")
            signed = ctype in ("int", "char", "short")
            store = "unsigned int" if ctype == "bit" else ctype
            extent = ""
            for d in range(dims):
                extent += "[%s]" % (size if loops and d == dims - 1 and size else self.array)
            self.declare(name, "%s %s%s;" % (store, name, extent))
            var = name + sub
            head = "{ " + ("var_bs.align(%s); " % aligned if aligned else "")
            if len(w) == 1 and w[0].v in self.maps:
                g.append("%s%s = __map_get_%s(var_bs); }" % (head, var, w[0].v))
                p.append("%s__map_put_%s(var_bs, %s); }" % (head, w[0].v, var))
                return
            n = self.expr(w)
            loop = " ".join(loops)
            fn = "little_getbits" if little else ("sgetbits" if signed else "getbits")
            # a partial array's subscript may have a side effect: name it once
            g.append("%s%s %s = (%s)var_bs.%s(%s); }" % (head, loop, var, store, fn, n))
            pn = "little_putbits" if little else "putbits"
            fix = "%s = (%s)(%s); " % (var, store, init) if init is not None else ""
            if fix and ("++" in var or "--" in var):
                raise SyntaxError("flavor: side effect in a subscript with a fixed value")
            p.append("%s%s { %svar_bs.%s(%s, %s); } }" % (head, loop, fix, pn, var, n))
            return
        name = self.next().v
        dims = ""
        while self.at("["):
            self.next()
            dims += "[%s]" % self.expr(self.until("]"))
            self.eat("]")
        init = None
        if self.at("="):
            self.next()
            init = self.expr(self.until(";"))
        self.eat(";")
        self.declare(name, "%s %s%s;" % (ctype, name, dims))
        if init is not None:
            if dims:
                vals = init.strip().strip("{}").split(",")
                s = "".join("%s[%d] = %s; " % (name, k, v) for k, v in enumerate(vals))
            else:
                s = "%s = %s;" % (name, init)
            g.append(s)
            p.append(s)
        else:
            g.append(";")
            p.append(";")




def translate(path, known):
    """(header text, includes)"""
    text = open(path, encoding="latin-1").read().replace("\r", "")
    toks = lex(text)
    maps = {}
    # the code length of a map is the length of its binary literals
    for m in re.finditer(r"\bmap\s+(\w+)\s*\([^)]*\)\s*\{\s*0b([01]+)", text):
        maps[m.group(1)] = len(m.group(2))
    g = Gen(toks, known, maps)
    return g.file()


def generate(src, out):
    """Translate every .fl of directory src into out/<name>.h"""
    os.makedirs(out, exist_ok=True)
    known, done = set(), set()

    def one(name):
        if name in done:
            return
        done.add(name)
        path = os.path.join(src, name + ".fl")
        for m in re.finditer(r'^%include\s+"(\w+)\.fl"', open(path, encoding="latin-1").read(), re.M):
            one(m.group(1))
        body = translate(path, known)
        with open(os.path.join(out, name + ".h"), "w", encoding="latin-1") as f:
            f.write("#pragma once\n" + body + "\n")

    for f in sorted(os.listdir(src)):
        if f.endswith(".fl"):
            one(f[:-3])


if __name__ == "__main__":
    generate(sys.argv[1], sys.argv[2])
