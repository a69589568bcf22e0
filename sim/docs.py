"""Seeded generator of Bicep documents.

A document is a list of chunks; each chunk is one top level declaration (with its decorators and the blank or
comment lines in front of it) and ends with a newline.  Every name and most values carry a tag that is unique to
the document, so anything of one document that shows up in the outcome of another one is attributable.
"""

from __future__ import annotations

import ast
import os
import random
import re

UNI = ["é", "ß", "Ж", "漢", "😀", "\u2028", "ﬁ", "İ", "\u00a0", "𝒳"]

ARITY = {
    "deployment": (0,), "environment": (0,), "tenant": (0,), "newGuid": (0,), "utcNow": (0, 1), "resourceGroup": (0, 1, 2),
    "subscription": (0, 1), "managementGroup": (0, 1),
    "any": (1,), "array": (1,), "empty": (1,), "first": (1,), "flatten": (1,), "last": (1,), "length": (1,),
    "dateTimeFromEpoch": (1,), "dateTimeToEpoch": (1,), "bool": (1,), "base64": (1,), "base64ToJson": (1,),
    "base64ToString": (1,), "dataUri": (1,), "dataUriToString": (1,), "string": (1,), "toLower": (1,), "toUpper": (1,),
    "trim": (1,), "uriComponent": (1,), "uriComponentToString": (1,), "json": (1,), "loadFileAsBase64": (1,), "int": (1,),
    "loadTextContent": (1, 2), "loadJsonContent": (1, 2, 3), "loadYamlContent": (1, 2, 3),
    "contains": (2,), "range": (2,), "skip": (2,), "take": (2,), "endsWith": (2,), "indexOf": (2,), "lastIndexOf": (2,),
    "split": (2,), "join": (2,), "startsWith": (2,), "uri": (2,), "listKeys": (2,), "filter": (2,),
    "dateTimeAdd": (2, 3), "padLeft": (2, 3), "substring": (2, 3), "replace": (3,), "pickZones": (3, 4, 5),
    "reference": (1, 2, 3), "concat": (1, 2, 3, 4), "max": (1, 2, 3), "min": (1, 2, 4), "intersection": (2, 3),
    "union": (2, 3, 5), "format": (1, 2, 3), "guid": (1, 2, 3), "uniqueString": (1, 2, 4),
    "resourceId": (2, 3, 4, 5, 6, 7), "extensionResourceId": (3, 4), "subscriptionResourceId": (2, 3, 4),
    "tenantResourceId": (2, 3), "managementGroupResourceId": (2, 3),
}
AZ = ["deployment", "environment", "tenant", "resourceGroup", "subscription", "managementGroup", "listKeys", "pickZones",
      "reference", "resourceId", "extensionResourceId", "subscriptionResourceId", "tenantResourceId",
      "managementGroupResourceId"]
NAMES = sorted(ARITY)
PROVIDERS = ["Microsoft.Storage/storageAccounts", "Microsoft.Network/virtualNetworks", "Microsoft.Web/sites",
             "Microsoft.KeyVault/vaults", "Microsoft.Compute/virtualMachines", "Microsoft.Sql/servers"]
CHILD_TYPES = ["subnets", "fileServices", "shares", "secrets", "databases", "slots", "config"]
# text that some function or other gives a meaning of its own
ODD = ["$HOME/{0}", "$USER{0}", "%USER%{0}", "$TZ", "~root/{0}", "~/{0}", "%41{0}", "{0} %s %d", "{{0}} {0}", "\\\\n{0}", "{0}\\n", "&lt;{0}", "{0};", " {0} ", "{0}.", "../{0}/./x", "1{0}", "C:{0}", "{0} ", "{0}//x",
       "\\u{{1F600}}{0}", "/{0}/", "{0}@sys.x", "#{0}"]
BORROWED = ["concat", "toLower", "resourceId", "max", "format", "range", "items", "filter", "map", "union", "string", "int", "bool", "object", "description",
            "secure", "allowed", "minValue", "export", "name", "id", "resource", "param", "existing", "sys", "az", "arg_1", "parent", "scope", "dependsOn",
            "__init__", "__class__", "data", "children", "self", "items", "keys", "type", "environment", "subscription"]
UNKNOWN = ["other{0}", "sys.future{0}", "az.future{0}", "ns{0}.doIt", "k8s.get", "cidrHost", "sys.cidrHost", "toObject", "az.toLogicalZone", "x", "ToLower", "CONCAT"]
VERSIONS = ["2021-04-01", "2019-06-01", "2022-09-01-preview", "2020-11-01"]


_words: list[str] = []


def dictionary(names: bool = False) -> list[str]:
    """Words that the library's own code mentions, as a fuzzer's dictionary."""
    if not _words:
        found = {"x", "sys", "az"}
        root = os.path.join(os.environ.get("SIM_REPO", "/repo"), "pycep")
        for here, dirs, files in os.walk(root):
            dirs.sort()
            for n in sorted(files):
                if not n.endswith(".py"):
                    continue
                try:
                    with open(os.path.join(here, n), encoding="utf-8") as f:
                        tree = ast.parse(f.read())
                except (OSError, ValueError, SyntaxError):
                    continue
                found.update(x.value.strip(" @:.") for x in ast.walk(tree) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        _words.extend(sorted(w for w in found if re.fullmatch(r"[A-Za-z_][\w./-]{0,30}", w, re.ASCII)))
    return [w for w in _words if re.fullmatch(r"\w+", w) and w not in KEYWORDS] if names else _words


class Gen:
    def __init__(self, rng: random.Random, tag: str, unicode: float = 0.2, depth: int = 3) -> None:
        self.r = rng
        self.tag = tag
        self.n = 0
        self.uni = unicode
        self.depth = depth
        # a quoted interpolation followed by a multi-line string can make the lexer's recursive regular expression
        # backtrack exponentially (see DESIGN.md, N09), so one document uses one of the two
        self.interp = rng.random() < 0.55
        self.lent = rng.random() < 0.12
        self.said: list[str] = []                       # expressions and types used before; equal ones are apt to be confused with one another
        self.typed: list[str] = []
        self.plain = False                              # multi-line strings only as the whole value of a variable

    # -- small pieces -----------------------------------------------------------------------------
    def p(self, x: float) -> bool:
        return self.r.random() < x

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def name(self, kind: str) -> str:
        self.n += 1
        if self.lent and self.p(0.25):          # the name of something built in, of a keyword or of another kind of declaration
            return self.pick(BORROWED if self.p(0.6) else dictionary(True))
        return f"{kind}_{self.tag}_{self.n}"

    def ref(self) -> str:
        return f"ref_{self.tag}_{self.r.randrange(6)}"

    def s(self) -> str:
        r = self.r.randrange(9)
        u = self.pick(UNI) if self.p(self.uni) else ""
        if r == 0:
            if self.p(0.15):
                return f"'{self.pick(dictionary())}'"
            return "''" if self.p(0.5) else f"'{self.pick(ODD).format(self.tag)}'"
        if r in (1, 4) and not self.interp:
            return f"'plain {self.tag}{u}'"
        if r == 1:
            return f"'${{{self.ref()}}}-{u}x{self.r.randrange(100)}'"
        if r == 2:
            return f"'it\\'s {self.tag}{u}'"
        if r == 3:
            return f"'{self.tag}.{self.r.randrange(1000)}'"
        if r == 4:
            return f"'a-${{toLower('{self.tag}')}}-b{u}'"
        if r == 5:
            return f"'http://{self.tag}.example/{u}?q={self.r.randrange(10)}'"
        return f"'{self.tag}{u} v{self.r.randrange(1000)}'"

    def ml(self) -> str:
        if self.interp:
            return self.s()
        u = self.pick(UNI) if self.p(self.uni) else ""
        body = self.pick([f"\n{self.tag}\n  line{u} 2\n", f"{self.tag} one {u}line", f"\n\n{self.tag} 'quoted' \n",
                          f"\n{{ {self.tag}: [1] }} // no comment\n"])
        return f"'''{body}'''"

    def lit(self) -> str:
        r = self.r.randrange(10)
        if r < 4:
            return self.s()
        if r == 4:
            return str(self.r.randrange(10 ** self.r.randrange(1, 12)))
        if r == 5:
            return "true"
        if r == 6:
            return "false"
        if r == 7:
            return "null"
        return self.ref()

    def call(self, d: int) -> str:
        r = self.r.randrange(9)
        if r < 7:
            f = self.pick(NAMES)
            n = self.pick(ARITY[f])
            pre = "" if self.p(0.8) else ("az." if f in AZ else "sys.")
            args = [self.expr(d - 1) if self.p(0.6) else self.lit() for _ in range(n)]
            return f"{pre}{f}({', '.join(args)})"
        if r == 7:
            n = self.r.randrange(0, 4)
            f = f"custom{self.tag}" if self.p(0.5) else self.pick(UNKNOWN).format(self.tag)
            return f"{f}({', '.join(self.expr(d - 1) for _ in range(n))})"
        if self.p(0.5):
            return f"{self.pick(['filter', 'map'])}({self.ref()}, item => {self.expr(d - 1)})"
        return f"{self.pick(['reduce', 'sort'])}({self.ref()}, (cur{self.tag}, nxt, third) => {self.expr(d - 1)})"

    def op(self, d: int) -> str:
        a, b = self.expr(d - 1), self.expr(d - 1)
        r = self.r.randrange(8)
        if r == 0:
            return f"({a} ? {b} : {self.expr(d - 1)})"
        if r == 1:
            return f"!{a}" if a.startswith("(") else f"!({a})"
        if r == 2:
            return f"-{self.r.randrange(1, 99)}"
        q = "?" if self.p(0.2) else ""
        if r == 3:
            return f"{self.ref()}.{q}{'prop' + str(self.r.randrange(9)) if self.p(0.9) else self.pick(dictionary(True))}.{self.pick(['id', 'name', 'x'])}"
        if r == 4:
            return f"{self.ref()}[{q}{self.pick([str(self.r.randrange(9)), self.s()])}]{self.pick(['', '', '.id', '!'])}"
        if r == 5:
            return f"{self.ref()}.{self.pick(['listKeys', 'listSecret', 'getSecret', 'list'])}({self.s()}, {self.s()}{', ' + self.s() if q else ''})"
        if r == 6:
            return f"{self.ref()}::{self.ref()}{'::' + self.ref() if q else ''}"
        if r == 7 and self.p(0.3):
            o = self.pick(["&&", "||", "??", "+", "-", "*"])
            return "(" + f" {o} ".join(self.lit() for _ in range(self.r.randrange(3, 5))) + ")"
        o = self.pick([">=", ">", "<=", "<", "==", "!=", "=~", "!~", "&&", "||", "??", "+", "/", "%", "*", "-"])
        return f"({a} {o} {b})"

    def expr(self, d: int) -> str:
        if self.said and self.p(0.06):
            return self.pick(self.said)
        e = self.new_expr(d)
        if 8 < len(e) < 160 and "'''" not in e:
            self.said.append(e)
        return e

    def new_expr(self, d: int) -> str:
        if d <= 0 or self.p(0.45):
            return self.lit()
        r = self.r.randrange(10)
        if r < 4:
            return self.call(d)
        if r < 7:
            return self.op(d)
        if r == 7:
            return self.arr(d - 1)
        if r == 8:
            return self.obj(d - 1, 0)
        return self.ml() if self.p(0.5) and not self.plain else self.lit()

    def arr(self, d: int) -> str:
        n = self.r.randrange(0, 4)
        if n == 0:
            return "[]"
        items = [self.expr(d - 1) if self.p(0.5) else self.lit() for _ in range(n)]
        if self.p(0.4):
            return "[" + ", ".join(i for i in items) + "]"
        return "[\n" + "".join(f"  {i}\n" for i in items) + "]"

    def pairs(self, d: int, n: int, ind: str) -> str:
        out = ""
        for i in range(n):
            k = self.pick([f"key{i}", f"'k.{self.tag}.{i}'", f"'${{{self.ref()}}}{i}'" if self.interp else f"kk{i}", f"p_{i}_{self.tag}",
                           "resource" if self.p(0.2) else f"q{i}"])
            if self.p(0.12) and d > 0:
                v = self.loop(d - 1, ind + "  ")
            elif self.p(0.25) and d > 0:
                v = self.obj(d - 1, 0, ind + "  ")
            else:
                v = self.expr(d)
            c = self.pick(["", "", "", "", f"  // {self.tag} c", "  # x", "  /* in line */"])
            out += f"{ind}{k}: {v}{c}\n"
        return out

    def obj(self, d: int, kids: int, ind: str = "  ") -> str:
        n = self.r.randrange(0, 5 if d > 0 else 3)
        if n == 0 and not kids:
            return "{}" if self.p(0.5) else "{\n}"
        body = self.pairs(d, n, ind)
        if kids:
            body += self.child(d, kids, ind)
        end = ind[:-2]
        if not kids and n <= 2 and self.p(0.1):
            ps = ", ".join(f"k{i}: {self.lit()}" for i in range(n))
            return "{ " + ps + " }"
        return "{\n" + body + end + "}"

    def child(self, d: int, kids: int, ind: str) -> str:
        ex = "existing " if self.p(0.25) else ""
        t = self.pick(CHILD_TYPES)
        if kids == 1 and self.p(0.12):
            return f"{ind}resource {self.name('child')} '{t}' {ex}= {self.loop(d - 1, ind + '  ')}\n"
        body = self.pairs(d - 1, self.r.randrange(1, 3), ind + "  ")
        if self.p(0.2):
            body += f"{ind}  depends_on: [\n{ind}    {self.ref()}\n{ind}  ]\n"
        if kids > 1:
            body += self.child(d - 1, kids - 1, ind + "  ")
        lead = f"\n{ind}// child {self.tag}\n" if self.p(0.3) else ""
        return f"{lead}{ind}resource {self.name('child')} '{t}' {ex}= {{\n{body}{ind}}}\n"

    def loop(self, d: int, ind: str = "  ") -> str:
        it = f"i{self.r.randrange(9)}"
        r = self.r.randrange(4)
        if r == 0:
            head = f"for {it} in {self.ref()}"
        elif r == 1:
            head = f"for ({it}, idx) in {self.ref()}"
        elif r == 2:
            head = f"for {it} in items{self.pick(['', ' '])}({self.ref()})"
        else:
            head = f"for {it} in range(0, {self.r.randrange(9)})"
        cond = f" if({self.ref()} == {self.lit()})" if self.p(0.3) else ""
        return f"[{head}:{cond} {{\n{self.pairs(d, self.r.randrange(1, 4), ind)}{ind[:-2]}}}]"

    def decos(self, kind: str) -> str:
        if not self.p(0.45):
            return ""
        out = []
        for _ in range(self.r.randrange(1, 4)):
            pre = "sys." if self.p(0.2) else ""
            c = self.r.randrange(12)
            out.append("@" + pre + [
                f"description({self.s()})",
                "secure()",
                f"minLength({self.r.randrange(9)})",
                f"maxLength({self.r.randrange(99)})",
                f"minValue(-{self.r.randrange(1, 9)})",
                f"minValue({self.r.randrange(9)})",
                f"maxValue({self.r.randrange(9)})",
                "allowed([\n  " + "\n  ".join(self.s() for _ in range(self.r.randrange(1, 4))) + "\n])",
                "metadata({\n  " + f"k_{self.tag}: {self.s()}" + "\n})",
                f"batchSize({self.r.randrange(1, 9)})",
                self.pick(["export()", "sealed()"]),
                f"unknown{self.r.randrange(5)}({self.pick(['', self.s()])})" if self.p(0.7) else f"{self.pick(dictionary(True))}({self.pick(['', self.s()])})",
            ][c] + "\n")
        return "".join(out)

    def dtype(self) -> str:
        if self.typed and self.p(0.3):
            return self.pick(self.typed)
        self.typed.append(self.new_dtype())
        return self.typed[-1]

    def new_dtype(self) -> str:
        return self.pick(["string", "int", "bool", "object", "array", "string[]", "int[][]", f"custom_{self.tag}",
                          "(string | int)", "(string | int[])[]"])

    def lead(self) -> str:
        r = self.r.randrange(14)
        return {0: "\n", 1: f"// {self.tag} comment 'x\n", 2: "\n\n", 3: "# hash comment\n",
                4: f"/* {self.tag}\n block */\n"}.get(r, "")

    # -- declarations ------------------------------------------------------------------------------
    def decl(self, kind: str) -> str:
        d = self.depth
        if kind == "scope":
            return f"targetScope = '{self.pick(['resourceGroup', 'subscription', 'managementGroup', 'tenant'])}'\n"
        if kind == "param":
            dv = f" = {self.expr(d)}" if self.p(0.55) else ""
            opt = "?" if self.p(0.15) else ""
            return f"{self.decos(kind)}param {self.name('p')} {self.dtype()}{opt}{dv}\n"
        if kind == "var":
            v = self.loop(d - 1) if self.p(0.2) else (self.ml() if self.p(0.12 if self.interp or self.plain else 0.4) else self.expr(d))
            ty = f" {self.dtype()}{self.pick(['', '?'])}" if self.p(0.15) else ""
            return f"{self.decos(kind)}var {self.name('v')}{ty} = {v}\n"
        if kind == "output":
            v = self.loop(d - 1) if self.p(0.15) else self.expr(d)
            return f"{self.decos(kind)}output {self.name('o')} {self.dtype()} = {v}\n"
        if kind == "resource":
            t = f"'{self.pick(PROVIDERS)}@{self.pick(VERSIONS)}'"
            ex = "existing " if self.p(0.15) else ""
            r = self.r.randrange(10)
            kids = self.pick([0, 0, 0, 0, 1, 1, 1, 2, 3, 5])
            if r < 6:
                v = self.obj(d, kids)
            elif r < 8:
                v = self.loop(d - 1)
            else:
                v = f"if ({self.expr(1)}) {self.obj(d, kids if self.p(0.3) else 0)}"
            return f"{self.decos(kind)}resource {self.name('r')} {t} {ex}= {v}\n"
        if kind == "module":
            path = self.pick([f"./mod/{self.tag}.bicep", "./" + self.pick(["$HOME", "$USER", "${TMPDIR}", "%TEMP%", "~", "..", "$LC_ALL", "~root", "$PWD", "é", " "]) + f"/{self.tag}.bicep", f"br/{self.pick(['alias' + self.tag, 'public', self.pick(['public', 'Public', 'PUBLIC', 'publi\u00e7', 'public2'])])}:path/{self.tag}/m:v1.{self.r.randrange(9)}",
                              f"br:mcr.microsoft.com/bicep/{self.tag}:1.0.{self.r.randrange(9)}",
                              f"br:reg{self.tag}.azurecr.io/bicep/modules/m:v{self.r.randrange(9)}",
                              f"ts/alias{self.tag}:spec{self.r.randrange(9)}:v1",
                              f"ts:11111111-2222-3333-4444-555555555555/rg-{self.tag}/spec:v{self.r.randrange(9)}"])
            v = self.loop(d - 1) if self.p(0.2) else self.obj(d, 0)
            if self.p(0.15):
                v = f"if ({self.ref()}) {v}" if v.startswith("{") else v
            return f"{self.decos(kind)}module {self.name('m')} '{path}' = {v}\n"
        if kind == "import":
            r = self.r.randrange(4)
            f = f"'./{self.tag}/i{self.r.randrange(99)}.bicep'"
            if r == 0:
                return f"import {{{self.name('i')}, {self.name('i')} as al_{self.tag}}} from {f}\n"
            if r == 1:
                return f"import * as {self.name('i')} from {f}\n"
            if r == 2:
                return f"import 'kubernetes{self.tag}@1.0.{self.r.randrange(9)}'\n"
            return f"import {{ {self.name('i')} }} from {f}\n"
        if kind == "extension":
            w = " with {\n  namespace: 'default'\n  kubeConfig: " + self.s() + "\n}" if self.p(0.4) else ""
            a = f" as al_{self.tag}" if self.p(0.4) else ""
            return f"extension {self.name('e')}{w}{a}\n"
        if kind == "metadata":
            return f"metadata {self.name('md')} = {self.s()}\n"
        if kind == "type":
            v = self.pick([f"'{self.tag}' | 'b' | 'c'", "string[]", "int", "{\n  name: string\n  size: int?\n}",
                           "1 | 2 | 3", f"custom_{self.tag}"])
            if v == "string[]":
                v = "string"
            return f"{self.decos(kind)}type {self.name('t')} = {v}\n"
        if kind == "func":
            a = ", ".join(f"a{i} {self.dtype()}" for i in range(self.r.randrange(0, 4)))
            return f"{self.decos(kind)}func {self.name('f')}({a}) {self.dtype()} => {self.expr(2)}\n"
        raise AssertionError(kind)


def full(g: Gen) -> list[str]:
    """Everything once or twice, in a fixed order."""
    out = []
    for f in NAMES:
        pre = "" if g.p(0.8) else ("az." if f in AZ else "sys.")
        out.append(f"var {g.name('v')} = {pre}{f}({', '.join(g.lit() for _ in range(g.pick(ARITY[f])))})\n")
    g.depth = 1
    for k in KINDS[1:]:
        out += [g.decl(k), g.decl(k)]
    for _ in range(16):
        out.append(f"var {g.name('v')} = {g.op(1)}\n")
    return out


def catalog(g: Gen) -> list[str]:
    """Many small declarations, each of which uses another function, operator or decorator."""
    out = []
    for f in g.r.sample(NAMES, g.r.randrange(6, 26)):
        n = g.pick(ARITY[f])
        pre = "" if g.p(0.8) else ("az." if f in AZ else "sys.")
        out.append(f"var {g.name('v')} = {pre}{f}({', '.join(g.lit() for _ in range(n))})\n")
    g.depth = 1
    for _ in range(g.r.randrange(3, 12)):
        out.append(f"var {g.name('v')} = {g.op(1)}\n" if g.p(0.6) else f"{g.decos('param')}param {g.name('p')} {g.dtype()}\n")
    for k in g.r.sample(KINDS[1:], g.r.randrange(1, 5)):
        out.append(g.decl(k))
    if not g.interp:
        out += [f"var {g.name('v')} = {g.ml()}\n" for _ in range(g.r.randrange(1, 4))]
    g.r.shuffle(out)
    return out


KINDS = ["scope", "param", "var", "output", "resource", "module", "import", "extension", "metadata", "type", "func"]
WEIGHTS = [1, 5, 5, 3, 7, 3, 3, 2, 2, 2, 2]

BROKEN = [
    # (what, chunk) - each makes the document it is put into fail in another layer
    ("lexer", "param x_{t} string = ^\n"),
    ("parser", "param = {t}\n"),
    ("eof", "var x_{t} = [\n  1\n"),
    ("validator", "var x_{t} = '''\nopen {t}\n"),
    ("scope", "targetScope = 'planet{t}'\n"),
    ("type_api", "resource x_{t} 'Microsoft.Web/sites' = {{\n  name: '{t}'\n}}\n"),
    ("module_br", "module x_{t} 'br:nowhere/{t}:v1' = {{\n  name: '{t}'\n}}\n"),
    ("module_ts", "module x_{t} 'ts:{t}' = {{\n  name: '{t}'\n}}\n"),
    ("module_br_alias", "module x_{t} 'br/{t}' = {{\n  name: '{t}'\n}}\n"),
    ("module_ts_alias", "module x_{t} 'ts/{t}' = {{\n  name: '{t}'\n}}\n"),
    ("arity", "var x_{t} = contains('{t}')\n"),
    ("arity_in_child", "resource x_{t} 'Microsoft.Web/sites@2020-01-01' = {{\n  name: 'a'\n  resource c_{t} 'slots' = {{\n"
                       "    name: skip('{t}')\n  }}\n}}\n"),
    ("late_child", "resource x_{t} 'Microsoft.Web/sites@2020-01-01' = {{\n  name: 'a'\n  resource c_{t} 'slots' = {{\n"
                   "    name: 'b'\n  }}\n}}\nimport {{i_{t}}} from './{t}.bicep'\ntargetScope = 'moon'\n"),
    ("child_dep", "resource x_{t} 'Microsoft.Web/sites@2020-01-01' = {{\n  name: 'a'\n  resource c_{t} 'slots' = {{\n"
                  "    depends_on: '{t}'\n  }}\n}}\n"),
    ("deco_arity", "@allowed()\nparam x_{t} string\n"),
    ("max_value", "@maxValue({{}})\nparam x_{t} int\n"),
    ("loop_resource", "resource x_{t} 'Microsoft.Web/sites@2020-01-01' = bad {t}\n"),
]


def make(seed: int, size: str = "mixed") -> dict:
    """The document number `seed`: {"chunks": [...], "kind": ok|<what is broken>}"""
    rng = random.Random(f"doc:{seed}:{size}")
    tag = "t" + format(abs(hash_str(f"{seed}")) % 0xFFFFF, "x") + "z"
    n = {"nano": 1, "tiny": rng.randrange(1, 3), "small": rng.randrange(1, 5), "medium": rng.randrange(4, 12),
         "large": rng.randrange(20, 60), "huge": rng.choice([150, 300, 500, 800]), "catalog": 1, "full": 1, "mixed": rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12])}[size]
    g = Gen(rng, tag, unicode=rng.choice([0, 0, 0.3]), depth=rng.choice([1, 2, 2, 3] if size != "nano" else [1, 1, 2]))
    if size in ("large", "huge"):
        g.interp = False
        g.plain = True
        g.depth = min(g.depth, 2)
    kinds = rng.choices(KINDS, WEIGHTS, k=n)
    chunks = [g.lead() + g.decl(k) for k in kinds] if size not in ("catalog", "full") else catalog(g) if size == "catalog" else full(g)
    if rng.random() < 0.1:
        chunks = [c.replace("\n", "\r\n") for c in chunks]
    kind = "ok"
    if rng.random() < 0.22:
        what, text = BROKEN[rng.randrange(len(BROKEN))]
        chunks.insert(rng.choice([0, len(chunks), rng.randrange(len(chunks) + 1)]), text.format(t=tag))
        kind = what
    return {"chunks": chunks, "kind": kind, "tag": tag}


def hash_str(s: str) -> int:
    h = 2166136261
    for b in s.encode():
        h = (h ^ b) * 16777619 % (1 << 32)
    return h


def text(doc: dict) -> str:
    return "".join(doc["chunks"])


def stateful(t: str) -> bool:
    """Has it imports or child resources, which are gathered while a document is processed?"""
    return "\nimport " in "\n" + t or "\n  resource " in t


USED = re.compile(r"\b[A-Za-z_][A-Za-z_0-9]*\b")
KEYWORDS = {"for", "in", "if", "true", "false", "null", "existing", "as", "from", "with", "import", "extension", "func", "param", "var", "output", "resource",
            "module", "type", "metadata", "targetScope"}
LITERAL = re.compile(r"'[^'$\\\n]*'(?!')|\b\d+\b")
QUOTED = re.compile(r"'[A-Za-z./ ]+[@']")


def relative(rng: random.Random, doc: dict) -> dict:
    """A document that is easily confused with `doc`: same length, same head, same tail, same names..."""
    chunks = list(doc["chunks"])
    t = text(doc)
    how = rng.randrange(13)
    if how == 0:                                        # one digit or letter of the tag, same length
        new = doc["tag"][:-1] + "y"
        chunks = [c.replace(doc["tag"], new) for c in chunks]
    elif how == 1 and len(chunks) > 1:
        rng.shuffle(chunks)
    elif how == 2:
        chunks = chunks + chunks[:1]
    elif how == 3 and len(chunks) > 1:
        chunks.pop(rng.randrange(len(chunks)))
    elif how == 4:                                      # only one value in the middle differs
        digits = [i for i, c in enumerate(t) if c.isdigit()]
        if digits:
            i = digits[rng.randrange(len(digits))]
            t = t[:i] + str((int(t[i]) + 1) % 10) + t[i + 1:]
            chunks = split_like(chunks, t)
    elif how == 7:                                      # the same in other letters: upper or lower case, or quoted text in it
        new = doc["tag"].upper() if rng.random() < 0.4 else doc["tag"].capitalize()
        chunks = [c.replace(doc["tag"], new) for c in chunks]
    elif how == 8:
        chunks = split_like(chunks, QUOTED.sub(lambda m: m.group().swapcase() if rng.random() < 0.4 and "$" not in m.group() else m.group(), t))
    elif how == 9:                                      # one that declares what the other uses
        names = sorted(set(USED.findall(t)) - KEYWORDS)
        if names:
            n = names[rng.randrange(len(names))]
            new = rng.choice(["func {0}(a string) string => a\n", "func {0}() int => 1\n", "param {0} string\n", "var {0} = 7\n", "type {0} = int\n", "param {0} array = []\n",
                              "resource {0} 'Microsoft.Web/sites@2020-01-01' = {{\n  name: 'x'\n}}\n", "import {{ {0} }} from './y.bicep'\n",
                              "module {0} './z.bicep' = {{\n  name: 'z'\n}}\n", "output {0} int = 1\n"]).format(n)
            chunks = [new] + chunks if rng.random() < 0.4 else [new]
    elif how == 10:                                     # a word or two in other letters
        words = sorted(set(USED.findall(t)) - KEYWORDS)
        short = [w for w in words if doc["tag"] not in w] or words
        for w in rng.sample(short, min(len(short), rng.randrange(1, 4))):
            new = rng.choice([w.swapcase(), w.capitalize(), w.upper(), w.lower()])
            chunks = [re.sub(rf"\b{w}\b", new, c) for c in chunks]
    elif how == 11:                                     # one word is another of this or of the library's
        words = sorted(set(USED.findall(t)) - KEYWORDS)
        if words:
            w = rng.choice(words)
            new = rng.choice(words) if rng.random() < 0.6 else rng.choice(dictionary(True))
            chunks = [re.sub(rf"\b{w}\b", new, c) for c in chunks]
    elif how == 12:                                     # one value is another of this document's
        vs = LITERAL.findall(t)
        if vs:
            w, new = rng.choice(vs), rng.choice(vs)
            chunks = [c.replace(w, new) for c in chunks]
    elif how == 5:                                      # same text, other line numbers
        chunks = ["\n"] + chunks
    else:
        chunks = [c.replace("\r\n", "\n").replace("\n", "\r\n") if "\r\n" not in c else c.replace("\r\n", "\n") for c in chunks]
    return {"chunks": chunks, "kind": "rel", "tag": doc["tag"]}


def split_like(chunks: list[str], t: str) -> list[str]:
    out, at = [], 0
    for c in chunks:
        out.append(t[at:at + len(c)])
        at += len(c)
    return out
