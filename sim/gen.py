"""Generation of source projects. An entry is {"t": text}, {"b": base64}, {"z": [size, seed]} (random bytes), {"l": link target}, {"d": 1} (empty directory),
{"h": path} (hard link) or {"fifo": 1}, with an optional mode "m" and modification time "mt"."""
import ast
import base64
import gzip
import json
import os

_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        with gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "corpus.json.gz"), "rt", encoding="utf-8") as f:
            rows = json.load(f)
        c = {"all": [], "h": [], "t": [], "u": [], "groups": {}, "gnames": []}
        for g, code, tags in rows:
            c["all"].append(code)
            c["groups"].setdefault(g, []).append(code)
            for k in tags:
                if k in c:
                    c[k].append(code)
        c["gnames"] = sorted(c["groups"])
        _corpus = c
    return _corpus


HAND = {
    "multi_pkg": "import torchvision\nimport torchaudio\nimport torch\nimport transformers\nfrom einops import rearrange\nimport os\nimport setuptools\n"
    "x = torch.abs(torch.tensor([1.0]))\ny = torchvision.transforms.ToTensor()\nprint(os.path.join('a', 'b'))\n",
    "misidentify": "import torch\nx = torch.tensor([3., 1.])\na = x.max()\nb = x.split(1)\nname = 'a,b'\nparts = obj.split(',', 1, 2)\nc = x.split(1)\n"
    "d = x.sort(descending=True)\nlst = foo.sort(key=len)\ne = x.sort()\nidx = seq.index_select(1, 2, 3, 4)\nf = x.index_select(0, torch.tensor([0]))\n",
    "unicode": "# 转换 ünïcödé\nimport torch\n名 = torch.ones(2)\ns = 'λ → 转换 \\u2603 ☃'\nprint(s, 名.abs())\n",
    "unsupported": "import torch\nimport torch.nn as nn\n\n\nclass A(nn.Module):\n    def forward(self, x):\n        if x is not None:\n            y = torch.fake_api_one(x)\n"
    "        return torch.fake.sub_api(y, torch.abs(x)), torch.fake_api_one\n\n\ntry:\n    z = torch.no_such_thing\nexcept Exception:\n    z = None\n",
    "no_torch": "import numpy as np\nimport json\n\n\ndef f(x):\n    return np.array(x).max(axis=0)\n\n\nprint(json.dumps({'a': 1}))\n",
    "empty": "",
    "comment": "# nothing here\n",
    "docstring": '"""Module about torch.abs and "torch.nn"."""\nimport torch\n\n\ndef f(x):\n    """torch.add\n    torch.mul\n    """\n    return torch.add(x, 1)\n',
    "relative": "from . import sib\nfrom .pkg import thing\nfrom ..up import other\nimport torch\nr = sib.abs(torch.abs(thing))\n",
    "maxmin": "import torch\na = torch.rand(3)\nb = torch.rand(3)\nm1 = torch.max(a, b)\nm2 = torch.max(a)\nm3 = torch.min(a, 0)\nm4 = torch.min(a, other=b)\nm5 = a.max(b)\nm6 = a.min(dim=0, keepdim=True)\n"
    "m7 = torch.max(a, dim=0)\n",
    "try_import": "try:\n    import torch\nexcept ImportError:\n    torch = None\nif torch is not None:\n    import torch.nn.functional as F\n    y = F.relu(torch.zeros(2))\n",
    "many_imports": "from torch.nn import (\n    Linear,\n    ReLU,\n)\nimport torch \\\n    as th\nfrom torch.utils.data import Dataset, DataLoader\nfrom typing import (List,\n    Optional)\n\n"
    "def f(x: Optional[th.Tensor]) -> List[th.Tensor]:\n    return [Linear(2, 3)(x), ReLU()(x)]\n",
    "crlf": "import torch\r\nx = torch.abs(torch.ones(2))\r\nprint(x)\r\n",
    "tabs": "import torch\nif True:\n\tx = torch.ones(1)\n\tif x:\n\t\ty = x.view(-1)\n",
    "long_line": "import torch\nx = torch.cat([" + ", ".join("torch.zeros(%d, %d)" % (i, i + 1) for i in range(40)) + "], dim=0)\n",
    "nested": "import torch\ny = " + "torch.abs(" * 25 + "x" + ")" * 25 + "\n",
    "strings": "import torch\ns = '''\ntorch.abs(x)\n>>>>>> torch.nn\n'''\nt = \"torch.fake(\"\nu = torch.fake_fn(s,\n    t)\n",
    "alias": "import torch as t\nfrom torch import nn as N, add as plus\nz = plus(t.ones(1), t.ones(1))\nmod = N.Linear(1, 1)\nw = plus\nq = w(z, z)\n",
    "async": "import torch\n\n\nasync def g(x):\n    async with ctx() as c:\n        await c.run(torch.sum(x))\n    return x.numpy()\n",
    "star": "from torch import *\nimport torch.nn as nn\nx = nn.Parameter(torch.zeros(1))\nf = torch.nn.functional.relu(*args, **kw)\n",
    "audiotools": "import audiotools\nfrom audiotools.ml import BaseModel as Model\nimport audiotools.ml as ml\nx = audiotools.AudioSignal(1)\n",
    "transformers": "import transformers\nfrom transformers import PreTrainedTokenizer\nimport torch\n\n\nclass T(PreTrainedTokenizer):\n    pass\n\n\nt = transformers.PreTrainedTokenizer()\nx = torch.abs(y)\n",
}

HAND.update({
    "bom_free_script": "#!/usr/bin/env python3\n# -*- coding: utf-8 -*-\nimport torch\nprint(torch.ones(1))\n",
    "unsup_places": "import torch\n\n\n@torch.fake_decorator\ndef f(a: torch.FakeType = torch.fake_default, *, act=torch.fake_kw) -> torch.FakeRet:\n    return [torch.fake_item(i) for i in a if torch.fake_cond]\n\n\n"
    "g = lambda x: torch.fake_lambda(x)\ny = f(1, act=torch.fake_value, fn=torch.fake_call(2))\nz = {torch.fake_key: torch.fake_val, **torch.fake_star}\nw = y[torch.fake_index]\nassert torch.fake_assert, torch.fake_msg\n"
    "del torch.fake_del\nq = torch.fake_a if torch.fake_b else torch.fake_c\ns = f'{torch.fake_f}'\nclass K(torch.FakeBase, metaclass=torch.FakeMeta):\n    x: torch.FakeAnn = None\n",
    "sup_places": "import torch\nimport torch.nn.functional as F\n\n\n@torch.no_grad()\ndef f(a: torch.Tensor = torch.ones(1), *, act=F.relu) -> torch.Tensor:\n    return [torch.sum(i, 0) for i in a if torch.is_tensor(i)]\n\n\n"
    "g = lambda x: torch.cat([x, x], 1)\ny = f(1, act=torch.abs, fn=torch.add(2, other=y, alpha=3))\nz = {torch.float32: torch.int64}\nw = y[torch.tensor([1])]\nq = torch.mul(a, b) if torch.cuda.is_available() else torch.div(a, b, rounding_mode='floor')\n"
    "s = f'{torch.ones(1)}'\nm = {k: torch.max(k, 0) for k in y}\nn = (torch.min(k, dim=1) for k in y)\n",
    "scopes": "import torch\nimport torch.nn as nn\n\n\n@deco(x.adjoint(), torch.adjoint(y))\ndef f(x, y):\n    if torch.is_tensor(x):\n        pass\n    else:\n        a = torch.adjoint(x) + x.adjoint()\n    try:\n        pass\n    except ValueError:\n        b = torch.narrow_copy(x, 0, 1, 1)\n"
    "    else:\n        c = torch.adjoint(y)\n    finally:\n        d = torch.narrow_copy(y, 0, 0, 2), torch.fake_final(x)\n    while x:\n        break\n    else:\n        e = torch.adjoint(x)\n    return [torch.adjoint(v) for v in y], {v: v.adjoint() for v in x}\n\n\n"
    "setattr(torch, 'mine', f)\nhasattr(torch, 'nn')\nhasattr(torch.nn, 'Module')\n\n\nclass M(nn.Module):\n    def g(self, x):\n        nn.Module.load_state_dict(self, x)\n        nn.Module.train(self, True)\n        self.a.b.add_module('k', x)\n        return torch.optim.Optimizer.load_state_dict(self, x), self.data.cuda(), x.data.T.real\n",
    "setattrs": "import torch\nimport torch.nn as nn\n\n\ndef add_module(self, module):\n    return module\n\n\ntorch.nn.Module.add = add_module\nnn.Linear.custom = torch.nn.Conv2d.custom\ntorch.Tensor.mine = add_module\nk = torch.optim.Adam.extra, torch.nn.functional.relu.extra, torch.float32.itemsize\n",
    "shadow_t": "import torch\nz = plus(t.ones(1), N.Linear(1, 1))\nq = w.abs()\nr = nn.Linear(1, 2)\nmod = F.relu(z)\n",
    "imports_siblings": "import os\nimport torch\nimport model\nimport pkg\nimport einops\nfrom net import Net\nfrom a import x as y\nimport zz, train\nfrom paddle_utils import thing\nr = model.f(torch.max(y, 0), Net())\n",
    "local_pkg": "import torch\nimport transformers\nimport einops\nfrom transformers import PreTrainedTokenizer\nfrom torchvision import transforms\nx = transformers.PreTrainedTokenizer(torch.ones(2))\ny = transforms.ToTensor()\nz = einops.rearrange(x, 'a -> a')\n",
})

# modules of a project which have the names of packages
SHADOWS = ["transformers.py", "einops.py", "torchvision/__init__.py", "setuptools.py", "audiotools.py", "numpy.py", "lib.py"]


def wrap(rng, code):
    """The expression of a test snippet in another place of the grammar."""
    lines = code.rstrip("\n").split("\n")
    if not lines or not lines[-1].startswith("result = ") or lines[-1].count("(") != lines[-1].count(")") or "#" in lines[-1]:
        return code
    e = lines[-1][9:]
    form = rng.choice(["[%s for _ in range(2)]", "{i: %s for i in range(2)}", "fn(x, key=%s)", "(lambda v: %s)", "[%s, (%s)]", "%s if %s is not None else None", "{'k': %s}", "(%s).abs()", "fn(*[%s])", "not (%s)", "(yield_ := (%s))", "(%s)[0]", "f'{%s}'"])
    if "'" in e and form.startswith("f'"):
        form = "[%s]"
    out = "result = " + form.replace("%s", e)
    k = rng.random()
    if k < 0.15:
        out = "def outer(x):\n    for i in range(2):\n        while i:\n            %s\n    else:\n        return result" % out
    elif k < 0.25:
        out = "class Outer:\n    %s\n\n    def method(self):\n        try:\n            %s\n        finally:\n            pass" % (out, out)
    elif k < 0.3:
        out = "if flag:\n    pass\nelif other:\n    %s\nelse:\n    %s" % (out, out)
    elif k < 0.34:
        out = "with ctx(%s) as c:\n    %s" % (e, out)
    text = "\n".join(lines[:-1] + [out]) + "\n"
    try:
        ast.parse(text)
    except (SyntaxError, ValueError):
        return code
    return text


def many_unsupported(rng):
    """More different unsupported APIs than any list is long."""
    n = rng.choice([5, 25, 60])
    if rng.random() < 0.4:  # or few, but often
        return "import torch\n" + "x = torch.fake_a(1), torch.abs(x)\n" * rng.choice([9, 99, 100, 1000]) + "y = torch.fake_b(2)\n" * rng.choice([1, 11, 120])
    return "import torch\n" + "".join("x%d = torch.fake_%s_%d(%d)\n" % (i, rng.choice("abc"), rng.randrange(n), i) for i in range(n + n // 2))


_reps = None


def helper_reps():
    """One short snippet for every helper text the test corpus reaches."""
    global _reps
    if _reps is None:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "helpers.json"), encoding="utf-8") as f:
            _reps = json.load(f)
    return _reps


def helpers_project(rng, n=None):
    """A project that needs many different helpers; files in different directories share names."""
    reps = helper_reps()
    pick = rng.sample(reps, min(len(reps), n or rng.choice([4, 10, len(reps)])))
    tree = {}
    for i, code in enumerate(pick):
        rel = rng.choice(["", "pkg/", "models/", "pkg/sub/", "__init__/", "paddle_utils/"]) + rng.choice(["a", "b", "main", "net", "__init__", "setup"]) + ".py"
        if rng.random() < 0.35:
            code = nest(rng, code)
        if rel in tree:
            tree[rel] = {"t": tree[rel]["t"] + code}
        else:
            tree[rel] = {"t": code}
    return tree


NESTS = ["res = [@ for _ in range(2)]", "res = {k: @ for k in range(2)}", "res = {@ for k in range(2)}", "res = list(@ for k in range(2))", "f = lambda: @", "def f(a=lambda: @):\n    return a()", "class K:\n    attr = @", "def f():\n    def g():\n        return @\n    return g", "if 1:\n    res = 1\nelse:\n    res = @",
         "try:\n    res = 1\nfinally:\n    res = @", "try:\n    res = 1\nexcept ValueError:\n    res = @", "while 0:\n    pass\nelse:\n    res = @", "with open(@) as f:\n    pass", "async def f():\n    return @", "res = 1 if @ else 2", "res = f'{@}'", "res = (y := @)", "@", "assert @", "match 1:\n    case 1:\n        res = @",
         "for k in @:\n    pass", "def f(a: int = 1) -> int:\n    yield @", "res: object = @", "res += @"]


def nest(rng, code):
    """The calls of the code in other places of a program: comprehensions, lambdas, defaults, other branches."""
    try:
        body = ast.parse(code).body
    except (SyntaxError, ValueError):
        return code
    out = []
    for n in body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Name) and rng.random() < 0.7:
            e = ast.unparse(n.value)
            if "'" in e and '"' in e or "\n" in e:
                out.append(ast.unparse(n))
            else:
                form = rng.choice(NESTS)
                out.append(form.replace("@", e.replace("'", '"') if form.startswith("res = f'") else e))
        else:
            out.append(ast.unparse(n))
    return "\n".join(out) + "\n"


def sweep(rng, groups=12, per=5):
    """Many small files: a few snippets of each of many APIs. Returns a list of (group index, code)."""
    c = corpus()
    out = []
    for g in rng.sample(range(len(c["gnames"])), groups):
        codes = c["groups"][c["gnames"][g]]
        for s in rng.sample(codes, min(len(codes), per)):
            out.append((g, wrap(rng, s) if rng.random() < 0.2 else s))
    return out


DAMAGE = {"syntax": b"import torch\nx = torch.ones(1\ny = 2\n", "utf8": b"import torch\n# \xff\xfe caf\xe9\nx = 1\n", "nul": b"import torch\nx = 1\x00\n", "indent": b"import torch\n  x = 1\n",
          "unsupported_syntax": b"import torch\nprint 'torch'\n", "bom16": "import torch\n".encode("utf-16"),
          "parens": b"import torch\nx = " + b"(" * 300 + b"1" + b")" * 300 + b"\n", "eof": b"import torch\nx = '''torch.abs(\n", "dedent": b"import torch\nif x:\n        y = 1\n    z = 2\n", "late": b"import torch\n" + b"x = torch.abs(1)\n" * 400 + b"x = = 1\n"}
# may be accepted or refused, but not repaired in place
ODD = {"bom": b"\xef\xbb\xbfimport torch\nx = torch.ones(1)\n", "cookie": "# -*- coding: latin-1 -*-\nimport torch\ns = 'caf\u00e9'\n".encode(), "mixed_eol": b"import torch\r\nx = 1\ny = torch.abs(x)\rz = 2\n",
       "form_feed": b"import torch\n\x0cx = torch.ones(1)\n", "no_newline": b"import torch\nx = torch.ones(1)", "crlf_cont": b"import torch\r\nx = torch.ones(\r\n    1)\r\n", "trailing_ws": b"import torch   \n\n\n   \n"}


DAMAGE.update({"unary": b"import torch\nx = " + b"-" * 20000 + b"1\n", "chain": b"import torch\nx = torch" + b".a" * 20000 + b"\n", "ops": b"import torch\nx = " + b"1 + " * 20000 + b"1\n"})


def damage(rng, odd=True):
    """A source that cannot be converted, or hardly."""
    kinds = dict(DAMAGE, **ODD) if odd else DAMAGE
    k = rng.choice(sorted(kinds))
    return rng.choice(["zz_damage.py", "pkg/damage.py", "aa_damage.py", "requirements.txt"]), {"b": base64.b64encode(kinds[k]).decode()}

SETUP_EXT = (
    "from setuptools import setup\nfrom torch.utils.cpp_extension import BuildExtension, CUDAExtension\n\nsetup(\n    name='my_ext',\n"
    "    ext_modules=[CUDAExtension('my_ext', ['a.cpp'])],\n    cmdclass={'build_ext': BuildExtension},\n)\n"
)
SETUP_PLAIN = "from setuptools import setup, find_packages\nsetup(name='plain', packages=find_packages())\n"
EXT_FUNC = (
    "import torch\nimport my_ext\nfrom torch.autograd import Function\n\n\nclass MyFunc(Function):\n    @staticmethod\n    def forward(ctx, x):\n        return my_ext.forward(x)\n\n"
    "    @staticmethod\n    def backward(ctx, g):\n        return my_ext.backward(g)\n\n\ndef plain(x):\n    return torch.abs(x)\n"
)
EXT_USE = "import torch\nfrom ext_func import MyFunc\n\n\ndef run(x):\n    return MyFunc.apply(x) + torch.ones(1)\n"
EXT_LOAD = (
    "import torch\nfrom torch.utils.cpp_extension import load\n\nops = load(name='ops', sources=['o.cpp'])\n\n\nclass LoadFunc(torch.autograd.Function):\n    @staticmethod\n"
    "    def forward(ctx, x):\n        return ops.forward(x)\n"
)

REQS = ["torch>=1.8\nnumpy\n", "torch==2.0\ntorchvision==0.15 # torch\n", "# 依赖\npytorch-lightning\ntorch\r\n", "", "numpy\n"]

DIRS = ["", "", "", "pkg/", "pkg/sub/", "models/", "data set/", "a.b/", "deep/er/and/deeper/", "层/", "tests/"]
NAMES = ["main", "model", "train", "a", "b", "c0", "util_x", "net", "Zeta", "zeta", "Main", "data_loader", "eval", "x.y", "名字", "with space", "setup_x", "py", "run-me", "zz", "[x]", "50%", "a{0}", "it's", "-dash", "a,b", "q?*", "back\\slash", "tab\tname", "L" * 120, "caf\udce9", "new\nline"]


def snippet(rng, tags=None):
    c = corpus()
    r = rng.random()
    if tags:
        return rng.choice(c[rng.choice(tags)])
    if r < 0.30:
        return rng.choice(list(HAND.values()))
    if r < 0.45:
        return rng.choice(c["h"])
    if r < 0.52:
        return rng.choice(c["t"])
    if r < 0.60:
        return rng.choice(c["u"])
    if r < 0.62:
        return many_unsupported(rng)
    if r < 0.72:
        return calls(rng)
    if r < 0.85:
        return "\n".join(covering(rng) for _ in range(rng.choice([1, 1, 3, 5])))
    s = rng.choice(c["all"])
    return wrap(rng, s) if rng.random() < 0.25 else s


_cover = None


def covering(rng):
    """One of few snippets that together go every way through matchers and transformers that any known snippet goes."""
    global _cover
    if _cover is None:
        with gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "cover.json.gz"), "rt", encoding="utf-8") as f:
            _cover = json.load(f)
    s = rng.choice(_cover)
    return wrap(rng, s) if rng.random() < 0.25 else s


_apis = None


def apis():
    global _apis
    if _apis is None:
        with gzip.open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "apis.json.gz"), "rt", encoding="utf-8") as f:
            _apis = json.load(f)
    return _apis


VALUES = ["x", "2", "0", "-1", "None", "True", "1.5", "(2, 3)", "[1, x]", "'mean'", "torch.float32", "x.shape", "lambda t: t", "y[0]", "x + 1", "'torch'", "torch.abs(x)", "torch.no_such(x)", "f(x)", "*y", "{'a': x}"]


def calls(rng, n=None):
    """Any of the APIs the tool knows with any arguments, sensible or not."""
    head, body = ["import torch", "x, y, f = torch.ones(2), [1], len"], []
    for i in range(n or rng.choice([1, 4, 12])):
        name, kind, args = rng.choice(apis())
        pre, last = name.rsplit(".", 1) if "." in name else ("", name)
        a = rng.random()
        if name.startswith("torch.Tensor.") and a < 0.7:
            e = rng.choice(["x", "torch.ones(2)", "self.w", "y[0]", "f(x)"]) + "." + last
        elif pre and a < 0.3:
            head.append("import %s as m%d" % (pre, i))
            e = "m%d.%s" % (i, last)
        elif pre and a < 0.45:
            head.append("from %s import %s as n%d" % (pre, last, i))
            e = "n%d" % i
        elif pre and a < 0.55:
            head.append("from %s import %s" % (pre, last))
            e = last
        else:
            head.append("import " + name.split(".")[0])
            e = name
        if kind == "c" and rng.random() < 0.92:
            pos = [rng.choice(VALUES) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]))]
            kw = rng.sample(args, min(len(args), rng.choice([0, 1, 2, 4]))) if args else []
            kw = ["%s=%s" % (k, rng.choice(VALUES[:-2])) for k in kw if k.isidentifier()]
            if rng.random() < 0.05:
                kw.append(rng.choice(["**opts", "bogus=1", "out=y"]))
            e += "(%s)" % ", ".join(pos + kw)
        body.append(rng.choice(["r%d = %s" % (i, e), "r%d = %s" % (i, e), e, "def g%d(self, x):\n    return %s" % (i, e), "class K%d(%s):\n    pass" % (i, e) if "*" not in e else e, "r%d = [%s for x in y]" % (i, e), "if %s:\n    r = %s" % (e, e)]))
    seen = []
    for h in head:
        if h not in seen:
            seen.append(h)
    return "\n".join(seen + body) + "\n"


def deep(rng):
    """Nested so deeply that the interpreter may give up."""
    return "import torch\ny = " + rng.choice(["-", "not "]) * rng.choice([120, 440, 900]) + "torch.abs(x)\n"


EXCLUDES = ["\\.md$", "main", "models/,a\\.py$", "[0-9]\\.py$", "pkg", "\\.py$", "tests|net", "nothing_like_this"]


def exclude(rng, spec, p=0.15):
    if rng.random() < p:
        spec["exclude"] = rng.choice(EXCLUDES)


def reports(rng, o, p=0.3):
    """Options that only ask for other messages."""
    if rng.random() < p:
        o[rng.choice(["calculate_speed", "log_markdown"])] = True
    return o


def module(rng, tags=None):
    k = rng.random()
    if k < 0.75:
        return snippet(rng, tags)
    if k < 0.97:
        return "\n".join(s for s in [snippet(rng, tags), snippet(rng)] if "\r" not in s)
    if k < 0.972:  # larger than most, though not in what it does
        n = rng.choice([9000, 40000])
        return "import torch\n" + "".join("# %d %s\n" % (i, "torch " * 6) for i in range(n)) + "x = torch.abs(y)\nz = torch.fake_end(x)\n"
    if k < 0.976:  # longer than any buffer
        n = rng.choice([500, 900, 1800])
        return "import torch\nTABLE = [\n" + "".join("    'row %06d %s',\n" % (i, "x" * (i % 23)) for i in range(n)) + "]\nx = torch.abs(TABLE)\ny = torch.fake_end(x)\n"
    return "\n".join(snippet(rng).replace("\r", "") for _ in range(8))


def blob(rng, n=None):
    if n is None and rng.random() < 0.12:
        return {"z": [rng.choice([8191, 8192, 8193, 16385, 65535, 65536, 65537, 131073, 262145, 1048575, 1048576, 1048577, 3000001]), rng.randrange(1000)]}
    n = n if n is not None else rng.choice([0, 1, 7, 100, 1000, 5000, 20000])
    return {"b": base64.b64encode(bytes(rng.getrandbits(8) for _ in range(n))).decode()}


def other_file(rng):
    """A file that is copied (name, entry)."""
    name = rng.choice(["README.md", "weights.bin", "conf.yaml", "Makefile", "notes.txt", "lib.so", "mod.pyc", "x.PY", "script.py.bak", "图.png", "data.json", "LICENSE",
                       "train.py.orig", "net.py~", "old.tmp", "run.log", "cache.lock", "#notes#", "a.py.bak", "Thumbs.db", "x.xlsx", "core", "paconvert.log"])
    if rng.random() < 0.5:
        return name, blob(rng)
    return name, {"t": rng.choice(["", "hello torch\n", "a: 1\r\nb: 2\r\n", "no newline at end", "转换 torch\n", "torch==1\n"])}


def ending(rng, text):
    """The same program, with its lines ended in other ways."""
    k = rng.randrange(6)
    if k < 2:
        return text.rstrip("\n")
    if k == 2:
        return text.replace("\r\n", "\n").replace("\n", "\r\n")
    return text + ["\n\n\n", "\x0c\n", "   \n\t", "# end"][rng.randrange(4)]


def project(rng, n=None, tags=None, extras=True, hidden=True, reqs=True):
    """A source project: {relative path: entry}."""
    tree = {}
    if n is None and rng.random() < 0.012:  # many files
        d = rng.choice(DIRS)
        for i in range(rng.choice([40, 110, 150])):
            tree["%sf%03d%s" % (d, i, rng.choice([".py", ".py", ".txt"]))] = {"t": "import torch\nx = torch.abs(%d)\n" % i}
    n = n if n is not None else rng.choice([1, 2, 3, 3, 4, 5, 6, 8])
    group = None
    if not tags and rng.random() < 0.35:
        c = corpus()
        group = c["groups"][rng.choice(c["gnames"])]
    for i in range(n):
        rel = rng.choice(DIRS) + rng.choice(NAMES) + ".py"
        if rel in tree:
            rel = rel[:-3] + "_%s.py" % "abcdefghij"[i % 10]
        if group and rng.random() < 0.7:
            tree[rel] = {"t": rng.choice(group)}
        else:
            tree[rel] = {"t": module(rng, tags if rng.random() < 0.7 else None)}
    if rng.random() < 0.1:  # copies of a module
        rel = rng.choice(sorted(r for r in tree if r.endswith(".py")) or ["a.py"])
        for d in rng.sample(["copy/", "copy/v2/", "zz_old/", "pkg/"], rng.choice([1, 2])):
            if rel in tree:
                tree[d + os.path.basename(rel)] = dict(tree[rel])
    if extras:
        if rng.random() < 0.3:
            tree[rng.choice(DIRS) + "__init__.py"] = {"t": rng.choice(["", "from .a import *\n", "import torch\n"])}
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            name, e = other_file(rng)
            tree[rng.choice(DIRS) + name] = e
        if reqs and rng.random() < 0.4:
            tree[rng.choice(DIRS) + rng.choice(["requirements.txt", "requirements.txt", "dev-requirements.txt"])] = {"t": rng.choice(REQS)}
        if rng.random() < 0.15:
            tree["empty/dir"] = {"d": 1}
        if rng.random() < 0.15:
            tree["setup.py"] = {"t": SETUP_PLAIN}
        if rng.random() < 0.15:
            tree[rng.choice(["", "pkg/"]) + rng.choice(SHADOWS)] = {"t": rng.choice(["", "def abs(x):\n    return x\n", "import torch\n"])}
        data = sorted(r for r in tree if not r.endswith((".py", ".PY", "requirements.txt")) and "d" not in tree[r])
        if data and rng.random() < 0.3:
            # a data file under a second name
            d = rng.choice(data)
            name = "latest" + os.path.splitext(d)[1]
            if not name.endswith((".py", ".txt")):
                tree[(os.path.dirname(d) + "/" if "/" in d else "") + name] = {"l": os.path.basename(d)}
    if rng.random() < 0.25:
        for r in sorted(tree):
            if r.endswith(".py") and "t" in tree[r] and rng.random() < 0.5:
                tree[r] = dict(tree[r], t=ending(rng, tree[r]["t"]))
    if rng.random() < 0.3:
        for r in sorted(tree):
            if ("t" in tree[r] or "b" in tree[r] or "z" in tree[r]) and rng.random() < 0.3:
                tree[r] = dict(tree[r], m=rng.choice([0o444, 0o755, 0o600, 0o664]))
    if hidden and rng.random() < 0.35:
        for rel, e in (("__pycache__/m.cpython-312.pyc", blob(rng, 40)), (".git/config", {"t": "[core]\n"}), (".hidden.py", {"t": "import torch\nthis is not python(\n"}), ("pkg/.cache/x.py", {"t": "import torch\n"})):
            if rng.random() < 0.6:
                tree[rel] = e
    return drop_conflicts(tree)


def custom_op_project(rng):
    t = {"setup.py": {"t": SETUP_EXT}, "ext_func.py": {"t": EXT_FUNC}, "use.py": {"t": EXT_USE}, "load_it.py": {"t": EXT_LOAD}}
    if rng.random() < 0.5:
        t["aaa.py"] = {"t": "import my_ext\nimport torch\nx = torch.ones(1)\n"}
    if rng.random() < 0.5:
        t["zz_more.py"] = {"t": module(rng)}
    if rng.random() < 0.3:
        del t["load_it.py"]
    if rng.random() < 0.6:
        # a project that is half converted: the class is removed, its uses change
        t["ext_func.py"] = {"t": EXT_FUNC.replace("import torch\n", "import torch\nimport paddle\n", 1).replace("MyFunc(Function)", "MyFunc(paddle.autograd.PyLayer)")}
        if "load_it.py" in t:
            t["load_it.py"] = {"t": EXT_LOAD.replace("import torch\n", "import torch\nimport paddle\n", 1).replace("torch.autograd.Function", "paddle.autograd.PyLayer")}
            t["use_load.py"] = {"t": EXT_USE.replace("ext_func", "load_it").replace("MyFunc", "LoadFunc")}
    return t


def adversary(rng, code):
    """A sibling that binds the names another file uses in other ways."""
    import re

    names = sorted(set(re.findall(r"(?<![\w.])([A-Za-z_]\w*)(?=[.(])", code)) - {"print", "range", "len"})
    names += sorted(set(re.findall(r"\bas (\w+)", code)))
    names = [n for n in names if n not in ("torch", "def", "if", "for", "in", "not", "and", "or", "else", "return", "lambda", "assert", "while", "with", "yield", "await", "is", "del", "import", "from", "as", "class", "None", "True", "False", "except", "try", "elif", "raise", "pass", "async", "f")] or ["x"]
    rng.shuffle(names)
    lines = ["import torch"]
    for n in names[: rng.choice([2, 4, 8])]:
        lines.append(rng.choice(["from lib import %s", "from mylib.sub import thing as %s", "import numpy as %s", "import torch.nn as %s", "from torch import abs as %s", "%s = torch.add", "def %s(*a, **k):\n    return torch.abs(a[0])",
                                 "class %s(torch.nn.Module):\n    def forward(self, x):\n        return x.abs()", "%s = None", "import %s"]) % n)
    lines.append("r = [%s]" % ", ".join("%s(torch.ones(1))" % n for n in names[:3]))
    return "\n".join(lines) + "\n"


LOCALS = ["sib1", "sib2", "pkg9", "Sib3", "helpers_", "sub9.mod"]


def imports_project(rng):
    """A file that imports modules of its own directory among others: what they are called matters, not whether they exist."""
    others = ["numpy", "json", "os.path", "yaml", "mylib", "foo.bar as fb", "torch", "torch.nn as nn", "torch.nn.functional as F", "torchvision", "einops", "audiotools", "collections as c"]
    lines = []
    for _ in range(rng.choice([1, 2, 3])):
        names = rng.sample(others, rng.choice([1, 2, 3])) + rng.sample(LOCALS, rng.choice([0, 1, 2]))
        rng.shuffle(names)
        lines.append("import " + ", ".join(names))
    for _ in range(rng.choice([0, 1, 2])):
        lines.append("from %s import %s" % (rng.choice(LOCALS + ["mylib", "torch", "torch.nn"]), rng.choice(["thing", "thing as t", "Linear", "abs as ab, add", "*"])))
    if rng.random() < 0.3:
        lines = ["try:"] + ["    " + x for x in lines if not x.endswith("*")] + ["except ImportError:", "    pass"]
    lines += ["x = torch.ones(2)", "y = nn.Linear(2, 2)(F.relu(x))", "z = sib1.abs(x, Sib3.max(x, 0))", "w = torch.max(x, 0)", "v = fb.split(x, 1), thing(x), ab(x), Linear(1, 2)"]
    here = rng.choice(["", "pkg/", "models/deep/"])
    t = {here + "user.py": {"t": "\n".join(lines) + "\n"}}
    sibs = {}
    for n in LOCALS:
        k = rng.random()
        if k < 0.4:
            sibs[here + n.replace(".", "/") + ".py"] = {"t": ""}
        elif k < 0.7:
            sibs[here + n.replace(".", "/") + "/__init__.py"] = {"t": ""}
    for n in ("Torch.py", "TORCH/__init__.py", "torch_x.py", "torch.txt", "mytorch.py", "Numpy.py", "torchvision.txt", "NN.py", "nn.py", "abs.py", "functional.py"):
        if rng.random() < 0.12:  # not what is imported
            sibs[here + n] = {"t": ""}
    return t, drop_conflicts(sibs)


def shadows_elsewhere(rng):
    """Modules of another directory that have the names of packages concern only the files beside them."""
    names = ["transformers", "torchvision", "einops", "audiotools", "torchaudio", "torch.nn", "setuptools", "paddle_utils", "os"]
    pick = rng.sample(names, rng.choice([2, 4]))
    lines = ["import torch"] + [rng.choice(["import %s", "import %s", "import %s as al%d" % ("%s", i), "from %s import thing%d" % ("%s", i)]) % n for i, n in enumerate(pick)]
    lines += ["x = torch.abs(y)", "t = transformers.PreTrainedTokenizer(x)", "a = audiotools.AudioSignal(x)", "v = torchvision.transforms.ToTensor(), thing0(1), al1.x", "r = torch.nn.Linear(1, 2)"]
    a, b = rng.choice([("aa/", "bb/"), ("bb/", "aa/"), ("pkg/x/", "pkg/y/"), ("pkg/sub/", "pkg/"), ("m/n/", "m/")])
    sibs = {b + rng.choice(["user.py", "one.py", "zz.py"]): {"t": "\n".join(lines) + "\n"}}
    for n in pick:
        n = n.replace(".", "/")
        sibs[b + n + rng.choice([".py", "/__init__.py"])] = {"t": ""}
    return {a + "user.py": {"t": "\n".join(lines) + "\n"}}, drop_conflicts(sibs)


def drop_conflicts(tree):
    """A path cannot be a file and a directory."""
    dirs = set()
    for rel in tree:
        while "/" in rel:
            rel = rel.rsplit("/", 1)[0]
            dirs.add(rel)
    return {k: v for k, v in tree.items() if k not in dirs or "d" in v}


LOCKED = [0o000, 0o044, 0o200, 0o444, 0o400]


def lock(rng, tree, p=0.4, dirs=True):
    """The project for a process without privileges: some entries cannot be read."""
    out = dict(tree)
    for r in sorted(tree):
        if ("t" in tree[r] or "b" in tree[r] or "z" in tree[r]) and rng.random() < p:
            out[r] = dict(tree[r], m=rng.choice(LOCKED))
        d = os.path.dirname(r)
        if dirs and d and rng.random() < 0.15 and d not in tree:
            out[d] = {"d": 1, "m": rng.choice([0o000, 0o500, 0o600, 0o300])}
    return out


def options(rng, fmt=0.25):
    o = {"log_level": rng.choice(["WARNING", "INFO", "DEBUG"])}
    if rng.random() > fmt:
        o["no_format"] = True
    if rng.random() < 0.12:
        o["mode"] = "min"
        o["no_format"] = True
    if rng.random() < 0.08:
        o["only_complete"] = True
    if rng.random() < 0.15:
        o["_cli"] = True  # through the command line
    if rng.random() < 0.15:
        o["_rel"] = True  # with relative paths
    return o


def knobs(rng, legal=True):
    if not legal:
        return {}
    return {"order": rng.choice([None, "reverse", rng.randrange(10**6), rng.randrange(10**6)]), "buf": rng.choice([8192, 8192, 64, 512, 1]),
            "short": rng.choice([None, rng.randrange(10**6)]), "sendfile": rng.choice(["ok", "ok", "short", "unsupported"])}


FAULTS = {
    "open_r": ["EACCES", "ENOENT", "EMFILE", "EIO", "EPERM", "ELOOP", "ENAMETOOLONG", "ESTALE", "ETIMEDOUT", "ENXIO", "EBUSY", "ENFILE", "ENOMEM", "EAGAIN", "ENODEV", "EOVERFLOW", "ENOTCONN"],
    "open_w": ["EACCES", "ENOSPC", "EROFS", "EMFILE", "EPERM", "EDQUOT", "EISDIR", "ETXTBSY", "EIO", "EBUSY", "ENOENT", "EAGAIN", "ENAMETOOLONG", "ESTALE", "ENOMEM"],
    "read": ["EIO", "ESTALE", "EIO", "ETIMEDOUT", "EISDIR", "ENXIO", "EACCES", "ENOMEM", "EAGAIN", "ECONNRESET", "EPIPE"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "ESTALE", "ENOMEM", "EPERM", "EAGAIN", "ETIMEDOUT", "EPIPE", "ENODEV"],
    "close_w": ["EIO", "ENOSPC", "EDQUOT", "ESTALE", "ENODEV"],
    "listdir": ["EACCES", "EIO", "ENOENT", "EPERM", "ESTALE", "EMFILE", "ENOTDIR", "ETIMEDOUT", "ENOMEM"],
    "mkdir": ["EACCES", "ENOSPC", "EROFS", "EDQUOT", "EMLINK", "EPERM", "EIO", "ENAMETOOLONG", "ESTALE"],
    "sendfile": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
}


def fault(rng, classes=None):
    """A fault to be placed: {"cls", "frac", "kind", "prefix"}; resolve() places it in a recorded trace."""
    cls = rng.choice(classes or list(FAULTS))
    return {"cls": cls, "frac": round(rng.random(), 4), "kind": rng.choice(FAULTS[cls]), "prefix": rng.choice([0, 0, 0.5, 0.9]) if cls in ("write", "close_w", "sendfile") else 0}


def crash(rng):
    cls = rng.choice(["any", "any", "write", "open_w", "close_w", "mkdir", "sendfile"])
    return {"cls": cls, "frac": round(rng.random(), 4), "kind": "crash", "prefix": rng.choice([0, 0.3, 0.7, 0.99]) if cls in ("write", "sendfile") else 0}


def resolve(faults, ops, keep=None):
    """Places faults in a trace of operations; those without a matching operation are dropped."""
    out = []
    for f in faults:
        idx = [i for i, (k, p) in enumerate(ops) if (f["cls"] == "any" or k == f["cls"]) and (keep is None or keep(p))]
        if idx:
            out.append({"op": idx[min(len(idx) - 1, int(f["frac"] * len(idx)))], "kind": f["kind"], "prefix": f.get("prefix", 0)})
    return out
