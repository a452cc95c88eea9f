"""Loads /repo/src/ellalgo as ASTs; nothing of the repository is imported or executed here."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class FuncInfo:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.qual = f"{mod.name}:{cls.name + '.' if cls else ''}{self.name}"
        self.isprop = any(isinstance(d, ast.Name) and d.id == "property" for d in getattr(node, "decorator_list", []))
        self.isstatic = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in getattr(node, "decorator_list", []))
        self.unknown = [ast.unparse(d) for d in getattr(node, "decorator_list", [])
                        if not (isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod", "abstractmethod", "override", "final", "overload"))
                        and not (isinstance(d, ast.Attribute) and d.attr in ("abstractmethod", "override", "final", "setter", "overload"))]
        self.isclassm = any(isinstance(d, ast.Name) and d.id == "classmethod" for d in getattr(node, "decorator_list", []))


class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.attrs = {}, {}
        self.bases = node.bases
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                self.methods[s.name] = FuncInfo(mod, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self.odd = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                if s.name.startswith("__") and s.name.endswith("__") and s.name not in ("__init__", "__repr__", "__str__", "__call__"):
                    self.odd.append(f"{s.name} is defined")
                if s.name in self.attrs:
                    self.odd.append(f"{s.name} is assigned")
                if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                    self.odd.append(f"setter of {s.name}")
            elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass) or
                      isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) or
                      isinstance(s, ast.Assign) and all(isinstance(x, ast.Name) for x in s.targets)):
                self.odd.append(f"{type(s).__name__} in the class body")
        for d in node.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in ("final", "unique") or isinstance(d, ast.Attribute) and d.attr in ("final", "unique")):
                self.odd.append("decorated class")
        for k in node.keywords:
            if not (k.arg == "metaclass" and ast.unparse(k.value).endswith("ABCMeta")):
                self.odd.append("class keyword")
        self.is_enum = any((isinstance(b, ast.Name) and b.id in ("Enum", "IntEnum")) or
                           (isinstance(b, ast.Attribute) and b.attr in ("Enum", "IntEnum")) for b in node.bases)

    @property
    def qual(self):
        return f"{self.mod.name}:{self.name}"


class Module:
    def __init__(self, name, path, text):
        self.name, self.path, self.text = name, path, text
        self.tree = ast.parse(text, path)
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        self.odd = []
        self._scan(self.tree.body)
        seen = {}
        for k in list(self.funcs) + list(self.classes) + list(self.assigns):
            seen[k] = seen.get(k, 0) + 1
        self.odd += [f"{k} is defined twice" for k, c in seen.items() if c > 1 and not k.startswith("__")]

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    pkg = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        pkg = pkg[:-1]
                    pkg = pkg[: len(pkg) - (s.level - 1)]
                    base = ".".join(pkg + ([base] if base else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.If) and "__name__" in ast.unparse(s.test):
                pass
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                pass
            elif isinstance(s, ast.Assign) and all(isinstance(x, ast.Name) for x in s.targets) or isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                pass
            elif isinstance(s, ast.If) and any(k in ast.unparse(s.test) for k in ("TYPE_CHECKING", "__name__", "version_info")):
                pass
            elif isinstance(s, ast.Try) and all(isinstance(x, (ast.Import, ast.ImportFrom, ast.Assign)) for x in s.body):
                pass
            else:
                self.odd.append(f"{type(s).__name__} at line {s.lineno}")


class Source:
    def __init__(self, src=SRC):
        self.src, self.mods = src, {}

    def module(self, name):
        if name not in self.mods:
            p = os.path.join(self.src, *name.split("."))
            path = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
            if not os.path.exists(path):
                self.mods[name] = None
            else:
                with open(path, encoding="utf-8") as f:
                    self.mods[name] = Module(name, path, f.read())
        return self.mods[name]

    def cls(self, qual):
        m, c = qual.split(":")
        mod = self.module(m)
        return mod.classes.get(c) if mod else None

    def func(self, qual):
        m, f = qual.split(":")
        mod = self.module(m)
        if mod is None:
            return None
        if "." in f:
            c, f = f.split(".")
            ci = mod.classes.get(c)
            return ci.methods.get(f) if ci else None
        return mod.funcs.get(f)

    def everything(self):
        """all modules of the package"""
        base = os.path.join(SRC, "ellalgo")
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith(".py"):
                    r = os.path.relpath(os.path.join(d, f), SRC)[:-3].replace(os.sep, ".")
                    m = self.module(r[:-9] if r.endswith(".__init__") else r)
                    if m is not None:
                        yield m
