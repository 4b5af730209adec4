"""Loads the extractor's output: the resolved program the analyses work on."""
import json, os, re, glob


class Prog:
    def __init__(self, d):
        self.dir = d
        self.units = {}          # unit -> {fn name -> fn}
        self.globals = {}        # unit -> {name -> var}
        self.recs = {}           # record name -> record
        self.enums = {}          # enum constant -> value
        self.enum_groups = {}
        for f in sorted(glob.glob(d + "/*.c.json")):
            u = os.path.basename(f)[:-len(".json")]
            fns, gl = {}, {}
            ended = False
            for line in open(f):
                o = json.loads(line)
                k = o["k"]
                if k == "fn":
                    o["unit"] = u
                    fns[o["name"]] = o
                elif k == "var":
                    o["unit"] = u
                    if o["name"] in gl and o.get("extern"):
                        continue
                    gl[o["name"]] = o
                elif k == "rec":
                    if o["name"]:
                        self.recs.setdefault(o["name"], o)
                elif k == "enum":
                    for n, v in o["vals"]:
                        self.enums[n] = v
                    self.enum_groups.setdefault(o["name"], dict(map(tuple, o["vals"])))
                elif k == "end":
                    ended = True
                    if o["errors"]:
                        raise RuntimeError("clang reported errors in " + u)
            if not ended:
                raise RuntimeError("truncated extraction of " + u)
            self.units[u] = fns
            self.globals[u] = gl
        self.defs = {}           # external functions
        for u, fns in self.units.items():
            for n, f in fns.items():
                if not f["static"] and not f["inline"]:
                    self.defs[n] = f
        self.tree_types = self.enum_groups["tree_type"]       # name -> value
        self.type_names = {v: n for n, v in self.tree_types.items()}
        self.load_access()
        self.ctypes = self.load_ctypes()

    def load_access(self):
        """(tree type, storage member) <-> accessor name."""
        self.acc = {}            # accessor -> (type, member)
        self.acc_name = {}       # (type, member) -> accessor
        for line in open(self.dir + "/tree-access.h"):
            m = re.match(r"#\s*define\s+(\w+)\(obj\)\s+\(_DATA\(\s*TREE_CHECK\(\(obj\),\s*(\w+)\)\)\.(\w+)\)", line)
            if m:
                self.acc[m.group(1)] = (m.group(2), m.group(3))
                self.acc_name[(m.group(2), m.group(3))] = m.group(1)
        if len(self.acc) < 50:
            raise RuntimeError("tree accessors not understood")

    def load_ctypes(self):
        r = []
        for line in open(self.dir + "/ctypes.def"):
            m = re.match(r'DEFCTYPE\((\w+), "([^"]*)", ([^,]*), ([^,]*), (\w+)\)', line)
            if m:
                r.append(m.groups())
        if len(r) < 10:
            raise RuntimeError("ctypes.def not understood")
        return r

    def lookup(self, unit, name):
        f = self.units.get(unit, {}).get(name)
        if f:
            return f
        return self.defs.get(name)

    def global_def(self, unit, name):
        """The definition of a global as seen from unit: (owner unit, var)."""
        g = self.globals.get(unit, {}).get(name)
        if g is not None and not g.get("extern"):
            return unit, g
        for u, gl in self.globals.items():
            v = gl.get(name)
            if v is not None and not v.get("extern") and not v.get("static"):
                return u, v
        return unit, g


def walk(x, f):
    """Pre-order walk over the JSON nodes (lists) of a body."""
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            f(x)
        for y in x:
            if isinstance(y, list):
                walk(y, f)


def nodes(x, kind):
    out = []

    def g(n):
        if n[0] == kind:
            out.append(n)
    walk(x, g)
    return out
