"""C front end: clang's AST (JSON) of the real sources, reduced to what the verifier needs.

The verified text is what clang parses from /repo: macros expanded, types resolved, implicit
conversions explicit.  Nothing is rewritten; functions are looked up by name.
"""
import json, os, subprocess, hashlib

CLANG = os.environ.get("VERIF_CLANG", "clang")

class FrontError(Exception):
    pass

KEEP = {"FunctionDecl", "RecordDecl", "TypedefDecl", "EnumDecl"}

def _file_of(loc, last):
    for key in (None, "expansionLoc", "spellingLoc"):
        l = loc if key is None else loc.get(key, {})
        if isinstance(l, dict) and "file" in l:
            last[0] = l["file"]
            if key is None or key == "expansionLoc":
                return l["file"]
    return last[0]

class TU:
    """One parsed translation unit."""
    def __init__(self, source, include_dirs, defines=(), text=None, cwd=None):
        cmd = [CLANG, "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-x", "c", "-std=gnu11"]
        cmd += ["-I" + d for d in include_dirs] + ["-D" + d for d in defines]
        if text is not None:
            cmd += ["-"]
        else:
            cmd += [source]
        self.cmd = cmd
        pr = subprocess.run(cmd, input=text.encode() if text else None, stdout=subprocess.PIPE,
                            stderr=subprocess.PIPE, cwd=cwd)
        if pr.returncode:
            raise FrontError("clang failed: " + pr.stderr.decode()[:2000])
        ast = json.loads(pr.stdout)
        self.functions = {}
        self.records = {}     # name -> [(field, type)]
        self.record_by_id = {}
        self.typedefs = {}    # name -> underlying type string
        self.enums = {}       # enum constant name -> value
        last_record = None
        for node in ast.get("inner", ()):
            k = node.get("kind")
            if k == "FunctionDecl":
                if any(c.get("kind") == "CompoundStmt" for c in node.get("inner", ())):
                    self.functions[node["name"]] = node
            elif k == "RecordDecl" and node.get("completeDefinition"):
                fields = [(c["name"], _ty(c)) for c in node.get("inner", ())
                          if c.get("kind") == "FieldDecl" and "name" in c]
                self.record_by_id[node["id"]] = fields
                if "name" in node:
                    self.records["struct " + node["name"]] = fields
                last_record = fields
            elif k == "TypedefDecl":
                t = node.get("type", {})
                self.typedefs[node["name"]] = t.get("desugaredQualType", t.get("qualType"))
                # typedef of an anonymous struct
                for c in node.get("inner", ()):
                    o = c.get("ownedTagDecl") or {}
                    for cc in [c] + c.get("inner", []):
                        d = cc.get("decl") or {}
                        if d.get("id") in self.record_by_id:
                            self.records[node["name"]] = self.record_by_id[d["id"]]
                    if o.get("id") in self.record_by_id:
                        self.records[node["name"]] = self.record_by_id[o["id"]]
            elif k == "EnumDecl":
                val = -1
                for c in node.get("inner", ()):
                    if c.get("kind") == "EnumConstantDecl":
                        v = None
                        for cc in c.get("inner", ()):
                            if "value" in cc:
                                v = int(cc["value"])
                        val = val + 1 if v is None else v
                        self.enums[c["name"]] = val

    def digest(self, name):
        return hashlib.sha256(json.dumps(_strip(self.functions[name]), sort_keys=True).encode()).hexdigest()[:16]

def _strip(node):
    if isinstance(node, dict):
        return {k: _strip(v) for k, v in node.items() if k not in ("id", "loc", "range", "previousDecl")}
    if isinstance(node, list):
        return [_strip(x) for x in node]
    return node

def _ty(node):
    t = node.get("type", {})
    return t.get("desugaredQualType", t.get("qualType", ""))

ty = _ty

def line_of(node):
    r = node.get("range", {}).get("begin", {})
    for key in ("line",):
        if key in r: return r[key]
    for key in ("expansionLoc", "spellingLoc"):
        if key in r and "line" in r[key]: return r[key]["line"]
    return None
