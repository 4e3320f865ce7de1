"""Loading the facts: one program database over all workspace crates."""
import json, os

class Program:
    def __init__(self, factsdir):
        self.dir = factsdir
        self.bodies = {}        # instance id -> body
        self.items = {}         # def path -> item
        self.items_by_crate = {}
        self.adts = {}
        self.impls = []
        self.crates = {}
        self.unsafe = []
        self.by_def = {}        # def path -> [body]
        self.syms = []
        for n in sorted(os.listdir(factsdir)):
            if not n.endswith(".json"):
                continue
            d = json.load(open(os.path.join(factsdir, n)))
            cname = n[:-5]
            self.crates[cname] = d
            types = d["types"]
            for b in d["bodies"]:
                if "error" in b:
                    continue
                b["types"] = types
                b["crate"] = cname
                if b["id"] not in self.bodies:
                    self.bodies[b["id"]] = b
                    self.by_def.setdefault(b["def"], []).append(b)
            for it in d["items"]:
                it["crate"] = cname
                it["types"] = types
                if cname.endswith("-bin") and it["def"] in self.items:
                    continue
                self.items[it["def"]] = it
                self.items_by_crate.setdefault(cname, []).append(it)
                if it.get("sym"):
                    self.syms.append(it)
            for k, v in d["adts"]:
                v["types"] = types
                if k not in self.adts or v.get("local"):
                    self.adts[k] = v
            for im in d["impls"]:
                im["crate"] = cname
                im["types"] = types
                self.impls.append(im)
            for u in d["unsafe"]:
                u["crate"] = cname
                self.unsafe.append(u)

    def body(self, defpath):
        """The identity (or only) instance of an item."""
        it = self.items.get(defpath)
        if it and it.get("inst") in self.bodies:
            return self.bodies[it["inst"]]
        l = self.by_def.get(defpath, [])
        return l[0] if l else None

    def tystr(self, body, tid):
        return body["types"][tid]["s"]

    def find(self, suffix, crate=None):
        return [d for d, it in self.items.items()
                if (d == suffix or d.endswith("::" + suffix)) and (crate is None or it["crate"] == crate)]

    def variants(self, adt):
        a = self.adts.get(adt)
        return a["v"] if a else None

    def vidx(self, adt, name):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v["n"] == name:
                return i
        return None

    def fidx(self, adt, field, variant=0):
        for i, f in enumerate(self.adts[adt]["v"][variant]["f"]):
            if f["n"] == field:
                return i
        return None

    def loc(self, defpath):
        it = self.items.get(defpath)
        return it["span"] if it else "?"

    def uty(self, types, t, n=0):
        """Canonical rendering of a type (independent of re-exports)."""
        ty = types[t] if isinstance(t, int) else t
        if n > 12:
            return ty["s"]
        k = ty["k"]
        a = ty.get("a") or []
        if k == "adt":
            args = [self.uty(types, x, n + 1) if isinstance(x, int) else str(x) for x in a]
            return ty["u"] + ("<" + ",".join(args) + ">" if args else "")
        if k in ("ref", "ptr"):
            return ("&" if k == "ref" else "*") + ("mut " if ty.get("m") else "") + self.uty(types, a[0], n + 1)
        if k == "tuple":
            return "(" + ",".join(self.uty(types, x, n + 1) for x in a) + ")"
        if k in ("slice", "array"):
            return "[" + self.uty(types, a[0], n + 1) + "]"
        return ty["s"]
