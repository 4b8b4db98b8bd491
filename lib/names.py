"""Names in generated code, and the flattening of inheritance (see Names.tla, Model.tla)."""
import copy, re


def words(s):
    r = []
    for part in s.split("_"):
        r += [w for w in re.split(r"(?=[A-Z])", part) if w]
    return r


def hump(s):
    return "".join(p[:1].upper() + p[1:] for p in s.split("_"))


def first_lower(s):
    h = hump(s)
    return h[:1].lower() + h[1:]


def underline(s):
    return "_".join(w.lower() for w in words(s))


def all_upper(s):
    return "_".join(w.upper() for w in words(s))


class Model:
    """name lookup in {path: file}; names are unique in our schemas"""

    def __init__(self, files):
        self.files = files
        self.decl = {}
        self.home = {}
        for p, f in files.items():
            for d in f["decls"]:
                self.decl[d["name"]] = d
                self.home[d["name"]] = p

    def of_kind(self, kind):
        return [n for n, d in self.decl.items() if d["kind"] == kind]

    def ancestors(self, name):
        r = []
        for b in self.decl[name]["bases"]:
            r += [b] + self.ancestors(b)
        return r

    def fields(self, name):
        """bases first, then own; the first of a name wins"""
        seen, r = set(), []

        def go(n):
            for b in self.decl[n]["bases"]:
                go(b)
            for f in self.decl[n]["fields"]:
                if f["name"] not in seen:
                    seen.add(f["name"])
                    r.append(f)
        go(name)
        return r

    def methods(self, name):
        seen, r = set(), []

        def go(n):
            d = self.decl[n]
            for m in d["methods"]:
                if m["name"] not in seen:
                    seen.add(m["name"])
                    r.append((m, n))
            for b in d["bases"]:
                go(b)
        go(name)
        return r

    def record(self):
        """the declarations for Model.tla"""
        return [dict(self.decl[n], pkg=[x["v"] for x in self.files[self.home[n]]["pkgs"] if x["k"] == "go"][0].split(".")[-1])
                for n in self.decl]

    def visible(self, path):
        """the declarations a file sees"""
        import posixpath
        r = [d["name"] for d in self.files[path]["decls"]]
        for lit in self.files[path]["imports"]:
            q = posixpath.normpath(posixpath.join(posixpath.dirname(path), lit))
            r += [d["name"] for d in self.files[q]["decls"]]
        return r


def tame(rng, files, keys=None, diamonds=()):
    """Makes the schema one whose meaning the targets can all express: no member is
    declared twice in an inheritance tree, but for a member that overrides an inherited
    one with the same type, and no base is inherited twice (but for the given kinds)."""
    m = Model(files)
    sight = {p: set(m.visible(p)) for p in files}

    def override(n, x, old):
        """makes x the same as the inherited member, if its types are visible"""
        if "type" in x:
            names = [x_ for x_ in (old["type"]["of"], old["type"].get("key")) if x_ in m.decl]
        else:
            names = [t for t in (old["res"], old["par"]) if t in m.decl]
        if not set(names) <= sight[m.home[n]]:
            return False
        x["name"] = old["name"]
        for k in ("type", "res", "par"):
            if k in x:
                x[k] = copy.deepcopy(old[k])
        return True
    done = {}
    fresh = [0]
    types = {hump(n) for n in m.decl}

    def new(n):
        fresh[0] += 1
        return "%s%d" % (n, fresh[0])

    def go(n):
        if n in done:
            return done[n]
        d = m.decl[n]
        seen_base, seen = set(), {}
        keep = []
        for b in d["bases"]:
            names = go(b)
            anc = {b} | set(m.ancestors(b))
            if d["kind"] in diamonds and anc & seen_base:
                # a base that comes in two ways brings the same members
                if any(x is not seen.get(k, x) for k, x in names.items()):
                    continue
            elif anc & seen_base or set(names) & set(seen):
                continue
            seen_base |= anc
            seen.update(names)
            keep.append(b)
        d["bases"] = keep
        own, inherited = set(), dict(seen)
        members = d["fields"] + d["methods"]
        for x in members:
            if inherited and rng.random() < 0.2:
                old = rng.choice(sorted(inherited))
                if old not in own | {underline(y["name"]) for y in members if y is not x} and override(n, x, inherited[old]):
                    own.add(old)
                    continue
            while underline(x["name"]) in seen or hump(x["name"]) in types:
                x["name"] = new(x["name"])
            seen[underline(x["name"])] = x
            own.add(underline(x["name"]))
        done[n] = seen
        return seen
    if keys:
        for d in m.decl.values():
            for f in d["fields"]:
                t = f["type"]
                if t["shape"] == "map" and t["key"] not in keys and (t["key"] not in m.decl or m.decl[t["key"]]["kind"] != "enum"):
                    t["key"] = rng.choice(keys)
    for n in m.decl:
        go(n)
    return files
