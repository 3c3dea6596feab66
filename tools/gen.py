"""C15: runs the code generator on the shipped and on synthetic dictionaries, compiles what it
writes in a copy of the library and exercises it with the codec harness."""
import glob, itertools, os, re, shutil
import vlib
from vlib import REPO, VERIF, TARGET, BuildError, CheckError, cargo_build, run, tmpfile

WORK = os.path.join(TARGET, "genwork")

# type, options, kind of accessors, argument of the kind
ENTRIES = [
    ("string", "", "string", 0), ("string", "encrypt=1", "userpw", 0), ("string", "has_tag", "tstring", 0),
    ("string", "has_tag,encrypt=2", "tunnelpw", 0), ("string", "encrypt=2,has_tag", "tunnelpw", 0),
    ("octets", "", "octets", 0), ("octets", "concat", "concat", 0),
    ("octets[1]", "", "fixed", 1), ("octets[8]", "", "fixed", 8), ("octets[253]", "", "fixed", 253),
    ("ipaddr", "", "ipv4", 0), ("ipv4prefix", "", "ipv4prefix", 0), ("ipv6addr", "", "ipv6", 0),
    ("ipv6prefix", "", "ipv6prefix", 0), ("ifid", "", "fixed", 8), ("date", "", "date", 0),
    ("integer", "", "integer", 0), ("integer", "has_tag", "tinteger", 0), ("short", "", "short", 0),
]
TYPES = ["string", "octets", "octets[4]", "ipaddr", "ipv4prefix", "ipv6addr", "ipv6prefix", "ifid", "date", "integer", "short"]

def word(n, style):
    """n as letters: never a digit, so that the identifiers are unambiguous"""
    s = ""
    while True:
        s = chr(97 + n % 26) + s
        n //= 26
        if n == 0:
            break
    s = "q" + s
    return {0: s.capitalize(), 1: s.upper(), 2: s}[style]

class Dict:
    """one dictionary file, and what its module has to offer"""
    def __init__(self, mod):
        self.mod, self.lines, self.attrs, self.values = mod, [], [], []

    def attr(self, name, num, typ, opt, kind, arg, sep="\t", trail=""):
        self.lines.append(sep.join(["ATTRIBUTE", name, str(num), typ] + ([opt] if opt else [])) + trail)
        self.attrs.append((name, num, kind, arg))

    def value(self, attr, name, num, trail="", sep="\t"):
        self.lines.append(sep.join(["VALUE", attr, name, str(num)]) + trail)
        self.values.append((attr, name, num))

    def noise(self, n):
        self.lines += [[], [""], ["# a comment"], ["#", "#\tATTRIBUTE\tNot-There\t9\tstring"], ["", "#VALUE Qa Qb 1", ""]][n % 5]

    def names(self):
        f, c = set(), set()
        for n, _, k, _ in self.attrs:
            i = n.lower().replace("-", "_")
            c.add(n.upper().replace("-", "_") + "_TYPE")
            f.add("delete_" + i)
            if k == "vsa":
                f.add("add_vsa_attribute")
                continue
            f |= {"add_" + i, "lookup_" + i}
            if k != "concat":
                f.add("lookup_all_" + i)
        for a, n, _ in self.values:
            c.add((a + "_" + n).upper().replace("-", "_"))
        return f, c

SEPS = ["\t", " ", "\t\t", "    ", " \t "]
TRAILS = ["", " # comment", "\t# comment", "#comment", "\t"]
ATRAILS = ["", "\t", "\t# comment", "", " # has_tag,encrypt=1", "\t# concat", " # octets[3]"]
NUMS = [0, 1, 2, 255, 256, 65535, 65536, 2147483648, 4294967295]

def adjacent_pairs(k):
    """an Eulerian circuit of the complete digraph on k vertices: every ordered pair is adjacent once"""
    out = {i: list(range(k)) for i in range(k)}
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if out[v]:
            stack.append(out[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]

def triples(k):
    """a de Bruijn sequence: every ordered triple is adjacent"""
    seq, a = [], [0] * k * 3
    def db(t, p):
        if t > 3:
            if 3 % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:2]

def synthetic(tier):
    """sets of dictionaries; each set is given to one run of the generator"""
    sets, count = [], dict(adjacent_pairs=0, adjacent_triples=0, value_cases=0, alone=0)
    uid = itertools.count()
    def fresh_name(n):
        # two or three words, in three spellings
        u = next(uid)
        w = [word(u, n % 3), word(u % 7, (n // 3) % 3)] + ([word(u % 5, n % 3)] if n % 4 == 0 else [])
        return "-".join(w)
    # every ordered pair (and triple) of entry kinds next to each other
    def chain(tag, seq):
        d, m = None, itertools.count()
        for n, e in enumerate(seq):
            if d is None or len(d.attrs) >= 250:
                d = Dict(f"{tag}{next(m)}")
                sets.append([d])
                if n > 0:       # keep the pair (triple) that the cut would separate
                    for b in seq[max(0, n - (1 if tag == 'pair' else 2)):n]:
                        d.attr(fresh_name(n), 1 + len(d.attrs), *ENTRIES[b])
            d.noise(n)
            d.attr(fresh_name(n), 1 + len(d.attrs), *ENTRIES[e], sep=SEPS[n % len(SEPS)], trail=ATRAILS[n % len(ATRAILS)])
    seq = adjacent_pairs(len(ENTRIES))
    count["adjacent_pairs"] = len(set(zip(seq, seq[1:])))
    chain("pair", seq)
    if tier == "thorough":
        seq = triples(len(ENTRIES) if False else 12)
        pick = [0, 1, 2, 3, 5, 6, 8, 10, 13, 15, 16, 17]
        seq = [pick[x] for x in seq]
        count["adjacent_triples"] = len(set(zip(seq, seq[1:], seq[2:])))
        chain("triple", seq)
    # every entry kind alone with the smallest and largest numbers
    for j, num in enumerate([0, 255]):
        d = Dict(f"edge{j}")
        sets.append([d])
        for n, e in enumerate(ENTRIES):
            d.attr(fresh_name(n), num, *e)
            count["alone"] += 1
    d = Dict("vendor")
    d.attr("Vendor-Specific", 26, "vsa", "", "vsa", 0)
    sets.append([d])
    # values: attribute kind x where its values are x their numbers x how the lines end
    places = ["before", "after", "both", "own+later", "own+two-later", "later", "two-later", "none", "before+later"]
    for p, place in enumerate(places):
        a, b, c = Dict(f"val{p}a"), Dict(f"val{p}b"), Dict(f"val{p}c")
        sets.append([a, b, c])
        n = itertools.count()
        for opt, kind in (("", "integer"), ("has_tag", "tinteger")):
            for count_ in (1, 2, 3):
                for shift in range(len(NUMS) if tier == "thorough" else 3):
                    u = next(n)
                    name = fresh_name(u)
                    def vals(d, k):
                        for i in range(count_):
                            x = u + i + k
                            d.value(name, word(x % 11, x % 3) + "-" + word(i + 10 * k, (x // 3) % 3), NUMS[(shift * 3 + i + k) % len(NUMS)], TRAILS[x % len(TRAILS)], SEPS[(x + k) % len(SEPS)])
                            count["value_cases"] += 1
                    if place in ("before", "both", "before+later"):
                        vals(a, 1)
                    a.attr(name, 1 + len(a.attrs), "integer", opt, kind, 0)
                    if place in ("after", "both", "own+later", "own+two-later"):
                        vals(a, 2)
                    if place in ("own+later", "own+two-later", "later", "two-later", "before+later"):
                        vals(b, 3)
                    if place in ("own+two-later", "two-later"):
                        vals(c, 4)
                    a.noise(u)
        b.attr(fresh_name(1), 7, "string", "", "string", 0)
        c.attr(fresh_name(2), 8, "integer", "", "integer", 0)
    return sets, count

def unsupported():
    """dictionaries that must stop the generator: (what, lines)"""
    ok = "ATTRIBUTE\tQx-Name\t1\tstring"
    bad = []
    for t in TYPES:
        if t not in ("string", "integer"):
            bad.append((f"a tag on {t}", f"ATTRIBUTE\tQa-Bad\t9\t{t}\thas_tag"))
            if t == "octets":
                bad.append(("a tag on continued octets", f"ATTRIBUTE\tQa-Bad\t9\t{t}\thas_tag,concat"))
    bad.append(("a tag on a User-Password", "ATTRIBUTE\tQa-Bad\t9\tstring\thas_tag,encrypt=1"))
    bad.append(("a Tunnel-Password without tag", "ATTRIBUTE\tQa-Bad\t9\tstring\tencrypt=2"))
    for t in ("strin", "strings", "String", "INTEGER", "int", "octet", "octets[", "octets[]", "octets[x]", "octets[-1]", "xoctets[3]", "octets[3]x", "ip", "foo", "integer64x"):
        bad.append((f"unknown type {t}", f"ATTRIBUTE\tQa-Bad\t9\t{t}"))
    for k in ("attribute", "ATTR", "VALUES", "FOO", "BEGIN", "VENDORX", "ATTRIBUTEX"):
        bad.append((f"unknown entry {k}", f"{k}\tQa-Bad\t9\tstring"))
    for l in ("ATTRIBUTE", "ATTRIBUTE\tQa-Bad", "ATTRIBUTE\tQa-Bad\t9", "VALUE\tQx-Name", "VALUE\tQx-Name\tOne", "FOO"):
        bad.append((f"incomplete entry {l!r}", l))
    for n in ("256", "300", "65536", "-1", "x", "1.5", "99999999999"):
        bad.append((f"attribute number {n}", f"ATTRIBUTE\tQa-Bad\t{n}\tstring"))
    for n in ("4294967296", "99999999999999999999", "-1", "x", "1.5"):
        bad.append((f"value {n}", f"VALUE\tQx-Name\tOne\t{n}"))
    out = []
    for what, l in bad:
        out.append((what + ", alone", [l]))
        out.append((what + ", after a good entry", [ok, l]))
        out.append((what + ", before a good entry", [l, ok]))
    return out

def generate(gen, outdir, files):
    return run([gen, "-o", outdir, *files], timeout=60)

def write(d, directory):
    p = os.path.join(directory, "dictionary." + d.mod)
    with open(p, "w") as f:
        f.write("\n".join(d.lines) + "\n")
    return p

PUB = re.compile(r"^\s*pub\s+(?:const\s+|async\s+|unsafe\s+)*?(fn|const|static|type|struct|enum)\s+(\w+)", re.M)

def public(path):
    src = open(path, encoding="utf-8").read()
    f, c, t = set(), set(), set()
    for k, n in PUB.findall(src):
        if k == "fn":
            f.add(n)
        elif k in ("const", "static"):
            c.add(n)
        else:
            t.add(n.lower().replace("_", ""))
    return f, c, t

def value_types(mods):
    """which module has the type of an attribute's values; mods: (module, names of attributes, attributes of values) as they sort.
    A module that has values for an attribute has a type for them, unless one before it has both the attribute and values for it."""
    out, owned = {}, set()
    for mod, attrs, values in mods:
        out[mod] = {v.lower().replace("-", "") for v in values if v not in owned}
        owned |= set(attrs) & set(values)
    return out

def snapshot():
    """rows of the committed table of the shipped dictionaries, by module"""
    src = open(os.path.join(VERIF, "harness/codec/src/dict_gen.rs")).read()
    mods, at, va = {}, {}, {}
    for line in src.split("\n"):
        m = re.match(r'\s*a!\((\w+) \d+ (\w+) "([^"]*)" \d+ (\w+) (.*)\),', line)
        if m:
            f, c = mods.setdefault(m[2], (set(), set()))
            at.setdefault(m[2], set()).add(m[3])
            c.add(m[4])
            f.update(m[5].split())
            if m[1] == "vsa":
                f.add("add_vsa_attribute")
        m = re.match(r'\s*\("(\w+)", "([^"]*)", .*radius::core::\w+::(\w+) as u64\)', line)
        if m:
            mods.setdefault(m[1], (set(), set()))[1].add(m[3])
            va.setdefault(m[1], set()).add(m[2])
    t = value_types([(m, at.get(m, set()), va.get(m, set())) for m in sorted(mods)])
    return {m: (*x, t[m]) for m, x in mods.items()}

def rows(sets):
    a, v = [], []
    for d in (d for s in sets for d in s):
        for name, num, kind, arg in d.attrs:
            i, c = name.lower().replace("-", "_"), name.upper().replace("-", "_") + "_TYPE"
            fs = {"vsa": f"delete_{i}", "concat": f"add_{i} lookup_{i} delete_{i}"}.get(kind, f"add_{i} lookup_{i} lookup_all_{i} delete_{i}")
            a.append(f'        a!({kind} {arg} {d.mod} "{name}" {num} {c} {fs}),')
        for at, n, x in d.values:
            v.append(f'        ("{d.mod}", "{at}", "{n}", {x}, radius::core::{d.mod}::{(at + "_" + n).upper().replace("-", "_")} as u64),')
    return a, v

def diff(got, want):
    out = []
    for g, w, k in zip(got, want, ("function", "constant", "type")):
        for x in sorted(w - g):
            out.append(f"{k} {x} is missing")
        for x in sorted(g - w):
            out.append(f"{k} {x} is there although no entry asks for it")
    return out

def check(res, tier):
    gen = os.path.join(TARGET, "gen", "debug/generator")
    cargo_build(os.path.join(VERIF, "harness/gen"), os.path.join(TARGET, "gen"))
    vlib.build_codec("md5")      # the library itself compiles
    fails = res.fails
    def fail(space, detail, index=0):
        fails.append(dict(engine="generator", space=space, index=index, detail=detail))
    w = os.path.join(WORK, str(os.getpid()))
    shutil.rmtree(w, ignore_errors=True)
    try:
        steps(res, tier, gen, w, fail)
    finally:
        shutil.rmtree(w, ignore_errors=True)

def steps(res, tier, gen, w, fail):
    runs = 0
    lib = os.path.join(w, "radius")
    os.makedirs(w)
    shutil.copytree(os.path.join(REPO, "radius"), lib, ignore=shutil.ignore_patterns("target", ".git"))
    core = os.path.join(lib, "src/core")
    # the shipped dictionaries
    files = sorted(glob.glob(os.path.join(REPO, "dicts/dictionary.*")))
    out = os.path.join(w, "shipped")
    os.makedirs(out)
    rc, txt = generate(gen, out, files)
    runs += 1
    if rc != 0:
        fail("shipped", f"the generator fails on the shipped dictionaries: {txt[-600:]}")
        return
    got = sorted(os.listdir(out))
    want = sorted(os.path.basename(f).split(".")[-1] + ".rs" for f in files)
    if got != want:
        fail("shipped", f"the generator wrote {got} instead of {want}")
        return
    shipped = snapshot()
    for mod in shipped:
        p = os.path.join(out, mod + ".rs")
        if not os.path.exists(p):
            fail("shipped", f"no dictionary for module {mod}")
            return
        for d in diff(public(p), shipped[mod]):
            fail("shipped-names", f"{mod}: {d}")
        shutil.copy(p, os.path.join(core, mod + ".rs"))
    # synthetic ones
    sets, count = synthetic(tier)
    dd = os.path.join(w, "dicts")
    os.makedirs(dd)
    good, lines = [], 0
    for n, s in enumerate(sets):
        paths = [write(d, dd) for d in s]
        lines += sum(len(d.lines) for d in s)
        o = os.path.join(w, f"out{n}")
        outputs = {}
        perms = list(itertools.permutations(paths))
        for k, perm in enumerate(perms):
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            rc, txt = generate(gen, o, perm)
            runs += 1
            if rc != 0:
                fail("synthetic", f"the generator fails on supported dictionaries {[os.path.basename(p) for p in perm]}: {txt[-400:]}", n)
                break
            got = {f: open(os.path.join(o, f)).read() for f in sorted(os.listdir(o))}
            if sorted(got) != sorted(d.mod + ".rs" for d in s):
                fail("synthetic", f"the generator wrote {sorted(got)} for {[os.path.basename(p) for p in perm]}", n)
                break
            if k > 0 and got != outputs:
                fail("synthetic-order", f"the order of the arguments changes the output for {[os.path.basename(p) for p in perm]}", n)
            outputs = outputs or got
        else:
            bad = False
            types = value_types([(d.mod, {a[0] for a in d.attrs}, {v[0] for v in d.values}) for d in sorted(s, key=lambda d: d.mod)])
            for d in s:
                for x in diff(public(os.path.join(o, d.mod + ".rs")), (*d.names(), types[d.mod])):
                    fail("synthetic-names", f"{d.mod}: {x}", n)
                    bad = True
                shutil.copy(os.path.join(o, d.mod + ".rs"), os.path.join(core, d.mod + ".rs"))
            good.append(s)
            if bad:
                good.pop()
    res.parts.append(dict(engine="generator", dictionaries=len(files) + sum(map(len, sets)), dictionary_lines=lines, **count))
    # unsupported ones
    bad = unsupported()
    for n, (what, ls) in enumerate(bad):
        p = os.path.join(dd, "dictionary.bad")
        with open(p, "w") as f:
            f.write("\n".join(ls) + "\n")
        o = os.path.join(w, "outbad")
        os.makedirs(o, exist_ok=True)
        rc, txt = generate(gen, o, [p])
        runs += 1
        if rc == 0:
            fail("unsupported", f"{what}: the generator reports success for {ls!r}", n)
        elif rc == "timeout":
            fail("unsupported", f"{what}: the generator does not end for {ls!r}", n)
    res.parts.append(dict(engine="generator", unsupported_dictionaries=len(bad), runs=runs))
    res.traces += runs
    res.states += len(bad) + sum(len(d.attrs) + len(d.values) for s in sets for d in s)
    res.transitions += runs
    # compile and exercise everything
    with open(os.path.join(core, "mod.rs"), "a") as f:
        f.write("\n" + "".join(f"pub mod {d.mod};\n" for s in good for d in s))
    cod = os.path.join(w, "codec")
    shutil.copytree(os.path.join(VERIF, "harness/codec"), cod, ignore=shutil.ignore_patterns("target"))
    toml = open(os.path.join(cod, "Cargo.toml")).read()
    open(os.path.join(cod, "Cargo.toml"), "w").write(toml.replace('"/repo/radius"', f'"{lib}"'))
    a, v = rows(good)
    with open(os.path.join(cod, "src/dict_syn.rs"), "w") as f:
        f.write("use super::dict::*;\n\npub fn attrs() -> Vec<A> {\n    vec![\n" + "\n".join(a) + "\n    ]\n}\n\npub fn values() -> Vec<(&'static str, &'static str, &'static str, u64, u64)> {\n    vec![\n" + "\n".join(v) + "\n    ]\n}\n")
    t = os.path.join(w, "target")
    try:
        cargo_build(cod, t, "--features", "md5")
    except BuildError as e:
        m = re.search(r"error(\[\w+\])?: .*(\n.*){0,6}", str(e))
        fail("compile", "the generated modules do not compile: " + (m[0] if m else str(e)[-800:]))
        return
    d = vlib.run_engine(os.path.join(t, "debug/codec"), ["C15", tier, "OUT"], "codec-gen-C15")
    vlib.absorb(res, d, "generator/codec")
