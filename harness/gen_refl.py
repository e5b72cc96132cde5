#!/usr/bin/env python3
"""usage: gen_refl.py SEED TIER OUTDIR: writes refl_gen.h, a program of reflected records, enums and type lists together
with what their declarations say (the generator knows them from its own model, not from the reflection data)."""
import random, sys
seed, tier, out = int(sys.argv[1]), sys.argv[2], sys.argv[3]
r = random.Random(seed * 7919 + 13)
PARTS = 7
NR, NE, NL, NT = (44, 28, 20, 56) if tier == "quick" else (90, 60, 50, 110)
o = []
w = o.append

PRIM = [("i8", "i8"), ("i16", "i16"), ("i32", "i32"), ("i64", "i64"), ("u8", "u8"), ("u16", "u16"), ("u32", "u32"), ("u64", "u64"), ("f32", "f32"), ("f64", "f64"), ("bool", "bool"), ("char", "char")]
# ---- enums: model is a list of (identifier, value)
enums = []
UND = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1)}
IDS = ["a", "A", "value", "name", "type", "kind", "members", "none", "first", "fi", "f", "first_", "_x", "x0", "x00", "x1", "E", "default_", "underlying", "check", "Invalid_", "very_long_enumerator_name_here_", "z", "zz", "zzz", "ok", "Ok", "OK"]
def lit(v, u):
    if v == -2**63: return "(-9223372036854775807ll - 1)"
    return str(v) + ("ull" if u == "u64" else "ll" if abs(v) > 2**31 - 2 else "")
for i in range(NE):
    u = r.choice(list(UND)); lo, hi = UND[u]
    n = r.choice([1, 1, 2, 3, 4, 5, 8, 12, 20])
    ids = r.sample(IDS, min(n, len(IDS))); ids += [f"e{k}" for k in range(n - len(ids))]
    mode = r.randrange(4); aliases = r.random() < 0.25
    vals = []
    for k in range(len(ids)):
        v = k if mode == 0 else r.choice([lo, hi, 0, 1, hi - 1, lo + 1, r.randint(lo, hi)]) if mode == 1 else r.randint(lo, hi) if mode == 2 else len(ids) - k
        if v in vals and not (aliases and r.random() < 0.5):
            v = next(x for x in range(max(lo, 0), hi + 1) if x not in vals)
        vals.append(v)
    scoped = r.random() < 0.8
    nm = f"En{i}"
    display = nm if r.random() < 0.6 else r.choice([f"Shown{i}", f"ns::En {i}", "E"])
    order = list(range(len(ids)))
    if r.random() < 0.3: r.shuffle(order)   # reflected in another order than declared
    e = dict(cpp=nm, und=u, name=display, cases=[(ids[k], vals[k]) for k in order], default=ids[r.randrange(len(ids))])
    if not scoped: ids2 = None
    w(f"enum class {nm} : {u} {{ " + ", ".join(f"{a} = {lit(b, u)}" for a, b in zip(ids, vals)) + " };")
    cases = ", ".join(f"RPP_CASE({a})" for a, _ in e["cases"])
    w(f"RPP_ENUM({nm}, {e['default']}, {cases});" if display == nm else f"RPP_NAMED_ENUM({nm}, \"{display}\", {e['default']}, {cases});")
    enums.append(e)
w("static void run_enums() {")
for i, e in enumerate(enums):
    cs = ", ".join("{\"%s\", %s}" % (a, lit(v, e["und"])) for a, v in e["cases"])
    dv = next(k for k, (a, _) in enumerate(e["cases"]) if a == e["default"])
    w(f"#if PART == {i % PARTS}\n    check_enum<{e['cpp']}, {e['und']}>(\"{e['name']}\", \"{e['cpp']}\", {{{cs}}}, {dv});\n#endif")
w("}")

# ---- records
records = []
FN = ["a", "b", "c", "x", "y", "f", "name", "type", "value", "offset", "address", "kind", "members", "length_", "data_", "n", "F", "field", "apply", "tail", "head", "underlying", "a_very_long_field_name_of_31_ch"]
def ftype(depth):
    """(declaration prefix, declarator suffix, how to fill, spelled type for decltype comparison)"""
    k = r.randrange(12)
    if k < 5: return r.choice(PRIM)[0], "", True
    if k == 5: return r.choice(PRIM)[0], f"[{r.randint(1, 5)}]", True
    if k == 6: return r.choice(PRIM)[0] + "*", "", True
    if k == 7: return r.choice(enums)["cpp"], "", True
    if k == 8 and records: return r.choice(records)["cpp"], "", True
    if k == 9: return r.choice(["String_View", "String<>", "Vec<i32>", "Vec<u8>", "Opt<i64>", "Box<i32>", "Array<i16, 3>", "Pair<i8, u64>", "Slice<i32>"]), "", True
    if k == 10: return "const " + r.choice(PRIM)[0], "", False
    return "const " + r.choice(PRIM)[0] + "*", "", True
for i in range(NR):
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 33] if i > 2 else [i])
    fs = []
    names = r.sample(FN, min(n, len(FN))); names += [f"m{k}" for k in range(n - len(names))]
    for k in range(n):
        t, suf, fill = ftype(0)
        al = r.choice(["alignas(16) ", "alignas(64) "]) if r.random() < 0.15 and not t.startswith(("Rec", "TRec")) else ""
        fs.append(dict(name=names[k], t=t, suf=suf, fill=fill, al=al))
    nm = f"Rec{i}"; kind = r.randrange(6)
    rec = dict(cpp=nm, fields=fs, name=nm)
    decl = " ".join(f"{f['al']}{f['t']} {f['name']}{f['suf']}{{}};" for f in fs)
    F = "".join(f", RPP_FIELD({f['name']})" for f in fs)
    if kind == 0:
        rec["name"] = r.choice([f"Named {i}", "R", f"a::b::Rec{i}", ""])
        w(f"struct {nm} {{ {decl} }};"); w(f"RPP_NAMED_RECORD({nm}, \"{rec['name']}\"{F});")
    elif kind == 1 and n >= 2:   # second half in a base class; reflected base fields first
        h = n // 2
        w(f"struct Base{i} {{ " + " ".join(f"{f['al']}{f['t']} {f['name']}{f['suf']}{{}};" for f in fs[:h]) + f" }}; struct {nm} : Base{i} {{ " + " ".join(f"{f['al']}{f['t']} {f['name']}{f['suf']}{{}};" for f in fs[h:]) + " };")
        w(f"RPP_RECORD({nm}{F});")
    elif kind == 2:              # a template with one argument
        w(f"template<typename Arg> struct T{nm} {{ {decl} Arg arg{{}}; }}; template<typename Arg> RPP_TEMPLATE_RECORD(T{nm}, Arg{F}, RPP_FIELD(arg));")
        at = r.choice(PRIM)[0]
        rec["name"] = f"T{nm}"; rec["cpp"] = f"T{nm}<{at}>"; rec["tn"] = f"T{nm}<{at}>"; fs.append(dict(name="arg", t=at, suf="", fill=True, al=""))
    elif kind == 3:              # unreflected fields around and between
        w(f"struct {nm} {{ u8 hidden0 = 1; " + " ".join(f"{f['al']}{f['t']} {f['name']}{f['suf']}{{}}; u{r.choice([8, 16, 64])} hidden_{k} = 7;" for k, f in enumerate(fs)) + " };")
        w(f"RPP_RECORD({nm}{F});")
    else:
        w(f"struct {nm} {{ {decl} }};"); w(f"RPP_RECORD({nm}{F});")
    records.append(rec)
w("template<> struct Fill<void> {};")
for rec in records:
    w(f"template<> struct Model<{rec['cpp']}> {{")
    w(f"    using T = {rec['cpp']}; static constexpr const char* name = \"{rec['name']}\"; static constexpr const char* tname = \"{rec.get('tn', rec['name'])}\";")
    w("    static void fill(T& t, Rng& r) { (void)t; (void)r; " + " ".join(f"refill(t.{f['name']}, r);" for f in rec["fields"] if f["fill"]) + " }")
    w("    static std::vector<Seen> fields(T& t) { (void)t; return {" + ", ".join(f"Seen{{\"{f['name']}\", (const void*)&t.{f['name']}, type_tag<decltype(t.{f['name']})>(), sizeof(t.{f['name']})}}" for f in rec["fields"]) + "}; }")
    w("    static std::string text(const T& t) { (void)t; std::string s = std::string(name) + \"{\"; " + " s += \", \"; ".join(f"s += std::string(\"{f['name']} : \") + shown(t.{f['name']});" for f in rec["fields"]) + " return s + \"}\"; }")
    w("};")
w("static void run_records(Rng& r, u64 n) {")
for i, rec in enumerate(records): w(f"#if PART == {i % PARTS}\n    check_record<{rec['cpp']}>(r, n);\n#endif")
w("}")

# ---- type lists (repeats allowed), compared with an independent encoding of the sequence
w("static void run_lists() {")
for i in range(NL):
    n = r.choice([0, 1, 2, 3, 4, 7, 12, 30])
    ts = [r.choice([p[0] for p in PRIM] + [x["cpp"] for x in enums] + [x["cpp"] for x in records] + ["void", "i32*", "const u8", "Vec<i32>"]) for _ in range(n)]
    w(f"#if PART == {i % PARTS}\n    check_list<{', '.join(ts)}>();\n#endif")
w("}")

# ---- type names: random types with their spelled name
def ty(d):
    k = r.randrange(17) if d > 0 else 0
    if k <= 2:
        p = r.choice(PRIM + [("void*", "void*")]); return p[0], p[1]
    if k == 3: e = r.choice(enums); return e["cpp"], e["name"]
    if k == 4: x = r.choice(records); return x["cpp"], x.get("tn", x["name"])
    if k == 5: a, b = ty(d - 1); return f"Vec<{a}>", f"Vec<{b}>"
    if k == 6: a, b = ty(d - 1); return f"Slice<{a}>", f"Slice<{b}>"
    if k == 7: a, b = ty(d - 1); m = r.randint(1, 99); return f"Array<{a}, {m}>", f"Array<{b}, {m}>"
    if k == 8: a, b = r.choice(PRIM[:8]); c, e = ty(d - 1); return f"Map<{a}, {c}>", f"Map<{b}, {e}>"
    if k == 9: a, b = ty(d - 1); return f"Rc<{a}>", f"Rc<{b}>"
    if k == 10: a, b = ty(d - 1); return f"Opt<{a}>", f"Opt<{b}>"
    if k == 11:
        p = [ty(d - 1) for _ in range(r.randint(0, 4))]; return "Tuple<" + ", ".join(x[0] for x in p) + ">", "Tuple<" + ", ".join(x[1] for x in p) + ">"
    if k == 12: a, b = ty(d - 1); return f"Box<{a}>", f"Box<{b}>"
    if k == 13: a, b = ty(d - 1); return f"{a}*", f"{b}*"
    if k == 14: a, b = ty(d - 1); return f"Queue<{a}>", f"Queue<{b}>"
    if k == 15: a, b = ty(d - 1); return f"Arc<{a}>", f"Arc<{b}>"
    a, b = ty(d - 1); return f"Stack<{a}>", f"Stack<{b}>"
w("static void run_names() {")
for i in range(NT):
    a, b = ty(r.randint(1, 4))
    w(f"#if PART == {i % PARTS}\n    check_name<{a}>(\"{b}\");\n#endif")
    if not a.endswith("*"):
        q, qn = r.choice([("const %s", "const %s"), ("volatile %s", "volatile %s"), ("const volatile %s", "const volatile %s"), ("%s&", "%s&"), ("%s&&", "%s&&"), ("const %s&", "const %s&"), ("%s*", "%s*"), ("const %s*", "const %s*"), ("%s[3]", "%s[3]")])
        w(f"#if PART == {i % PARTS}\n    check_name<{q % a}>(\"{qn % b}\");\n#endif")
w("}")
open(out + "/refl_gen.h", "w").write("\n".join(o) + "\n")
