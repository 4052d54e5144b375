"""The C tables of the v3 codec agree with the published ASN.1 schema."""
from common import *
import asn1, math

DIR = "horusbinaryv3/clib"
ROOT_TYPE = "Telemetry"
IDENT = lambda n: re.sub(r"[^A-Za-z0-9_]", "_", n)
OPS = {"INTEGER": ("asn_OP_NativeInteger", "asn_OP_INTEGER"), "BOOLEAN": ("asn_OP_BOOLEAN",), "REAL": ("asn_OP_NativeReal", "asn_OP_REAL"),
       "IA5String": ("asn_OP_IA5String",), "OCTET STRING": ("asn_OP_OCTET_STRING",), "SEQUENCE": ("asn_OP_SEQUENCE",),
       "CHOICE": ("asn_OP_CHOICE",), "OF": ("asn_OP_SEQUENCE_OF",), "ENUMERATED": ("asn_OP_NativeEnumerated", "asn_OP_ENUMERATED")}
# operation tables and the constraint functions of the run-time the op globals stand for (linking may merge identical aliases)
CONSTRAINED, EXTENSIBLE = 2, 4
bits = lambda n: max(0, (n - 1).bit_length())


def run():
    c = Check("P13", "proof", "python3 checks/P13.py",
              assumptions=["the run-time interprets its tables as documented in their headers (asn_TYPE_member_t, asn_per_constraints_t, asn_*_specifics_t)"])
    c.trusted = ["clang's constant evaluation and layout computation", "checks/asn1.py (reader of the schema)"]
    text = open(os.path.join(REPO, "horusbinaryv3/HorusBinaryV3.asn1")).read()
    M = asn1.load(text)
    if ROOT_TYPE not in M: raise Broken("schema: no type " + ROOT_TYPE)
    d = os.path.join(REPO, DIR)
    names = sorted(f for f in os.listdir(d) if f.endswith(".c"))
    # the flag the library's build passes (target_compile_definitions)
    flags = ["-I" + d, "-fno-eliminate-unused-debug-types", "-DASN_DISABLE_OER_SUPPORT=1"]
    ll = c.ir(names, flags=flags, srcdir=DIR)
    def irabs(extra):
        p = subprocess.run([IRABS, "tables"] + extra + ll, capture_output=True, text=True, timeout=600)
        out = []
        for l in p.stdout.splitlines():
            try: out.append(json.loads(l))
            except ValueError: pass
        for o in out:
            if "broken" in o: raise Broken("irabs tables: " + o["broken"])
        if p.returncode: raise Broken("irabs tables: exit %d %s" % (p.returncode, p.stderr[-200:]))
        return out
    G, S, F, where = {}, {}, {}, {}
    for o in irabs([]):
        if "global" in o: G[o["global"]] = o["value"]; where[o["global"]] = "%s/%s:%s" % (DIR, os.path.basename(o["source"]), o["line"])
        elif "struct" in o: S[o["struct"]] = o
        elif "function" in o: F[o["function"]] = o
    if "asn_DEF_" + ROOT_TYPE not in G: raise Broken("no type descriptor asn_DEF_%s" % ROOT_TYPE)
    evals, later = [], []          # (function, kind, a, b), callbacks over the results
    seen = set()
    stat = {"types": 0, "members": 0, "constraints": 0, "maps": 0, "functions": set(), "complete": 0}

    def ob(ok, rule, w, what): c.ob(ok, rule, w, what)
    def deref(p):
        if not isinstance(p, dict) or "to" not in p: return None
        return G.get(p["to"])
    def at(p, fallback): return where.get(p["to"], fallback) if isinstance(p, dict) and "to" in p else fallback

    def per_range(pc, lo, hi, ext, w, what):
        """one per constraint against the range lo..hi (None, None: unconstrained)"""
        stat["constraints"] += 1
        if lo is None and hi is None:
            ob(not pc["flags"] & 3, "constraint", w, "%s: constrained to %s..%s, the schema has no bound" % (what, pc["lower_bound"], pc["upper_bound"]))
            return
        if lo is None or hi is None: raise Broken("schema: half-open range")
        ob(pc["flags"] & 3 == CONSTRAINED, "constraint", w, "%s: not a fully constrained entry (flags %s)" % (what, pc["flags"]))
        ob(bool(pc["flags"] & EXTENSIBLE) == bool(ext), "extension", w, "%s: extension flag" % what)
        ob((pc["lower_bound"], pc["upper_bound"]) == (lo, hi), "constraint", w, "%s: %s..%s, the schema says %s..%s" % (what, pc["lower_bound"], pc["upper_bound"], lo, hi))
        ob(pc["range_bits"] == bits(hi - lo + 1), "constraint", w, "%s: %s bits for %s..%s, must be %s" % (what, pc["range_bits"], lo, hi, bits(hi - lo + 1)))

    def size(pc, sz, ext, w, what):
        lo, hi = sz if sz else (None, None)
        if sz and (hi is None): lo = hi = None
        per_range(pc, lo, hi, ext, w, what + " size")
        want = bits(hi - lo + 1) if hi is not None and hi < 65536 else -1
        ob(pc["effective_bits"] == want or (hi is None and pc["effective_bits"] < 0), "constraint", w, "%s: size determinant of %s bits, must be %s" % (what, pc["effective_bits"], want))

    def no_range(pc, w, what):
        if pc is not None: per_range(pc, None, None, False, w, what)

    def call(fn, kind, a, b=0): evals.append((fn, kind, a, b))

    def accepts(fnp, kind, w, what, lo, hi, alphabet=None):
        """the member's validation function accepts exactly the values of the schema"""
        if not isinstance(fnp, dict) or "fn" not in fnp: return
        fn = fnp["fn"]
        f = F.get(fn)
        if f is None or not fn.startswith("memb_"): return       # the generic function of the type: no member constraint of its own
        stat["functions"].add(fn)
        stat["complete"] += bool(f["compared"])
        crit = {x + e for x in list(f["constants"]) + [v for v in (lo, hi) if v is not None] for e in (-1, 0, 1)}
        if kind == "long":
            pts = sorted(x for x in crit | {-2 ** 62, 2 ** 62, -2 ** 31, 2 ** 31} if -2 ** 63 < x < 2 ** 63)
            for x in pts: call(fn, "long", x)
            def fin(R):
                for x in pts:
                    r = R.get((fn, "long", x, 0))
                    ob(r == ("0" if (lo is None or x >= lo) and (hi is None or x <= hi) else "-1"), "validation", w, "%s: %s(%d) gives %s" % (what, fn, x, r))
        elif kind == "str":
            fill = ord(alphabet[0]) if alphabet else 65
            pts = sorted(x for x in crit | set(range(0, (hi or 0) + 3)) if 0 <= x <= 4096)
            for x in pts: call(fn, "str", x, fill)
            n = max(lo or 0, 1)
            if alphabet:
                for ch in range(256): call(fn, "str", n, ch)
            def fin(R):
                for x in pts:
                    r = R.get((fn, "str", x, fill))
                    ob(r == ("0" if (lo is None or x >= lo) and (hi is None or x <= hi) else "-1"), "validation", w, "%s: %s on %d characters gives %s" % (what, fn, x, r))
                for ch in range(256) if alphabet else ():
                    r = R.get((fn, "str", n, ch))
                    ob(r == ("0" if chr(ch) in alphabet else "-1"), "validation", w, "%s: %s on character %d gives %s" % (what, fn, ch, r))
        else:
            pts = sorted(x for x in crit | set(range(0, (hi or 0) + 3)) if 0 <= x < 2 ** 31)
            for x in pts: call(fn, "list", x)
            def fin(R):
                for x in pts:
                    r = R.get((fn, "list", x, 0))
                    ob(r == ("0" if (lo is None or x >= lo) and (hi is None or x <= hi) else "-1"), "validation", w, "%s: %s on %d elements gives %s" % (what, fn, x, r))
        later.append(fin)

    def typ(t, td, memb, path, w, fieldtype=None):
        """schema type t against the descriptor named td, with the member's own constraints memb"""
        named = t.name if t.kind == "REF" else None
        t = asn1.resolve(M, t)
        D = G.get(td)
        if D is None: return ob(False, "descriptor", w, "%s: type descriptor %s not found" % (path, td))
        stat["types"] += 1
        op = (D["op"] or {}).get("to")
        ob(op in OPS[t.kind], "type", w, "%s: implemented by %s, the schema says %s" % (path, op, t.kind))
        if op not in OPS[t.kind]: return
        own = D["encoding_constraints"]
        pp = (memb or {}).get("per_constraints") or own["per_constraints"]
        P = deref(pp)
        pw = at(pp, w) if P is not None else w
        if pp is not None and P is None: return ob(False, "descriptor", w, "%s: constraints not found" % path)
        gen = (memb or {}).get("general_constraints") or own["general_constraints"]
        if t.kind == "INTEGER":
            lo, hi = t.range or (None, None)
            if P is None: ob(lo is None and hi is None, "constraint", w, "%s: no constraint, the schema says %s..%s" % (path, lo, hi))
            else: per_range(P["value"], lo, hi, t.ext, pw, path); no_range(P["size"], pw, path)
            accepts(gen, "long", w, path, lo, hi)
            sp = deref(D["specifics"])
            if sp is not None: ob(not sp["field_unsigned"] or (lo is not None and lo >= 0), "type", w, "%s: unsigned" % path)
        elif t.kind in ("BOOLEAN", "REAL"):
            if P is not None: no_range(P["value"], pw, path); no_range(P["size"], pw, path)
        elif t.kind == "OCTET STRING":
            if P is None: ob(t.size is None, "constraint", w, "%s: no size constraint" % path)
            else: no_range(P["value"] if P["value"]["upper_bound"] != 255 else None, pw, path); size(P["size"], t.size, t.sizeext, pw, path)
            if t.size: accepts(gen, "str", w, path, *t.size)
        elif t.kind == "IA5String":
            alpha = t.alphabet or "".join(map(chr, range(128)))
            if P is None: return ob(t.alphabet is None and t.size is None, "constraint", w, "%s: no constraints" % path)
            size(P["size"], t.size, t.sizeext, pw, path)
            v = P["value"]
            cs = sorted(map(ord, alpha))
            b = bits(len(cs))
            stat["constraints"] += 1
            ob(v["flags"] & 3 == CONSTRAINED and v["range_bits"] == b, "alphabet", pw, "%s: %s bits per character, the %d characters of the schema need %s" % (path, v["range_bits"], len(cs), b))
            ob((v["lower_bound"], v["upper_bound"]) == (cs[0], cs[-1]), "alphabet", pw, "%s: characters %s..%s, the schema says %s..%s" % (path, v["lower_bound"], v["upper_bound"], cs[0], cs[-1]))
            # X.691 30.5.4: characters keep their own code when it fits, otherwise they are numbered
            contiguous = cs[-1] - cs[0] + 1 == len(cs)
            v2c, c2v = (P["value2code"] or {}).get("fn"), (P["code2value"] or {}).get("fn")
            if cs[-1] >= 2 ** b and not contiguous: ob(v2c is not None and c2v is not None, "alphabet", pw, "%s: no character numbering" % path)
            if v2c and c2v:
                stat["maps"] += 1
                for i in range(256): call(v2c, "call", i); call(c2v, "call", i)
                def fin(R):
                    for i in range(256):
                        r = R.get((v2c, "call", i, 0))
                        ob(r == str(cs.index(i) if i in cs else -1), "alphabet", pw, "%s: %s(%d) is %s" % (path, v2c, i, r))
                        r = R.get((c2v, "call", i, 0))
                        ob(r == str(cs[i]) if i < len(cs) else r is not None and (r == "-1" or i >= 2 ** b), "alphabet", pw, "%s: %s(%d) is %s" % (path, c2v, i, r))
                later.append(fin)
            else: ob(v2c is None and c2v is None, "alphabet", pw, "%s: only one direction of the character numbering" % path)
            if t.size: accepts(gen, "str", w, path, t.size[0], t.size[1], alpha)
        elif t.kind == "ENUMERATED":
            n = len(t.items)
            if P is None: ob(False, "constraint", w, "%s: no range of enumeration indices" % path)
            else: per_range(P["value"], 0, n - 1, t.ext, pw, path)
            sp = deref(D["specifics"])
            if sp is None: return ob(False, "descriptor", w, "%s: no enumeration map" % path)
            mp = deref(sp["value2enum"]) or []
            sw = at(sp["value2enum"], w)
            got = [(e["enum_name"]["s"], e["nat_value"]) for e in mp[:sp["map_count"]] if isinstance(e["enum_name"], dict) and "s" in e["enum_name"]]
            want = sorted(t.items, key=lambda x: x[1])
            ob(sp["map_count"] == n and got == want, "enumeration", sw, "%s: %s, the schema says %s" % (path, got, want))
            ob(all(e["enum_len"] == len(e["enum_name"]["s"]) for e in mp[:sp["map_count"]]), "enumeration", sw, "%s: a name's length is wrong" % path)
            back = deref(sp["enum2value"]) or []
            ob(back == [want.index(x) for x in sorted(want)], "enumeration", at(sp["enum2value"], w), "%s: name order %s" % (path, back))
            ob(bool(sp["extension"]) == bool(t.ext), "extension", w, "%s: extension marker" % path)
        elif t.kind == "OF":
            if P is None: ob(t.size == (0, None), "constraint", w, "%s: no size constraint" % path)
            else: no_range(P["value"], pw, path); size(P["size"], t.size, t.sizeext, pw, path)
            if t.size[1] is not None: accepts(gen, "list", w, path, *t.size)
            E = deref(D["elements"])
            ob(E is not None and D["elements_count"] == 1, "descriptor", w, "%s: element description" % path)
            if E: ob(bool(E[0]["flags"] & 1), "type", w, "%s: elements are not held by pointer" % path); typ(t.elem, (E[0]["type"] or {}).get("to"), E[0]["encoding_constraints"], path + "[]", at(D["elements"], w))
        else:
            if td in seen: return
            seen.add(td)
            composite(t, D, P, pw, named or D["name"].get("s"), path, at(D["elements"], w))

    def composite(t, D, P, pw, sname, path, w):
        E = (deref(D["elements"]) or [])[:D["elements_count"]]
        sp = deref(D["specifics"])
        root = [x for x in t.comps if not x.ext]
        adds = [x for x in t.comps if x.ext]
        got = [e["name"].get("s") if isinstance(e["name"], dict) else None for e in E]
        names = [x.name for x in root]
        # additions behind the marker are either all known or skipped as unknown extensions
        addn = got[len(root):]
        ob(got[:len(root)] == names, "members", w, "%s: members %s, the schema says %s" % (path, got, names))
        ob(addn == [x.name for x in adds][:len(addn)], "members", w, "%s: additions %s, the schema says %s" % (path, addn, [x.name for x in adds]))
        if got[:len(root)] != names or sp is None: return
        lay = S.get(IDENT(sname))
        if lay is None: ob(False, "layout", w, "%s: struct %s not found" % (path, sname))
        comps = root + adds[:len(addn)]
        opts = [i for i, x in enumerate(comps) if x.optional or x.ext]
        if t.kind == "SEQUENCE":
            oms = (deref(sp["oms"]) or [])[:sp["roms_count"] + sp["aoms_count"]]
            ro = [i for i in opts if i < len(root)]
            ob(sp["roms_count"] == len(ro) and oms == ro + [i for i in opts if i >= len(root)], "optional", at(sp["oms"], w), "%s: optional members %s (%d in the root), the schema says %s" % (path, oms, sp["roms_count"], ro))
            ob(sp["first_extension"] == (len(root) if t.ext else -1), "extension", w, "%s: extension marker after member %s, the schema says %s" % (path, sp["first_extension"], len(root) if t.ext else "none"))
        else:
            n = len(root)
            if P is None: ob(False, "constraint", w, "%s: no range of alternatives" % path)
            else: per_range(P["value"], 0, n - 1, t.ext, pw, path)
            ob((sp["ext_start"] == n) if t.ext else sp["ext_start"] == -1, "extension", w, "%s: extension marker" % path)
            for k in ("to_canonical_order", "from_canonical_order"):
                o = deref(sp[k])
                ob(sp[k] is None or (o or [])[:n] == list(range(n)), "members", w, "%s: %s %s" % (path, k, o))
            if lay:
                pr = [f for f in lay["fields"] if f["name"] == "present"]
                ob(bool(pr) and (sp["pres_offset"], sp["pres_size"]) == (pr[0]["off"], pr[0]["size"]), "layout", w, "%s: position of the alternative's number" % path)
        tags = deref(sp["tag2el"]) or []
        if lay:
            ob(sp["struct_size"] == lay["size"], "layout", w, "%s: structure size %s, is %s" % (path, sp["struct_size"], lay["size"]))
            cx = [f for f in lay["fields"] if f["name"] == "_asn_ctx"]
            ob(bool(cx) and sp["ctx_offset"] == cx[0]["off"], "layout", w, "%s: context offset" % path)
        for i, (x, e) in enumerate(zip(comps, E)):
            stat["members"] += 1
            p = path + "." + x.name
            optional = x.optional or x.ext
            run_ = 0
            while optional and i + run_ < len(comps) and (comps[i + run_].optional or comps[i + run_].ext): run_ += 1
            if t.kind == "SEQUENCE": ob(e["optional"] == run_, "optional", w, "%s: optional count %s, the schema gives %s" % (p, e["optional"], run_))
            ob(not optional or bool(e["flags"] & 1), "optional", w, "%s: an optional member must be held by pointer" % p)
            ob(e["default_value_cmp"] is None and e["default_value_set"] is None, "optional", w, "%s: has a default value, the schema none" % p)
            ob(not e["flags"] & ~1, "type", w, "%s: flags %s" % (p, e["flags"]))
            if M.get("_tags") == "AUTOMATIC": ob(e["tag"] == (2 | i << 2), "tag", w, "%s: tag %s, automatic tagging gives [%d]" % (p, e["tag"], i))
            if lay:
                fn = ("choice." if t.kind == "CHOICE" else "") + IDENT(x.name)
                f = [f for f in lay["fields"] if f["name"] == fn]
                ob(bool(f), "layout", w, "%s: structure has no field %s" % (p, fn))
                if f:
                    ob(e["memb_offset"] == f[0]["off"], "layout", w, "%s: offset %s, the field %s is at %s" % (p, e["memb_offset"], fn, f[0]["off"]))
                    ob(bool(e["flags"] & 1) == f[0]["ptr"], "layout", w, "%s: held by pointer: %s, field: %s" % (p, bool(e["flags"] & 1), f[0]["ptr"]))
                    k = asn1.resolve(M, x.ty).kind
                    base = f[0]["type"].rstrip("*")
                    td = (e["type"] or {}).get("to", "")
                    ok = {"asn_DEF_NativeInteger": ("long", "long int", "unsigned long"), "asn_DEF_NativeReal": ("double",), "asn_DEF_BOOLEAN": ("int", "unsigned int"), "asn_DEF_IA5String": ("OCTET_STRING",), "asn_DEF_OCTET_STRING": ("OCTET_STRING",)}.get(td, ("long", "long int") if k == "ENUMERATED" else (IDENT(x.ty.name),) if x.ty.kind == "REF" else None)
                    ob(ok is None or base in ok, "layout", w, "%s: C type %s" % (p, f[0]["type"]))
            typ(x.ty, (e["type"] or {}).get("to"), e["encoding_constraints"], p, w)

    typ(asn1.Ty("REF", name=ROOT_TYPE), "asn_DEF_" + ROOT_TYPE, None, ROOT_TYPE, where["asn_DEF_" + ROOT_TYPE])
    lst = os.path.join(c.tmp, "eval")
    with open(lst, "w") as o:
        for e in sorted(set(evals)): o.write("%s %s %d %d\n" % e)
    R, bad = {}, None
    for o in irabs(["eval=" + lst]):
        if "call" in o: R[(o["call"], o["kind"], o["a"], o["b"])] = o["ret"]
    for f in later: f(R)
    c.cov["functions"] = sorted(stat["functions"])
    return c.finish({"rule": "every type descriptor reachable from asn_DEF_Telemetry has the members, order, optionality, ranges, sizes, alphabets, enumeration values and extension marker of the schema type it stands for, its offsets name the structure's fields, and its validation functions accept exactly the schema's values",
                     "types": stat["types"], "members": stat["members"], "constraint_entries": stat["constraints"], "character_maps": stat["maps"], "validation_functions": len(stat["functions"]), "validation_functions_comparing_with_constants_only": stat["complete"], "evaluations": len(set(evals))})


main(run)
