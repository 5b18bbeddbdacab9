"""Jobs of every property."""


class Job:
    def __init__(self, name, file, bounds, defs=(), unwind=8, unwindset=(), timeout=700, mem=12, object_bits=9,
                 std_checks=False, extra_checks=("--bounds-check", "--pointer-check"), may_fail=False, flags=(), thorough_only=False,
                 quick_only=False, witness=True, native_defs=(), native_flags=(), cost=1,
                 hang_is_violation=False, max_unwind=100000,
                 engine="cbmc", procs=8, max_instr=100000000):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.defs = list(defs)
        self.unwindset = list(unwindset)
        self.flags = list(flags)
        self.native_defs = list(native_defs)
        self.native_flags = list(native_flags)
        self.extra_checks = list(extra_checks)


class Sym(Job):
    """A job of the symbolic executor."""
    def __init__(self, name, file, bounds, defs=(), **kw):
        kw.setdefault("timeout", 720)
        super().__init__(name, file, bounds, defs, engine="sym", **kw)
        for k in ("engine", "procs", "max_instr"):
            if k in kw:
                setattr(self, k, kw[k])
        self.engine = "sym"


class Prop:
    def __init__(self, jobs, assumptions=(), workers=8):
        self.jobs = jobs
        self.assumptions = list(assumptions)
        self.workers = workers


PROPS = {}


def P(pid, jobs, assumptions=(), workers=8):
    PROPS[pid] = Prop(jobs, assumptions, workers)



TEXT = ("CINIT", "JSON", "SCM", "XML1", "XML2", "YAML")
ALL = ("CINIT", "JSON", "SCM", "XML1", "XDR", "XML2", "YAML")
MODEL = "libc is modelled (engine/model.c, libc semantics in C, allocation never fails unless the harness says so)"
XML2 = "XML2 and YAML: libxml2's tree/parser and libyaml's parser/emitter are replaced by small models (engine/model_xml.c, model_yaml.c) for documents of the subset the library writes; bytes 0x20..0x7e only"
XDRM = "XDR: libtirpc primitives are modelled (engine/model_xdr.c, RFC 4506)"
LIBA = [MODEL, XML2, XDRM]


def per_format(name, file, bounds, defs=(), formats=ALL, copy=False, **kw):
    """One job per serialization format (and one for the deep copy)."""
    res = [Sym(f"{name}-{f.lower()}", file, f"{f}: {bounds}", [f"-DFMT={f}"] + list(defs), **kw) for f in formats]
    if copy:
        res.append(Sym(f"{name}-copy", file, f"deep copy: {bounds}", ["-DCOPY"] + list(defs), **kw))
    return res


def strings(name, file, bounds, defs, n, tn=None, lo=1, **kw):
    """Text formats see all bytes lo..255, XML2 and YAML printable ones."""
    res = []
    for f in ALL:
        r = ["-DLO=32", "-DHI=126"] if f in ("XML2", "YAML") else [f"-DLO={lo}", "-DHI=255"]
        rt = "bytes 32..126" if f in ("XML2", "YAML") else f"bytes {lo}..255"
        res.append(Sym(f"{name}-{f.lower()}", file, f"{f}: {bounds}, {n} symbolic bytes, {rt}", [f"-DFMT={f}", f"-DN={n}"] + r + list(defs), **kw))
        if tn:
            res.append(Sym(f"{name}-{f.lower()}-{tn}", file, f"{f}: {bounds}, {tn} symbolic bytes, {rt}",
                           [f"-DFMT={f}", f"-DN={tn}"] + r + list(defs), thorough_only=True, **dict(kw, timeout=3000)))
    return res


P("C01", [
    Job("read-small", "bitfield.c", "read: width 1..64, shift 0..7, all 13 base types, any memory image", ["-DREAD", "-DWLO=1", "-DWHI=64", "-DNBYTES=9"], unwind=129),
    Job("read-wide", "bitfield.c", "read: width 65..128, shift 0..7", ["-DREAD", "-DWLO=65", "-DWHI=128", "-DNBYTES=17"], unwind=129),
    Job("write-small", "bitfield.c", "write: width 1..64, shift 0..7, all base types, any value, any memory image", ["-DWLO=1", "-DWHI=64", "-DNBYTES=9"], unwind=129),
    Job("write-wide", "bitfield.c", "write: width 65..128", ["-DWLO=65", "-DWHI=128", "-DNBYTES=17"], unwind=137),
], ["mr_load_bitfield_value/mr_save_bitfield_value are entered with field descriptors of the layouts GCC uses (offset, shift < 8, width)"])

J = []
for t in ("int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "bool", "long", "unsigned long long"):
    J += per_format("int-" + t.replace(" ", "_"), "rt_int.c", f"every value of {t}", [f"-DT={t}"])
for t in ("mr_intmax_t", "mr_uintmax_t"):
    J += per_format(f"int128-{t}", "rt_int.c", f"{t}: powers of two, plus and minus one, shifted by 0..127 (one path each)",
                    [f"-DT={t}", "-DVAL=(T)(((((mr_uintmax_t)1)<<vh_pick(128))+vh_pick(3)-1)*(vh_pick(2)?1:-1))"])
J += [Job("strtouint", "strtouint.c", "every 4-character string: value, end pointer and base detection of the number scanner", ["-DLEN=4"], unwind=6)]
P("C02", J, LIBA, workers=4)

J = strings("str", "rt_str.c", "string", ["-DKIND=0"], 2, 3) + strings("arr", "rt_str.c", "array of char", ["-DKIND=1"], 2) + \
    strings("ca", "rt_str.c", "char array type", ["-DKIND=3"], 2, 3) + strings("char", "rt_str.c", "character", ["-DKIND=2"], 1, lo=0) + \
    per_format("names", "rt_names.c", "fields named like literals of the formats")
P("C03", J, LIBA, workers=4)

J = []
for k, b in enumerate(["every topology of 3 nodes with 2 links each (null, sharing, cycles)", "pointers to members and separate integers",
                       "shared and separate strings", "pointers into a sized array", "arrays of pointers", "strings and pointers to strings",
                       "untyped pointers", "unions holding pointers"]):
    J += per_format(f"graph{k}", "graph.c", b, [f"-DKIND={k}"])
G = list(J)
J += per_format("windows", "graph.c", "2 nested windows (pointer and size) into an array of 3", ["-DKIND=8", "-DNESTED", "-DLEN=3", "-DWINS=2"], formats=TEXT)
J += per_format("windows", "graph.c", "3 arbitrary overlapping windows (pointer and size) into an array of 4", ["-DKIND=8", "-DLEN=4", "-DWINS=3"], formats=("XDR",))
J += per_format("overlap", "graph.c", "2 arbitrary overlapping windows (pointer and size) into an array of 3", ["-DKIND=8", "-DLEN=3", "-DWINS=2"], formats=TEXT)
J += per_format("ptrptr", "graph.c", "pointers to pointers (to integers, structures, strings)", ["-DKIND=9"])
J += per_format("ptrptr-shared", "graph.c", "pointers to pointers, the inner pointer shared", ["-DKIND=9", "-DSHARE"])
P("C04", J, LIBA, workers=4)

J = []
for k in range(8):
    J.append(Sym(f"graph{k}", "graph.c", "deep copy: " + G[7 * k].bounds.split(": ", 1)[1], ["-DCOPY", f"-DKIND={k}"]))
J.append(Sym("windows", "graph.c", "deep copy: 3 arbitrary overlapping windows into an array of 4", ["-DCOPY", "-DKIND=8", "-DLEN=4", "-DWINS=3"]))
J.append(Sym("ptrptr-copy", "graph.c", "deep copy: pointers to pointers", ["-DCOPY", "-DKIND=9"]))
J.append(Sym("ptrptr-shared-copy", "graph.c", "deep copy: pointers to pointers, the inner pointer shared", ["-DCOPY", "-DKIND=9", "-DSHARE"]))
P("C05", J, [MODEL], workers=4)

J = [Job(f"hsort-{n}", "hsort.c", f"{n} elements, any keys, any comparison outcome", [f"-DN={n}", f"-DCNT={n}"], unwind=n + 3) for n in range(0, 7)]
for t in ("int8_t", "uint8_t", "bool", "uint16_t", "int32_t", "uint64_t", "mr_int128_t", "mr_uint128_t"):
    J.append(Sym(f"sort-{t}", "sort.c", f"4 elements of {t}, any values", ["-DKIND=0", f"-DT={t}", "-DCNT=4", "-DGUARD=1"]))
for k, n, b in ((1, 4, "character arrays, also unterminated"), (2, 4, "strings of up to 2 characters, NULL included"), (3, 4, "structures"), (4, 3, "structures with strings"),
                (5, 3, "structures with floats, NaN included"), (6, 4, "enumerations"), (7, 4, "structures with unions")):
    J.append(Sym(f"sort{k}", "sort.c", f"{n} {b}", [f"-DKIND={k}", f"-DCNT={n}", "-DGUARD=0"]))
    J.append(Sym(f"sort{k}-guard", "sort.c", f"3 {b}, another one behind them", [f"-DKIND={k}", "-DCNT=3", "-DGUARD=1"]))
for k in (4, 5):
    J.append(Sym(f"sort{k}-4", "sort.c", "4 elements", [f"-DKIND={k}", "-DCNT=4", "-DGUARD=0"], thorough_only=True, timeout=3000))
P("C07", J, [MODEL])
P("C08", [
    Job("append", "rarray.c", "4 appends of 0..3 bytes", ["-DSTEPS=4", "-DMAXEL=3"], unwind=33),
    Job("args", "rarray_args.c", "any size, allocated size and element size", [], unwind=4),
])

J = []
for k, b in enumerate(["enumeration", "", "member name", "char array", "pointer to enumeration", "bit field", "overrides", "anonymous union",
                       "named anonymous union", "array of unions", "pointer to union", "discriminator in an outer structure",
                       "signed bit field", "overrides, signed bit field", "bit field of an enumeration", "overrides by negative numbers"]):
    if k != 1:
        J += per_format(f"union{k}", "union.c", f"discriminator: {b}; every member, any value", [f"-DDK={k}"], copy=True)
for t in ("bool", "int8_t", "uint8_t", "int16_t", "uint32_t", "int32_t"):
    J += per_format(f"union-{t}", "union.c", f"discriminator: every value of {t}", ["-DDK=1", f"-DDT={t}"], copy=True, formats=("JSON", "XDR"))
for t in ("int64_t", "uint64_t", "mr_intmax_t", "mr_uintmax_t"):
    J += per_format(f"union-{t}", "union.c", f"discriminator: every value of {t}", ["-DDK=1", f"-DDT={t}"], copy=True, formats=("XDR",))
P("C09", J, LIBA, workers=4)

J = []
for e in range(7):
    d = [f"-DE={e}"] + ([f"-DMASK=0x2F"] if e == 1 else ["-DMASK=0x8000000100000011"] if e == 4 else [])
    J += per_format(f"enum{e}", "enum.c", "enumeration " + str(e), d)
    J.append(Sym(f"enum{e}-lookup", "enum.c", "lookup of any value", d))
P("C10", J, LIBA, workers=4)

J = []
for k, b in enumerate(["fixed dimensions", "sized resizable array", "structures with strings", "partly used array", "arrays of pointers and strings",
                       "nested sized arrays", "strings of a fixed length, also unterminated, in arrays and behind pointers"]):
    J += per_format(f"array{k}", "arrays.c", b, [f"-DKIND={k}"], copy=True)
J += per_format("array3-int8", "arrays.c", "partly used array of int8_t", ["-DKIND=3", "-DDT=int8_t"], copy=True)
P("C11", J, LIBA, workers=4)

J = []
for n in range(0, 11):
    for nm, avl in (("rb", []), ("avl", ["-DAVL", "-DBITS=0"])):
        for op, d in (("insert", []), ("delete", ["-DDELETE"])):
            J.append(Sym(f"{nm}-{op}-{n}", "btree.c", f"every {'AVL' if avl else 'red-black'} tree of {n} nodes, 3 pool orders, one {op} of any key",
                         [f"-DCNT={n}"] + avl + d, thorough_only=(n > 8), timeout=1500 if n > 8 else 720))
for nm, avl in (("rb", []), ("avl", ["-DAVL", "-DBITS=0"])):
    for n in (3, 5):
        J.append(Sym(f"{nm}-orders-{n}", "btree.c", f"every tree of {n} nodes, every rotation of the pool order, delete", [f"-DCNT={n}", "-DALLROT", "-DDELETE"] + avl))
    for n in (0, 3, 7):
        J.append(Sym(f"{nm}-oom-{n}", "btree.c", f"every tree of {n} nodes, insert, allocation may fail", [f"-DCNT={n}", "-DOOM"] + avl))
for op, d in (("insert", []), ("delete", ["-DDELETE"])):
    J.append(Sym(f"avl-{op}-12", "btree.c", f"every AVL tree of 12 nodes, one {op} of any key", ["-DCNT=12", "-DAVL", "-DBITS=0"] + d, thorough_only=True, timeout=1500))
for nm, op, n, lv, slow in (("rb", "insert", 6, 1, 0), ("rb", "delete", 3, 2, 0), ("rb", "delete", 5, 1, 0), ("avl", "insert", 5, 1, 0), ("avl", "delete", 3, 2, 0),
                            ("avl", "delete", 4, 1, 0), ("avl", "insert", 6, 1, 1), ("avl", "delete", 5, 1, 1), ("rb", "delete", 4, 2, 1), ("avl", "delete", 4, 2, 1)):
    J.append(Sym(f"{nm}-{op}-path-{n}-{lv}", "btree.c", f"{op} at the end of{' or on' if op[0] == 'd' else ''} every path of {n} nodes, every shape of the topmost {lv} level{'s' * (lv > 1)} of the subtrees beside it",
                 [f"-DSPINE={n}", f"-DLEVELS={lv}"] + (["-DAVL", "-DBITS=0"] if nm == "avl" else []) + (["-DDELETE"] if op[0] == "d" else []),
                 thorough_only=bool(slow), timeout=1500))
P("C06", J, [MODEL, "the comparison function is a strict order of the keys"], workers=8)

J = []
for ic in ("SORTED_ARRAY", "STATIC_ARRAY", "UNSORTED_ARRAY", "RBTREE", "AVLTREE"):
    b = [f"-DIC=MR_IC_{ic}"]
    nm = ic.lower()
    J.append(Sym(f"{nm}-3", "ic.c", "3 operations on 3 keys of any order", b + ["-DANYKEY", "-DHASH=i", "-DS=3"]))
    J.append(Sym(f"{nm}-oom", "ic.c", "4 keys of any order, all indexed, one operation, one allocation may fail", b + ["-DANYKEY", "-DHASH=i", "-DK=4", "-DPRE=4", "-DS=1", "-DOOM"]))
    J.append(Sym(f"{nm}-9", "ic.c", "9 keys, 8 indexed, 2 operations", b + ["-DHASH=i", "-DK=9", "-DPRE=8", "-DS=2"]))
    J.append(Sym(f"{nm}-reindex", "ic.c", "index of 3 elements, 1 operation, reindexing", b + ["-DHASH=i", "-DM=3", "-DS=1", "-DREINDEX"] + (["-DDISTINCT"] if ic[0] == "U" else [])))
    J.append(Sym(f"{nm}-4", "ic.c", "4 operations on 4 keys of any order", b + ["-DANYKEY", "-DHASH=i", "-DS=4", "-DK=4"], thorough_only=True, timeout=3000))
b = ["-DIC=MR_IC_HASH"]
J.append(Sym("hash-2", "ic.c", "2 operations on 2 keys, any hash values", b + ["-DANYHASH", "-DK=2", "-DS=2"]))
J.append(Sym("hash-3", "ic.c", "3 operations on 3 keys, any hash values", b + ["-DANYHASH", "-DK=3", "-DS=3"]))
J.append(Sym("hash-any", "ic.c", "3 operations on 2 keys of any order (zero included), any hash values", b + ["-DANYHASH", "-DANYKEY", "-DK=2", "-DS=3"]))
J.append(Sym("hash-oom", "ic.c", "7 keys, 5 indexed, 2 operations, one allocation may fail", b + ["-DHASH=8-i", "-DK=7", "-DPRE=5", "-DS=2", "-DOOM"]))
J.append(Sym("hash-grow", "ic.c", "12 keys, 11 indexed, 1 operation, one allocation may fail", b + ["-DHASH=i", "-DK=12", "-DPRE=11", "-DS=1", "-DOOM"]))
J.append(Sym("hash-reindex", "ic.c", "index of 3 elements, 1 operation, reindexing", b + ["-DHASH=i", "-DM=3", "-DS=1", "-DREINDEX"]))
J.append(Sym("hash-4", "ic.c", "4 operations on 3 keys, any hash values", b + ["-DANYHASH", "-DK=3", "-DS=4"], thorough_only=True, timeout=3000))
P("C16", J, [MODEL, "comparison is a strict order consistent with the hash function"], workers=8)

J = []
for k, b in enumerate(["3 nodes with 2 links each (null, sharing, cycles)", "pointers to members and separate integers", "shared and separate strings", "pointers into a sized array",
                       "arrays of pointers", "strings and pointers to strings", "untyped pointers", "unions holding pointers"]):
    J += per_format(f"graph{k}", "graph.c", b, [f"-DKIND={k}", "-DLEAKS"], copy=True)
J += per_format("windows", "graph.c", "2 arbitrary windows into an array of 3", ["-DKIND=8", "-DLEN=3", "-DWINS=2", "-DLEAKS"], copy=True)
J += per_format("ptrptr", "graph.c", "pointers to pointers", ["-DKIND=9", "-DLEAKS"], copy=True)
for k in range(7):
    J += per_format(f"array{k}", "arrays.c", f"arrays of kind {k} (see C11)", [f"-DKIND={k}", "-DLEAKS"], copy=True)
for k in (2, 3, 4, 9, 10, 11):
    J += per_format(f"union{k}", "union.c", f"unions of kind {k} (see C09)", [f"-DDK={k}", "-DLEAKS"], copy=True)
P("C12", J, LIBA, workers=8)

J = []
for k, b in enumerate(["int8, uint16, int32, uint64", "uint8, int16, int128, bool", "enumerations and bit fields", "characters and character arrays, also unterminated", "strings, NULL and shared ones",
                       "float and double", "complex numbers", "union", "sized array", "graph of 2 nodes", "array of structures and a pointer", "long double"]):
    J.append(Sym(f"equal{k}", "cmp.c", f"two objects: {b}; equality is sameness of the content, equal objects have equal hashes", [f"-DKIND={k}"]))
    J.append(Sym(f"order{k}", "cmp.c", f"three objects: {b}" + {4: " (up to 2 characters)", 9: " with one link each"}.get(k, "") + "; antisymmetry, transitivity", [f"-DKIND={k}", "-DORDER"]))
J.append(Sym("order4-deep", "cmp.c", "three objects: strings", ["-DKIND=4", "-DORDER", "-DDEEP"], thorough_only=True, timeout=3000))
P("C13", J, [MODEL], workers=8)

J = []
for o, nm, mx in ((2, "copy", 60), (3, "compare", 80), (4, "hash", 60)):
    for a in ([], ["-DALL"]):
        J.append(Sym(nm + ("-all" if a else "-one"), "oom.c", f"{nm} of 4 object graphs, " + ("every allocation from the n-th on fails" if a else "the n-th allocation fails") + f", n < {mx} (asserted to be all)",
                     [f"-DOP={o}", f"-DMAXALLOC={mx}"] + a))
for o, nm, mx in ((0, "save", 120), (1, "load", 160)):
    for a in ([], ["-DALL"]):
        J += per_format(nm + ("-all" if a else "-one"), "oom.c", f"{nm} of 4 object graphs, " + ("every allocation from the n-th on fails" if a else "the n-th allocation fails") + f", n < {mx} (asserted to be all)",
                        [f"-DOP={o}", f"-DMAXALLOC={mx}"] + a)
for k in (1, 2, 3, 4, 5, 6, 7, 9):
    J += per_format(f"graph{k}", "graph.c", f"object graphs of kind {k} (see C04), any one allocation of the transfer fails (the number of them is counted)", [f"-DKIND={k}", "-DOOM"], copy=True, formats=("JSON", "XDR"))
for k in range(1, 7):
    J += per_format(f"array{k}", "arrays.c", f"arrays of kind {k} (see C11), any one allocation of the transfer fails", [f"-DKIND={k}", "-DOOM"], copy=True, formats=("JSON", "XDR"))
P("C14", J, [x.replace(", allocation never fails unless the harness says so", "; failing allocations are those of the library's own allocator hooks") for x in LIBA], workers=8)

J = []
KINDS = ("scalars and a string", "references", "sized, partly used and character arrays", "union, enumeration, bit field", "strings of a fixed length")
quick = {"JSON": (0, 1, 2, 4), "SCM": (0, 1, 3), "XML1": (0, 1, 2, 3, 4), "CINIT": (0,), "XML2": (0,), "YAML": (0, 4)}
for f in TEXT:
    for k, b in enumerate(KINDS):
        J.append(Sym(f"{f.lower()}-{k}", "malformed.c", f"{f}: image of {b}, one byte at any position replaced by any value (also truncation)", [f"-DFMT={f}", f"-DKIND={k}"],
                     thorough_only=k not in quick[f], timeout=600 if k in quick[f] else 3000))
    if f in ("JSON", "SCM", "XML1"):
        J.append(Sym(f"{f.lower()}-two", "malformed.c", f"{f}: image of {KINDS[0]}, two adjacent bytes at any position replaced", [f"-DFMT={f}", "-DKIND=0", "-DM=2"], thorough_only=True, timeout=3000))
for k, b in enumerate(KINDS):
    J.append(Sym(f"xdr-{k}", "malformed.c", f"XDR: image of {b}, two adjacent 32-bit words at any position replaced by any values, allocations of more than 12 bytes whose size is read from the input are refused",
                 ["-DFMT=XDR", "-DBINARY", "-DM=8", f"-DKIND={k}"]))
    J.append(Sym(f"xdr-{k}-three", "malformed.c", f"XDR: image of {b}, three adjacent words replaced, allocations of more than 12 bytes whose size is read from the input are refused",
                 ["-DFMT=XDR", "-DBINARY", "-DM=12", f"-DKIND={k}"], thorough_only=True, timeout=3000))
P("C15", J, LIBA + ["XML2 and YAML: damage is applied to the model's image; the models deliver well-formed trees and event sequences or an error, as the libraries do",
                    "no floating point literal in the input (strtold is pruned)"], workers=8)
