#!/usr/bin/env python3
"""The texts of the properties: writes properties.jsonl and MANIFEST.json."""
import json
from jobs import PROPS

TECH = "bounded symbolic execution of the library's LLVM code (vsym), Z3 decides branches, addresses and assertions; counterexamples replayed natively"
CB = "bounded model checking of the real C functions with CBMC, counterexamples replayed natively"
BOTH = "CBMC on the real C functions and symbolic execution of the library's LLVM code with Z3; counterexamples replayed natively"
ps, na = [], []


def prop(id, title, statement, over, text, why, files, mech, tech=TECH, note="", napp=None, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    ps.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a,
               "_tech": tech, "_note": note, "_na": napp})


prop("C01", "Bit fields are read and written exactly, neighbours untouched",
     "Reading a bit field through reflection yields its value, correctly sign or zero extended, for every base type, width and position. "
     "Writing one changes exactly the bits of that field and nothing else in memory. A bit field keeps its value through save and load and through a deep copy.",
     ["inputs"], "all memory images and values; widths 1..128, bit offsets 0..7, all integer base types",
     "tests use a handful of structures with sample values; width, offset, sign and the surrounding bits are a product no test list covers",
     ["src/metaresc.c", "src/mr_load.c", "src/mr_save.c", "src/mr_stringify.c"],
     [("bit field access", "mr_load_bitfield_value, mr_save_bitfield_value"), ("layout detection", "mr_fd_init_bitfield_params")], BOTH)
prop("C02", "Integers survive text and binary serialization",
     "For every integer type, every value that is saved in any of the formats (C initializer, JSON, Scheme, both XML forms, YAML, XDR) is loaded back unchanged, "
     "and the neighbouring fields are not disturbed. The scanner of numbers accepts decimal, hexadecimal, octal and binary literals and returns exactly their value.",
     ["inputs"], "every value of every 8..64 bit integer type in every format; selected 128 bit values; all 4 character literals",
     "tests save some sample values; the property is about every value, in particular those at digit count and sign boundaries",
     ["src/mr_stringify.c", "src/mr_load.c", "src/metaresc.c", "src/xdr.c", "src/json_save.c", "src/cinit_save.c", "src/scm_save.c", "src/xml_save.c", "src/yaml_save.c",
      "src/cinit_load.y", "src/json_load.y", "src/scm_load.y"],
     [("printing", "mr_ra_printf_*_default"), ("scanning", "mr_strtouintmax, mr_load_integer"), ("XDR", "xdr_int*_")], BOTH)
prop("C03", "Strings and characters survive serialization byte for byte",
     "A string, a character array or a single character saved in any format is loaded back with exactly the same bytes, including quotes, backslashes, control and non-ASCII characters. "
     "Loaded strings are independent copies. A field whose name is a literal or keyword of the format is saved and loaded like any other.",
     ["inputs"], "all strings of 2 (thorough 3) arbitrary non-null bytes; single characters 0..255; XML2 and YAML: bytes 32..126",
     "escaping rules depend on combinations of adjacent bytes; tests try single characters in fixed surroundings",
     ["src/cinit_save.c", "src/json_save.c", "src/scm_save.c", "src/xml_save.c", "src/yaml_save.c", "src/cinit_load.y", "src/json_load.y", "src/scm_load.y", "src/xml1_load.y",
      "src/lexer.h", "src/flt_values.h", "src/mr_load.c"],
     [("quoting", "*_quote_string, *_ra_printf_char"), ("unquoting", "cinit_unquote_str, json_unquote_str, scm_unquote_str, xml_unquote_string")])
prop("C04", "A saved pointer graph is loaded back isomorphic",
     "Whatever the shape of the object graph - null pointers, sharing, cycles, self references, pointers to members, to elements of arrays, to union members, untyped pointers - "
     "loading a saved image gives a graph of the same shape with the same values. Two pointers are equal after loading exactly when they were equal before. "
     "The loaded graph shares no memory with the source.",
     ["inputs"], "all topologies of 3 nodes with 2 links and every aliasing choice in the other families, in each of the 7 formats",
     "the number of aliasing patterns is exponential; tests contain a few hand-written graphs",
     ["src/mr_save.c", "src/mr_load.c", "src/xdr.c", "src/cinit_load.y", "src/json_load.y", "src/scm_load.y", "src/xml_load.c", "src/yaml_load.c"],
     [("node identity", "mr_add_ptr_to_list, mr_resolve_matched, mr_resolve_pointer"), ("references", "mr_ref_idx, mr_post_process, mr_set_crossrefs")])
prop("C05", "A deep copy is isomorphic to its source and disjoint from it",
     "A deep copy has the same shape and values as the source, whatever its sharing and cycles. It shares no memory with the source, which is left unchanged. "
     "Source and copy can be freed independently.",
     ["inputs"], "the same families of graphs as for saving",
     "the number of aliasing patterns is exponential; tests contain a few hand-written graphs",
     ["src/mr_extra.c", "src/mr_save.c"], [("copy", "mr_copy_recursively, mr_dump_struct_type_add_ptr"), ("free", "mr_free_recursively")])
prop("C07", "Sorting gives an ordered permutation",
     "The generic sort leaves the elements in the order of the comparison function. The result is a permutation of the input: no element is lost, duplicated or modified, and nothing outside the array is touched. "
     "This holds for every element count, duplicates included.",
     ["inputs"], "arrays of 0..6 elements with arbitrary keys; 3 or 4 elements of integer, character array, string, enumeration, structure and union types through the public interface",
     "tests sort a few arrays; the heap shape and the comparisons depend on every key",
     ["src/mr_hsort.c", "src/mr_ic.c"], [("heap sort", "mr_hsort"), ("interface", "mr_generic_sort, mr_basic_types_sort, MR_GENERIC_SORT")], CB)
prop("C08", "Growing arrays keep their content and never overflow",
     "Appending to a resizable array preserves what it already held and adds exactly the new element; size and capacity stay consistent. Sizes that cannot be represented are refused rather than wrapped around. "
     "No byte outside the allocated block is read or written.",
     ["inputs", "histories"], "sequences of 4 appends of 0..3 bytes, and a single allocation with any sizes",
     "the interesting cases are arithmetic limits that tests cannot allocate",
     ["src/metaresc.c"], [("growth", "mr_rarray_allocate_element, mr_rarray_append")], CB)
prop("C09", "The union member selected by the discriminator is the one processed",
     "For a union the member named by its discriminator - member number, enumeration constant, name, override table, in the same or in an enclosing structure - is the one which is saved, loaded and copied. "
     "A discriminator value without a member selects the first one. Other members are never interpreted.",
     ["inputs"], "every value of the discriminator for all kinds of discriminators, every value of the selected member",
     "tests pick matching values; out of range and negative discriminators, and every kind of carrier, are not covered",
     ["src/mr_save.c", "src/mr_load.c", "src/mr_extra.c"], [("resolution", "mr_union_discriminator, mr_union_discriminator_by_type, mr_union_discriminator_by_name")])
prop("C10", "Enumerations and bit masks keep every value",
     "Every value of an enumeration, named or not, survives saving and loading in every format. A value is printed by its name when it has one and as a combination of names when it is a bit mask. "
     "Lookup by value and by name return the right constant or nothing.",
     ["inputs"], "every value of the underlying type for seven enumerations (plain, flags, packed 8 bit, 64 bit, negative)",
     "tests use the declared constants; undeclared values, negative and 64 bit constants are unlimited",
     ["src/metaresc.c", "src/mr_stringify.c", "src/mr_value.c", "src/cinit_load.y", "src/json_load.y", "src/scm_load.y", "src/mr_load.c"],
     [("lookup", "mr_get_enum_by_value, mr_get_enum_by_name, mr_get_enum_value"), ("masks", "mr_ra_printf_enum")])
prop("C11", "Arrays of every kind keep their elements, sizes and dimensions",
     "Fixed arrays of any number of dimensions, partly used arrays with a size field, and resizable arrays with a size field keep every element and their size through save, load and copy. "
     "An element never ends up at another index and a size never exceeds what was allocated.",
     ["inputs"], "one arbitrary element at an arbitrary index of arrays up to 2x3 / 3 dimensions; sizes 0..3",
     "tests fix the dimensions, the size and the values together",
     ["src/mr_save.c", "src/mr_load.c", "src/mr_extra.c", "src/metaresc.c"], [("dimensions", "mr_save_array"), ("resizable arrays", "mr_load_pointer, mr_pointer_set_size")])

import props_more  # noqa: E402,F401


def main():
    with open("properties.jsonl", "w") as f:
        for p in ps:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p in ps:
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
        elif p["id"] not in PROPS:
            m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
        else:
            m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                                "technique": p["_tech"], "level": "other",
                                "level_note": "Decided for all inputs within the stated bounds of each job (evidence lists them); every reported violation is reproduced by a native run of the real code. "
                                              "Assumes: " + ("; ".join(PROPS[p["id"]].assumptions) or "nothing beyond the tools") + "." + (" " + p["_note"] if p["_note"] else "")})
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    open("MANIFEST.json", "a").write("\n")


if __name__ == "__main__":
    main()
