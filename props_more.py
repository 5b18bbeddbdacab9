"""Further properties (imported by props.py)."""
import sys
prop = sys.modules["__main__"].prop

prop("C06", "Tree operations keep every invariant and every other element",
     "Inserting into or deleting from a red-black or AVL tree leaves a valid balanced search tree. Insertion adds exactly the key (a key that is a member is found, not added twice), "
     "deletion removes exactly it and reports whether it was a member. All other elements stay, find and ordered walk agree, and a failed allocation changes nothing.",
     ["inputs", "faults"], "every tree shape and colouring of up to 10 nodes (12 in the thorough tier), three or all pool orders, any key",
     "rebalancing bugs need a particular shape, colouring, position in the pool and key; tests insert and delete in a few orders",
     ["src/mr_btree.c"], [("red-black", "mr_rbtree_add, mr_rbtree_del, mr_rbtree_is_valid"), ("AVL", "mr_avltree_add, mr_avltree_del, mr_avltree_is_valid"), ("common", "mr_tree_find, mr_tree_del, mr_tree_reserve, mr_tree_walk")])
prop("C12", "Every block a loaded or copied object owns is released exactly once",
     "Releasing a loaded or copied object graph frees every block which the operation allocated for it, each exactly once, whatever the sharing, cycles and interior pointers. "
     "The operations themselves leave no temporary blocks behind. Nothing that belongs to the source or to the caller is freed.",
     ["inputs"], "all topologies of the graphs of C04, the arrays of C11 and unions of C09, in every format and by deep copy",
     "leaks and double frees depend on which of several references owns a block; tests release a few shapes",
     ["src/mr_extra.c", "src/mr_load.c", "src/mr_save.c", "src/xdr.c"], [("release", "mr_free_recursively"), ("ownership flags", "MR_IS_REFERENCE, MR_IS_CONTENT_REFERENCE"), ("temporary data", "mr_load, mr_save, mr_free_load_values")])
prop("C13", "Comparison is a total order of the content and equal objects have equal hashes",
     "Comparing two objects of one type yields zero exactly when they have the same content (scalars, strings, structure of references), whatever the addresses, padding and bytes behind a terminating zero. "
     "The comparison is antisymmetric and transitive over all values, including NaN and signed zeros. Objects that compare equal have the same hash. Neither reads outside of the objects.",
     ["inputs"], "two or three objects of 12 types covering every kind of field, any values; strings of up to 2 characters, graphs of 2 nodes with 2 links each",
     "order axioms relate any three values; hash consistency is about all pairs of equal objects; tests compare a few samples",
     ["src/mr_extra.c", "src/mr_save.c", "src/mr_ic.c"], [("comparison", "mr_cmp_structs"), ("hash", "mr_hash_struct, mr_hash_block, mr_hash_str"), ("interface", "MR_CMP_STRUCTS, MR_HASH_STRUCT")])
prop("C14", "A failed allocation is reported and leaves no damage",
     "When an allocation fails during save, load, deep copy, comparison or hashing, the operation either fails or its result is complete: no truncated image, no incomplete object is reported as success. "
     "A failed operation releases what it allocated, nothing is freed twice, and the same operation succeeds afterwards when memory is available.",
     ["faults"], "every allocation of the operation failing alone or together with all later ones, four object graphs with sharing, strings, unions and sized arrays",
     "each allocation site is a separate fault; tests inject faults into one object and only look at crashes and leaks",
     ["src/mr_save.c", "src/mr_load.c", "src/mr_extra.c", "src/xdr.c", "src/xml_save.c", "src/xml2_load.c", "src/yaml_load.c", "src/yaml_save.c", "src/metaresc.c"],
     [("save", "mr_save, mr_ud_add, mr_add_ptr_to_list"), ("load", "mr_load, mr_xdr_load"), ("copy", "mr_copy_recursively"), ("growth", "mr_rarray_allocate_element")])
prop("C15", "Loading damaged input is safe",
     "Whatever bytes a document contains, loading it terminates and touches no memory outside the document, the destination and the library's own blocks. It is either rejected or loaded. "
     "A rejected document leaves no allocated blocks behind. An accepted one without references (and without a union whose discriminator was damaged) yields an object which can be released.",
     ["inputs"], "the saved image of five objects in every format with one byte (text), or two adjacent words (XDR), at any position replaced by any value; truncation at any position",
     "the parsers meet arbitrary bytes; tests feed them a few dozen malformed documents",
     ["src/json_load.y", "src/cinit_load.y", "src/scm_load.y", "src/xml1_load.y", "src/xml2_load.c", "src/yaml_load.c", "src/mr_load.c", "src/xdr.c"],
     [("parsers", "cinit_load.y, json_load.y, scm_load.y, xml1_load.y, xml2_load.c, yaml_load.c"), ("conversion and cleanup", "mr_load, mr_free_load_values"), ("binary format", "mr_xdr_load")])
prop("C16", "Indexed collections behave as sets whatever their representation",
     "An indexed collection (sorted, static or unsorted array, hash table, red-black or AVL tree) holds exactly the elements which were added and not deleted. Find, add, delete, the items count and the traversal agree on that after every history. "
     "Adding a member returns the member. A failed allocation is reported and loses nothing. Hash collisions, zero keys and growth make no difference.",
     ["inputs", "histories", "faults"], "histories of up to 4 operations on up to 4 keys of any order and any hash values, collections of up to 12 elements around growth, a failure of any allocation",
     "tests use a few orders of the keys and a fixed hash; collisions, wrap-around in the table and allocation failure need particular histories",
     ["src/mr_ic.c", "src/mr_btree.c"], [("hash", "mr_ic_hash_add, mr_ic_hash_del, mr_ic_hash_reindex"), ("arrays", "mr_ic_sorted_array_add, mr_ic_sorted_array_del, mr_ic_static_array_*"), ("trees", "mr_ic_rbtree_*, mr_ic_avltree_*"), ("interface", "mr_ic_add, mr_ic_del, mr_ic_find, mr_ic_foreach, mr_ic_get_items_count, mr_ic_index")])
prop("C90", "Floating point values survive text serialization",
     "Every float, double and long double, and the complex types built of them, is loaded back from any text format as the same value.",
     ["inputs"], "all values of the floating point types",
     "tests use a table of sample values; correct rounding is about all of them",
     ["src/mr_stringify.c", "src/metaresc.c"], [("printing with enough digits", "mr_ra_printf_float_default")],
     napp="The conversion is done by libc's printf and strtod on arbitrary precision integers; encoding it for an SMT solver (all 2^64 doubles, up to 17 digits) is out of reach, "
          "and a model of it would assume the property.")
prop("C91", "Type descriptions extracted from DWARF match the compiled types",
     "The descriptors which the mr_dwarf tool extracts from debug information agree with the compiler's layout of every type.",
     ["programs"], "all programs compiled with debug information",
     "tests run the tool on one program",
     ["src/mr_dwarf.c"], [("extraction", "mr_dwarf.c")],
     napp="The tool is a client of libdwarf over ELF files of arbitrary programs; neither libdwarf nor the quantification over programs can be encoded within reach.")
