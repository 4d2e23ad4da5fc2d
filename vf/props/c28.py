from .common import *
P = Prop(
 "C28", "String copy, comparison and lookup are exact and never leave their buffers",
 "Copying a string writes the whole source, or its longest terminated prefix with truncation reported, and never touches bytes beyond the target size; nonsensical targets are refused untouched and a null source gives the empty string. Case-insensitive comparison, prefix matching, table lookup, upper-casing and hex digit conversion give the documented result for every character, leaving outputs unmodified when there is no match. Boolean parsing accepts exactly the documented words in any case.",
 ["inputs"], "Source lengths 0..6 against target sizes -1..9 with arbitrary content; all pairs of strings of up to two characters over seven boundary characters; all 256 character values; every case variant of every boolean word and fifteen near misses; texts of 254 to 257 characters and tables of as many entries.",
 "Tests use a few friendly strings; off-by-one errors live at exact sizes and at the characters next to the letter and digit ranges.",
 ["src/cstr.c", "include/embc/cstr.h"],
 [("bounded copy", "src/cstr.c embc_cstr_copy"), ("comparison and lookup", "src/cstr.c")],
 "other", TECH, NOTE,
 "The string utilities are interpreted abstractly for all inputs in the scope and compared with independently written specifications.",
 jobs=[Eva("cstr_copy", "cstr.c", ["H_COPY"], slevel=100000, functions=["embc_cstr_copy"]),
       Eva("cstr_long", "cstr.c", ["H_LONGTEXT"], slevel=200000, ticks=5000),
       Eva("cstr_case", "cstr.c", ["H_CASE"], slevel=100000, functions=["embc_cstr_casecmp", "embc_cstr_starts_with"]),
       Eva("cstr_chars", "cstr.c", ["H_CHARS"], slevel=100000, ticks=2000, functions=["embc_cstr_hex_to_u4", "embc_cstr_u4_to_hex", "embc_cstr_toupper"]),
       Eva("cstr_bool", "cstr.c", ["H_BOOL"], slevel=100000, functions=["embc_cstr_to_bool", "embc_cstr_to_index"])])
