from .common import *
from .. import apicheck
P = Prop(
 "C34", "Every declared public function exists, with its declared type and C linkage",
 "Every function that a public header declares is defined exactly once in the library, with the parameter and result types that the header declares, so that a program which compiles against the headers also links and passes its arguments correctly. Each public header can be included alone, more than once, and from C and C++, and its functions have C linkage in C++.",
 ["inputs"], "All 34 public headers and all public functions, in the default platform configuration with the optional float parser enabled.",
 "The tests link only the functions they call, from C, with headers included in one order.",
 ["include/embc", "src", "src/CMakeLists.txt"],
 [("public declarations", "include/embc"), ("definitions", "src")],
 "proof", "static-analysis: whole-interface comparison of declarations and definitions on clang's type-checked syntax tree, and compile-only header witnesses",
 "Decides every header and every declared function of the current tree; object code and run-time linking are not examined.",
 "The syntax trees of a unit with all headers (as C and as C++) and of every library source are compared: declared versus defined, canonical types, linkage names. Each header is also compiled alone and twice in both languages.",
 assumptions=["embc_fatal() is provided by the application (or by lib.c)", "platform/arm.h belongs to another platform configuration"],
 trusted=["clang 18 front end", "the comparison in vf/apicheck.py"],
 rule="every public declaration has exactly one definition of the same canonical type in the sources listed in src/CMakeLists.txt; its C++ linkage name is its C name; every header is self-contained and idempotent",
 extra=[apicheck.interface])
