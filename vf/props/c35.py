from .common import *
from .. import apicheck
P = Prop(
 "C35", "The Python bindings describe the library's binary interface",
 "Every function that the Python package binds is exported by the library, and its declared argument and result types have the size, kind and signedness of the C prototype. Every structure and callback type it declares has the fields, offsets and sizes of the C type of the same name, and the error codes and port 0 message numbers equal the library's.",
 ["inputs"], "All bound functions, structures, callback types and tables of the Python package.",
 "The Python tests need a shared library beside the package and do not run with the C tests; a wrong width or offset only shows for particular values or layouts.",
 ["py/embc", "include/embc"],
 [("buffer binding", "py/embc/memory/buffer.py"), ("framer binding", "py/embc/stream/framer.py"), ("pattern binding", "py/embc/pattern_32a.py"), ("library binding", "py/embc/lib.py"), ("error codes", "py/embc/ec.py")],
 "proof", "static-analysis: type comparison between the ctypes declarations (abstract evaluation of the Python syntax tree) and clang's type-checked C declarations; layout by compile-fail _Static_assert witnesses",
 "Decides every binding declaration of the current tree for the x86-64 ABI; the Python classes built on top of them are not examined.",
 "The ctypes declarations are evaluated abstractly from the syntax tree and matched position by position with the C prototypes; structure layouts are turned into static assertions on offsetof and sizeof that the C compiler decides.",
 assumptions=["x86-64 Linux ABI", "c_size_t and embc_size_t are both accepted for sizes"],
 trusted=["clang 18 front end", "Python ast module and the evaluator in vf/apicheck.py"],
 rule="every attribute taken from the loaded library names an exported function; restype/argtypes match its prototype; every _fields_ layout satisfies the generated static assertions",
 extra=[apicheck.bindings])
