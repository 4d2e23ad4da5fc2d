from .common import *
J = lambda n, d, l, **k: Eva(n, "logec.c", [d] + l, slevel=50000, timeout=400, **k)
P = Prop(
 "C30", "Logging emits exactly the permitted messages; error names are total",
 "A log statement reaches the current handler exactly once, with the level character, file name, line and evaluated arguments, if its level is at most both the global and the module level; otherwise nothing is emitted and its arguments are not evaluated. A message without arguments is never used as a format string, and logging before initialisation or after finalisation is harmless. Every error code maps to its documented name and a description of its own, and every other integer to the unknown ones.",
 ["configurations", "inputs"], "Every level macro and alias under module levels OFF, WARNING, INFO and ALL and global levels ALL, NOTICE and OFF; every 32-bit error code.",
 "Tests log at one configuration and query a few codes; filtering is a product of levels and macros, and the tables have to be total.",
 ["src/log.c", "include/embc/log.h", "src/ec.c", "include/embc/ec.h"],
 [("static filter", "include/embc/log.h EMBC_LOG_CHECK_STATIC"), ("handler indirection", "src/log.c embc_log_initialize"), ("error tables", "src/ec.c embc_error_code_name")],
 "other", TECH, NOTE,
 "The macros are expanded in a harness for each configuration and interpreted abstractly; a handler model checks every argument. The error-code functions are interpreted for all 32-bit arguments.",
 jobs=[J("log_all", "H_LOG", ["GLOBAL=10"], functions=["embc_log_initialize", "embc_log_finalize"]), J("log_notice", "H_LOG", ["GLOBAL=5"]), J("log_off", "H_LOG", ["GLOBAL=-1"]),
       J("error_codes", "H_EC", [], functions=["embc_error_code_name", "embc_error_code_description"])],
 quick32=True)
