from .common import *
P = Prop(
 "C31", "Contract macros stop on exactly the violated conditions",
 "Each design-by-contract macro calls embc_fatal, with a file, line and message, if and only if its condition does not hold. Each argument-check macro makes the function return EMBC_ERROR_PARAMETER_INVALID if and only if its condition does not hold, and otherwise continues. Conditions are arbitrary expressions.",
 ["inputs"], "All 30 macros with operands over a range around their limits, and null and non-null pointers.",
 "Every module relies on these macros to reject invalid use; a weakened comparison passes all tests that only exercise valid use.",
 ["include/embc/dbc.h", "include/embc/argchk.h", "include/embc/assert.h"],
 [("contracts", "include/embc/dbc.h"), ("argument checks", "include/embc/argchk.h"), ("assertions", "include/embc/assert.h")],
 "other", TECH, NOTE,
 "Each macro is expanded in a harness and interpreted abstractly over the operands; the fatal handler model checks that it is reached exactly on violation.",
 jobs=[Eva("contracts", "logec.c", ["H_DBC"], slevel=50000, timeout=400)],
 quick32=True)
