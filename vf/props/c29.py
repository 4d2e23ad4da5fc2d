from .common import *
J = lambda n, d, l, MODE=0, HALF=0, **k: Eva(n, "cstr.c", [d, f"NTXT={l}", f"MODE={MODE}", f"HALF={HALF}"], slevel=300000, timeout=850, ticks=2000, **k)
P = Prop(
 "C29", "Number parsing is exact, rejects garbage and overflow, and keeps defaults",
 "Parsing an unsigned, signed or scaled decimal integer accepts exactly the text consisting of optional white space, an optional sign where allowed, digits (or 0x and hexadecimal digits) and optional white space, and yields its mathematical value; a floating-point text is accepted exactly when the C library's conversion consumes all of it but white space. Text with other characters and values outside the 32-bit range of the result are rejected, for any number of digits. On every error the output keeps its previous value.",
 ["inputs"], "All texts of up to 3 (thorough: 4) characters over the boundary characters of the grammar, and all completions by one or two characters of literals next to the limits of the ranges, ten numbers with any one character replaced by any character, with scale exponents 0..11.",
 "Tests use a few numbers; overflow at the last digit, signs, scaling and trailing characters combine in ways samples miss.",
 ["src/cstr.c", "include/embc/cstr.h"],
 [("overflow-checked accumulation", "src/cstr.c embc_cstr_to_u32"), ("scaled parsing", "src/cstr.c embc_cstr_to_i32s")],
 "other", TECH, NOTE,
 "The parsers are interpreted abstractly for all texts in the scope and compared with a 64-bit reference parser; signed overflow anywhere is an alarm. Floating-point parsing delegates to strtof, which is modelled by any stopping position.",
 jobs=[J(f"cstr_{h}_{n}" + "_deep" * deep, f"H_{h.upper()}", 3 + deep, MODE=k, HALF=half, tiers=T if deep else Q, functions=[f"embc_cstr_to_{h}"])
       for deep in (0, 1) for h in ("i32s", "i32", "u32") for k, n, half in ((2, "chars", 0), (2, "chars2", 1), (0, "limits", 0), (1, "texts", 0))]
   + [J("cstr_f32", "H_F32", 3, functions=["embc_cstr_to_f32"]), J("cstr_f32_deep", "H_F32", 4, tiers=T, functions=["embc_cstr_to_f32"])])
