from .common import *
H = lambda f, n, **k: Eva(f"cli_history_{n}_{f}", "cli.c", ["H_HIST", f"FIRST={f}", f"NCH={n}"], slevel=200000, timeout=850, **k)
P = Prop(
 "C27", "Command line runs each complete line exactly once, compacted and bounded",
 "Every line of up to 63 characters is executed exactly once when CR, LF or CRLF ends it, with comments removed, white space compacted and erased characters absent; blank lines are not executed and longer lines are refused with a message, never executed truncated. Each line end prints exactly one prompt, with the success or error response that matches the returned status, and echo prints what the selected mode says. The argument parser calls the command with exactly the delimited words of the line, refuses more than 16 words or over-long lines, and no sequence of characters accesses memory outside the instance.",
 ["inputs", "histories"], "All sequences of 4 (thorough: 5) characters over eleven character classes from a fresh instance in every echo mode and return status, followed by two more lines; lines of 61 to 72 characters edited at the limit by erasing and typing; all argument strings of up to 5 characters plus the count and length limits.",
 "Tests type a few well-formed lines; editing at the length limit and mixtures of line ends, erasing, comments and white space are combinatorial.",
 ["src/cli.c", "include/embc/cli.h"],
 [("character processing, compaction and line execution", "src/cli.c"), ("argument splitting", "src/cli.c embc_cli_line_parser")],
 "other", TECH, NOTE,
 "The command line sources are interpreted abstractly for every character sequence in the scope; print, execute and argument callbacks are obligations against an independently written line model.",
 jobs=[*[H(f, 4, tiers=Q, functions=["embc_cli_*"]) for f in range(6)], *[H(f, 5, tiers=T) for f in range(6)],
       Eva("cli_long", "cli.c", ["H_LONG"], slevel=100000, ticks=5000, timeout=850), Eva("cli_args", "cli.c", ["H_ARGS"], slevel=100000, ticks=5000, timeout=850)])
