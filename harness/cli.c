/* Command line interface against a ghost line editor. */
#include "vf.h"
#include "libc_model.h"
#include "src/cli.c"
static int hv_fatal_ok;
void embc_fatal(char const * file, int line, char const * msg) {
    if (!hv_fatal_ok) { Frama_C_show_each_FAIL_unexpected_fatal(); } else { Frama_C_show_each_REACH_fatal(); }
    vf_stop();
}
static embc_cli_t hv_cli;
static int hv_PC, hv_XC;                         /* identities of the user cookies */
static const char hv_OKS[] = "ok", hv_ERRS[] = "er";
static int hv_n_exec, hv_n_ok, hv_n_err, hv_n_long, hv_n_prompt, hv_n_nl, hv_n_echo, hv_n_bs, hv_n_other; static char hv_echo_ch;
static int hv_rc_next;
static char hv_want[70]; static int hv_want_n;   /* compacted ghost line */
static char hv_raw[80]; static int hv_raw_n; static char hv_last;
static void hv_clear(void) { hv_n_exec = hv_n_ok = hv_n_err = hv_n_long = hv_n_prompt = hv_n_nl = hv_n_echo = hv_n_bs = hv_n_other = 0; }
static void hv_pr(void *cookie, const char *s) {
    VF_CHECK(print_cookie, cookie == &hv_PC);
    if (s == hv_OKS) { ++hv_n_ok; }
    else if (s == hv_ERRS) { ++hv_n_err; }
    else if (s == LINE_TOO_LONG) { ++hv_n_long; }
    else if (s == hv_cli.prompt) { ++hv_n_prompt; }
    else if (s[0] == '\n' && !s[1]) { ++hv_n_nl; }
    else if (s[0] == '\b') { VF_CHECK(erase_text, s[1] == ' ' && s[2] == '\b' && s[3] == 0); ++hv_n_bs; }
    else if (s[0] && !s[1]) { ++hv_n_echo; hv_echo_ch = s[0]; }
    else { ++hv_n_other; }
}
static int hv_xl(void *cookie, const char *line) {
    int i;
    VF_CHECK(execute_cookie, cookie == &hv_XC);
    ++hv_n_exec;
    for (i = 0; i < hv_want_n; ++i) { VF_CHECK(line_text, line[i] == hv_want[i]); }
    VF_CHECK(line_end, line[hv_want_n] == 0);
    return hv_rc_next;
}
static void hv_model_line(void) {             /* hv_raw -> hv_want, written from the documentation */
    int i;
    hv_want_n = 0;
    for (i = 0; i < hv_raw_n; ++i) {
        char c = hv_raw[i];
        if (c == '#' || c == '@' || c == '%') { break; }
        if (c == ' ' || c == '\t') {
            if (hv_want_n && hv_want[hv_want_n - 1] != ' ') { hv_want[hv_want_n++] = ' '; }
        } else { hv_want[hv_want_n++] = c; }
    }
    if (hv_want_n && hv_want[hv_want_n - 1] == ' ') { --hv_want_n; }
}
static int hv_echo;
static void hv_put(char c) {
    hv_clear();
    if (c == '\r' || (c == '\n' && hv_last != '\r')) {
        int full = hv_cli.verbose == EMBC_CLI_VERBOSE_FULL;
        hv_model_line();
        embc_cli_insert_char(&hv_cli, c);
        VF_CHECK(one_prompt, hv_n_prompt == 1);
        VF_CHECK(no_echo_of_line_end, hv_n_echo <= full && hv_n_bs == 0);
        if (hv_want_n == 0) { VF_CHECK(blank_not_executed, hv_n_exec == 0 && hv_n_ok == 0 && hv_n_err == 0 && hv_n_long == 0 && hv_n_nl == 1); }
        else if (hv_want_n < EMBC_CLI_LINE_LENGTH && hv_raw_n < EMBC_CLI_LINE_LENGTH) {
            VF_CHECK(executed_once, hv_n_exec == 1 && hv_n_long == 0);
            if (hv_rc_next == EMBC_CLI_SUCCESS_PROMPT_ONLY) { VF_CHECK(prompt_only, hv_n_ok == 0 && hv_n_err == 0 && hv_n_nl == 1); }
            else {
                VF_CHECK(response, hv_n_ok == (hv_rc_next == EMBC_CLI_SUCCESS) && hv_n_err == (hv_rc_next != EMBC_CLI_SUCCESS));
                VF_CHECK(verbose_echo, hv_n_nl == 1 + full);
            }
        } else if (hv_want_n >= EMBC_CLI_LINE_LENGTH) {
            VF_CHECK(too_long_refused, hv_n_exec == 0 && hv_n_long == 1 && hv_n_ok == 0 && hv_n_err == 0);
        } else { hv_want_n = 0; }
        hv_raw_n = 0;
    } else if (c == '\n') {
        embc_cli_insert_char(&hv_cli, c);
        VF_CHECK(crlf_is_one_line_end, !hv_n_exec && !hv_n_prompt && !hv_n_nl && !hv_n_echo && !hv_n_other);
    } else if (c == 8 || c == 127) {
        int had = hv_raw_n > 0;
        if (had) { --hv_raw_n; }
        embc_cli_insert_char(&hv_cli, c);
        VF_CHECK(backspace_output, hv_n_bs == (had && hv_echo != EMBC_CLI_ECHO_OFF) && !hv_n_exec && !hv_n_prompt && !hv_n_echo && !hv_n_other && !hv_n_nl);
    } else {
        hv_raw[hv_raw_n++] = c;
        embc_cli_insert_char(&hv_cli, c);
        VF_CHECK(char_output, hv_n_echo == (hv_echo != EMBC_CLI_ECHO_OFF) && !hv_n_exec && !hv_n_prompt && !hv_n_bs && !hv_n_other && !hv_n_nl);
        if (hv_n_echo) { VF_CHECK(echo_char, hv_echo_ch == (hv_echo == EMBC_CLI_ECHO_USER_CHAR ? '*' : c)); }
    }
    hv_last = c;
}
static void hv_init(void) {
    int i;
    hv_cli.response_success = hv_OKS; hv_cli.response_error = hv_ERRS; hv_cli.prompt[0] = '>'; hv_cli.prompt[1] = ' ';
    hv_cli.print = hv_pr; hv_cli.print_cookie = &hv_PC; hv_cli.execute_line = hv_xl; hv_cli.execute_cookie = &hv_XC;
    hv_clear();
    embc_cli_initialize(&hv_cli);
    VF_CHECK(initial_prompt, hv_n_prompt == 1 && hv_n_exec == 0);
}
#ifdef H_HIST
static const char hv_AL[] = { 'a', ' ', '#', 8, '\r', '\n', 'b' , '\t', '@', '%', 127 };
int main(void) {
    int i, k;
    hv_init();
    VF_PICK(hv_echo, 0, 2); embc_cli_set_echo(&hv_cli, (enum embc_cli_echo_mode_e) hv_echo, '*');
    VF_PICK(hv_rc_next, -1, 2);
    for (i = 0; i < NCH; ++i) {
        if (i == 0) { hv_put(hv_AL[FIRST]); continue; }
        if (i == 2) { VF_PICK(k, 0, 10); }
        else { VF_PICK(k, 0, 5); }
        hv_put(hv_AL[k]);
    }
    hv_put('b'); hv_put('\r'); hv_put('\n');
    hv_put('a'); hv_put('\n');
    VF_CHECK(nothing_left_over, hv_n_exec == 1 && hv_raw_n == 0);
    VF_REACH(end);
    return 0;
}
#elif defined(H_LONG)
int main(void) {
    int i, n, k, pos, b;
    hv_init();
    hv_echo = 0;
    VF_PICK(k, 0, 1);
    if (k) { embc_cli_set_verbose(&hv_cli, EMBC_CLI_VERBOSE_FULL); }
    VF_PICK(hv_rc_next, 0, 1);
    VF_PICK(n, 61, 68);
    VF_PICK(pos, 0, 3);                      /* nothing special, two spaces early, comment at 5, comment at the limit */
    for (i = 0; i < n; ++i) {
        char c = 'a' + (i & 15);
        if (pos == 1 && (i == 7 || i == 8)) { c = ' '; }
        if (pos == 2 && i == 5) { c = '#'; }
        if (pos == 3 && i == 62) { c = '%'; }
        hv_put(c);
    }
    VF_PICK(b, 0, 6);
    for (i = 0; i < b; ++i) { hv_put(8); }
    VF_PICK(b, 0, 2);
    for (i = 0; i < b; ++i) { hv_put('z'); }
    hv_put('\r');
    hv_put('a'); hv_put('\r');
    VF_CHECK(next_line_runs, hv_n_exec == 1);
    VF_REACH(end);
    return 0;
}
#elif defined(H_ARGS)
static int hv_a_n, hv_a_pos[20], hv_a_len[20]; static char hv_src[80];
static int hv_n_args;
static int hv_xargs(void *cookie, int argc, char *argv[]) {
    int i, j;
    VF_CHECK(args_cookie, cookie == &hv_XC);
    VF_CHECK(argc, argc == hv_a_n);
    for (i = 0; i < argc; ++i) {
        for (j = 0; j < hv_a_len[i]; ++j) { VF_CHECK(arg_text, argv[i][j] == hv_src[hv_a_pos[i] + j]); }
        VF_CHECK(arg_end, argv[i][hv_a_len[i]] == 0);
    }
    ++hv_n_args;
    return hv_rc_next;
}
static int hv_isd(char c) { return c == ' ' || c == '\t' || c == ','; }
static void hv_run(int len) {
    int i, rc, in = 0;
    hv_src[len] = 0; hv_a_n = 0;
    for (i = 0; i < len; ++i) {
        if (hv_isd(hv_src[i])) { in = 0; }
        else if (!in) { in = 1; if (hv_a_n < 20) { hv_a_pos[hv_a_n] = i; hv_a_len[hv_a_n] = 1; } ++hv_a_n; }
        else if (hv_a_n <= 20) { ++hv_a_len[hv_a_n - 1]; }
    }
    hv_n_args = 0;
    rc = embc_cli_line_parser(&hv_cli, hv_src);
    if (len >= EMBC_CLI_LINE_LENGTH + 2 || hv_a_n > EMBC_CLI_MAX_ARGS) { VF_CHECK(refused, hv_n_args == 0 && rc == EMBC_CLI_ERROR_PARAMETER_VALUE); }
    else if (hv_a_n == 0) { VF_CHECK(blank_ok, hv_n_args == 0 && rc == EMBC_CLI_SUCCESS); }
    else { VF_CHECK(called_once, hv_n_args == 1 && rc == hv_rc_next); }
}
int main(void) {
    static const char hv_AL[] = { 'a', ' ', ',', '\t' };
    int i, k, n;
    hv_cli.execute_args = hv_xargs; hv_cli.execute_line = 0;
    hv_init();
    hv_cli.execute_args = hv_xargs;
    embc_cli_initialize(&hv_cli);
    VF_PICK(hv_rc_next, -1, 2);
    VF_PICK(k, 0, 2);
    if (k == 0) {
        VF_PICK(n, 0, 5);
        for (i = 0; i < n; ++i) { VF_PICK(k, 0, 3); hv_src[i] = hv_AL[k]; }
        hv_run(n);
        VF_REACH(tokens);
    } else if (k == 1) {                      /* around the argument limit */
        VF_PICK(n, 15, 18);
        for (i = 0; i < n; ++i) { hv_src[2 * i] = 'a' + i; hv_src[2 * i + 1] = ','; }
        VF_PICK(k, 0, 1);
        hv_run(2 * n - k);
        VF_REACH(limit);
    } else {                                  /* through the line interface, and the longest lines */
        VF_PICK(n, 62, 67);
        for (i = 0; i < n; ++i) { hv_src[i] = i == 30 ? ' ' : 'q'; }
        hv_run(n);
        embc_cli_set_echo(&hv_cli, EMBC_CLI_ECHO_OFF, 0);
        hv_src[0] = 'g'; hv_src[1] = ' '; hv_src[2] = 'h'; hv_src[3] = 0;
        hv_a_n = 2; hv_a_pos[0] = 0; hv_a_len[0] = 1; hv_a_pos[1] = 2; hv_a_len[1] = 1; hv_n_args = 0;
        embc_cli_insert_char(&hv_cli, 'g'); embc_cli_insert_char(&hv_cli, '\t'); embc_cli_insert_char(&hv_cli, 'h'); hv_clear();
        embc_cli_insert_char(&hv_cli, '\n');
        VF_CHECK(args_through_line, hv_n_args == 1);
        if (hv_rc_next == -1) { VF_CHECK(args_prompt_only, hv_n_ok == 0 && hv_n_err == 0); }
        else { VF_CHECK(args_response, hv_n_ok == (hv_rc_next == 0) && hv_n_err == (hv_rc_next != 0)); }
        VF_REACH(line);
    }
    return 0;
}
#endif
