/* SanitizerCoverage callbacks: every basic-block edge executed by instrumented code counts one step.
   MON_STEP_LIMIT: a thread that executes more than this many ends the process (exit 71). */
typedef __UINT64_TYPE__ uint64_t; /* no headers: this is compiled for 32-bit machines too */
typedef __UINT32_TYPE__ uint32_t;
char *getenv(const char *);
unsigned long long strtoull(const char *, char **, int);
long write(int, const void *, unsigned long);
void _exit(int) __attribute__((noreturn));
static __thread uint64_t steps;
static uint64_t limit = ~(uint64_t)0;
__attribute__((constructor)) static void init(void) {
    const char *s = getenv("MON_STEP_LIMIT");
    if (s) limit = strtoull(s, 0, 10);
}
static void over(void) {
    static const char m[] = "\nMON-STEP-LIMIT\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(71);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    (void)g;
    if (__builtin_expect(++steps > limit, 0)) over();
}
uint64_t mon_steps(void) { return steps; }
