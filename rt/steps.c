/* LD_PRELOAD: counts the basic blocks that code compiled with -fsanitize-coverage=trace-pc executes. */
static unsigned long long n;
void __sanitizer_cov_trace_pc(void) { n++; }
unsigned long long verif_native_steps(void) { return n; }
