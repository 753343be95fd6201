// Link-time stand-in for fopen: keeps the library's log out of /var/log.
#include <stdio.h>
#include <string.h>
#include <dlfcn.h>
extern "C" FILE *__real_fopen (const char *, const char *);
int mc_log_to_null = 0;   // 1: format log messages (and throw the text away) instead of dropping them
static ssize_t swallow (void *, const char *, size_t n) { return n; }
static FILE *sink () { cookie_io_functions_t f = { 0, swallow, 0, 0 }; return fopencookie (0, "w", f); }
extern "C" FILE *__wrap_fopen (const char *p, const char *m)
{
    if (p && strcmp (p, "/var/log/disir.log") == 0)
        return mc_log_to_null ? sink () : (FILE *) 0;
    return __real_fopen (p, m);
}

// Unless messages are to be formatted, lower the library's log level (an exported variable): it only
// saves the time spent building line prefixes of messages that would be dropped anyway.
extern "C" void mc_quiet_log ()
{
    int *level = (int *) dlsym (RTLD_DEFAULT, "runtime_loglevel");
    if (level && !mc_log_to_null) *level = 1;
}
// Messages that only go to the log file (no context or instance keeps them) have no observable
// effect; drop them early. Only linked in when lib/include/log.h declares exactly this function.
#include <stdarg.h>
extern "C" void dx_log_disir (int, int, void *, void *, int, const char *, const char *, int, const char *, const char *, va_list) __attribute__ ((weak));
extern "C" void __wrap_dx_log_disir_va (int dll, int severity, void *context, void *instance, int log_context, const char *file, const char *function, int line,
                                        const char *prefix, const char *fmt, ...)
{
    if (!mc_log_to_null && !log_context && !instance) return;
    va_list args; va_start (args, fmt);
    dx_log_disir (dll, severity, context, instance, log_context, file, function, line, prefix, fmt, args);
    va_end (args);
}
