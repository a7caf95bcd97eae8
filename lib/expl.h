/* Common part of the in-process explorers: <exe> <mode> <slice> <slices> <deep>
 * Prints "V <message>" for each violation (at most 5 per slice) and "N <evaluations> <violations>" at the end. */
#include <build.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "common/error/error.h"
#include "common/io/io.h"
#include "common/io/bufferRead.h"
#include "common/io/bufferWrite.h"
#include "common/io/read.intern.h"
#include "common/io/write.intern.h"
#include "common/log.h"
#include "common/debug.h"
#include "common/stackTrace.h"
#include "common/memContext.h"
#include "common/type/object.h"
#include "common/crypto/common.h"

static unsigned long evals, viols, job, slice, slices;
static int deep;
#define MINE() (job++ % slices == slice)

static void V(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    if (viols++ < 5)
    {
        printf("V ");
        vprintf(fmt, a);
        printf("\n");
        fflush(stdout);
    }
    va_end(a);
}

/* run code, catching every error: OK is set when none was thrown */
#define ATTEMPT(ok, code)                                                                                                          \
    do                                                                                                                             \
    {                                                                                                                              \
        volatile bool ok_ = false;                                                                                                 \
        TRY_BEGIN()                                                                                                                \
        {                                                                                                                          \
            code;                                                                                                                  \
            ok_ = true;                                                                                                            \
        }                                                                                                                          \
        CATCH_FATAL()                                                                                                              \
        {                                                                                                                          \
        }                                                                                                                          \
        TRY_END();                                                                                                                 \
        ok = ok_;                                                                                                                  \
    }                                                                                                                              \
    while (0)

typedef struct { const char *name; void (*fn)(void); } Mode;

static int explore(int argc, char **argv, const Mode *modes)
{
    FUNCTION_LOG_BEGIN(logLevelDebug);
        FUNCTION_LOG_PARAM(INT, argc);
    FUNCTION_LOG_END();
    static const ErrorHandlerFunction eh[] = {stackTraceClean, memContextClean};
    errorHandlerSet(eh, LENGTH_OF(eh));
    slice = strtoul(argv[2], NULL, 10);
    slices = strtoul(argv[3], NULL, 10);
    deep = atoi(argv[4]);
    logInit(logLevelOff, logLevelOff, logLevelOff, false, 0, 1, false);
    cryptoInit();
    for (; modes->name; modes++)
        if (strcmp(argv[1], modes->name) == 0)
        {
            TRY_BEGIN()
            {
                modes->fn();
            }
            CATCH_FATAL()
            {
                V("unexpected error: %s", errorMessage());
            }
            TRY_END();
        }
    printf("N %lu %lu\n", evals, viols);
    fflush(stdout);
    _exit(0);
    FUNCTION_LOG_RETURN(INT, 0);
}
