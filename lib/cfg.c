/* Loads configurations with the real code and reports every effective option value.
 * stdin, one case per line: space separated tokens
 *   f=<path>:<hex>   write this file first        a=<hex> argument      e=<hex> environment NAME=VALUE
 *   x=<l|r>:<pg|repo>:<idx>   report the command that would be executed for a local/remote process
 * stdout per case: "E <code> <hex message>" or lines "O <name> <source> <negate><reset> <value>", "G <group> <idx> <key>",
 * "X <l|r>:<type>:<idx> <hex args,...>", then "W <hex of log output>" and "." */
#include <build.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include "common/crypto/common.h"
#include "common/debug.h"
#include "common/error/error.h"
#include "common/exec.h"
#include "common/log.h"
#include "common/memContext.h"
#include "common/stackTrace.h"
#include "common/type/stringId.h"
#include "config/config.intern.h"
#include "config/load.h"
#include "config/parse.h"
#include "protocol/helper.h"
#include "storage/cifs/helper.h"
#include "storage/posix/storage.h"
#include "storage/helper.h"

static FILE *out;
static const char *xname;

static void hex(const char *s)
{
    if (*s == 0)
        fputs("-", out);
    for (; *s; s++)
        fprintf(out, "%02x", (unsigned char)*s);
}

/* the process execution of the real code is replaced by a report of what would be executed */
FN_EXTERN Exec *
execNew(const String *const command, const StringList *const param, const String *const name, const TimeMSec timeout)
{
    (void)name; (void)timeout;
    fprintf(out, "X %s ", xname);
    hex(strZ(command));
    for (unsigned int i = 0; param != NULL && i < strLstSize(param); i++)
    {
        fputc(',', out);
        hex(strZ(strLstGet(param, i)));
    }
    fputc('\n', out);
    THROW(AssertError, "recorded");
}

/* with a query only that option is printed, the others are hashed */
static void dump(const char *query)
{
    FILE *const save = out;
    char *buf = NULL;
    size_t size = 0;
    if (query != NULL)
        out = open_memstream(&buf, &size);
    for (unsigned int g = 0; g < CFG_OPTION_GROUP_TOTAL; g++)
        for (unsigned int i = 0; i < cfgOptionGroupIdxTotal(g); i++)
            fprintf(out, "G %u %u %u\n", g, i, cfgOptionGroupIdxToKey(g, i));
    for (ConfigOption o = 0; o < CFG_OPTION_TOTAL; o++)
    {
        if (!cfgOptionValid(o))
            continue;
        const unsigned int total = cfgOptionGroup(o) ? cfgOptionGroupIdxTotal(cfgOptionGroupId(o)) : 1;
        for (unsigned int i = 0; i < total; i++)
        {
            fprintf(
                out, "O %s %u %d%d ", cfgOptionIdxName(o, i), (unsigned int)cfgOptionIdxSource(o, i), cfgOptionIdxNegate(o, i),
                cfgOptionIdxReset(o, i));
            if (!cfgOptionIdxTest(o, i))
            {
                fputs("null\n", out);
                continue;
            }
            switch (cfgParseOptionDataType(o))
            {
                case cfgOptDataTypeBoolean:
                    fputs(cfgOptionIdxBool(o, i) ? "y" : "n", out);
                    break;
                case cfgOptDataTypeInteger:
                    fprintf(out, "%lld", (long long)cfgOptionIdxInt64(o, i));
                    break;
                case cfgOptDataTypeStringId:
                    hex(strZ(strNewStrId(cfgOptionIdxStrId(o, i))));
                    break;
                case cfgOptDataTypeString:
                    hex(strZ(cfgOptionIdxStr(o, i)));
                    break;
                case cfgOptDataTypeList:
                {
                    const VariantList *const l = cfgOptionIdxLst(o, i);
                    for (unsigned int j = 0; j < varLstSize(l); j++)
                    {
                        fputs(j ? "," : "", out);
                        hex(strZ(varStr(varLstGet(l, j))));
                    }
                    break;
                }
                case cfgOptDataTypeHash:
                {
                    const KeyValue *const kv = cfgOptionIdxKv(o, i);
                    const VariantList *const l = kvKeyList(kv);
                    for (unsigned int j = 0; j < varLstSize(l); j++)
                    {
                        fputs(j ? "," : "", out);
                        hex(strZ(varStr(varLstGet(l, j))));
                        fputs("=", out);
                        hex(strZ(varStr(kvGet(kv, varLstGet(l, j)))));
                    }
                    break;
                }
            }
            fputc('\n', out);
        }
    }
    if (query != NULL)
    {
        fclose(out);
        out = save;
        unsigned long h = 5381;
        char *sp = NULL;
        for (char *l = strtok_r(buf, "\n", &sp); l; l = strtok_r(NULL, "\n", &sp))
        {
            const char *const name = l + 2;
            if (strncmp(l, "O exec-id ", 10) == 0)
                continue;
            for (const char *c = l; *c; c++)
                h = h * 1000003 + (unsigned char)*c;
            if (l[0] == 'O' && strncmp(name, query, strlen(query)) == 0 && name[strlen(query)] == ' ')
                fprintf(out, "%s\n", l);
        }
        fprintf(out, "H %lx\n", h);
    }
}

static char *unhex(const char *s)
{
    const size_t n = strcmp(s, "-") == 0 ? 0 : strlen(s) / 2;
    char *r = malloc(n + 1);
    for (size_t i = 0; i < n; i++)
    {
        unsigned int c;
        sscanf(s + 2 * i, "%2x", &c);
        r[i] = (char)c;
    }
    r[n] = 0;
    return r;
}

static void one(char *line)
{
    FUNCTION_LOG_BEGIN(logLevelDebug);
        FUNCTION_LOG_PARAM(STRINGZ, line);
    FUNCTION_LOG_END();
    static const ErrorHandlerFunction eh[] = {stackTraceClean, memContextClean};
    static const StorageHelper sh[] = {STORAGE_CIFS_HELPER, STORAGE_END_HELPER};
    errorHandlerSet(eh, LENGTH_OF(eh));
    storageHelperInit(sh);
    const char *args[300];
    unsigned int argc = 0, xn = 0;
    char *env[100];
    unsigned int en = 0;
    char *x[20];
    const char *query = NULL;
    for (char *t = strtok(line, " \n"); t; t = strtok(NULL, " \n"))
    {
        if (t[0] == 'a') args[argc++] = unhex(t + 2);
        else if (t[0] == 'e') env[en++] = unhex(t + 2);
        else if (t[0] == 'q') query = t + 2;
        else if (t[0] == 'x') x[xn++] = t + 2;
        else if (t[0] == 'f')
        {
            char *c = strchr(t, ':');
            *c = 0;
            char *d = unhex(c + 1);
            FILE *f = fopen(t + 2, "w");
            if (!f) { perror(t + 2); abort(); }
            fwrite(d, 1, strlen(d), f);
            fclose(f);
        }
    }
    args[argc] = NULL;
    env[en] = NULL;
    environ = env;
    volatile bool ok = false;
    TRY_BEGIN()
    {
        cfgLoad(argc, args);
        ok = true;
    }
    CATCH_FATAL()
    {
        fprintf(out, "E %d ", errorCode());
        hex(errorMessage());
        fputc('\n', out);
    }
    TRY_END();
    if (ok)
    {
        dump(query);
        for (unsigned int i = 0; i < xn; i++)
        {
            xname = x[i];
            const ProtocolStorageType type = strstr(xname, ":pg:") ? protocolStorageTypePg : protocolStorageTypeRepo;
            const unsigned int idx = (unsigned int)atoi(strrchr(xname, ':') + 1);
            TRY_BEGIN()
            {
                if (xname[0] == 'l')
                    protocolLocalGet(type, idx, 1);
                else
                    protocolRemoteGet(type, idx, true);
            }
            CATCH_FATAL()
            {
                if (strcmp(errorMessage(), "recorded") != 0)
                {
                    fprintf(out, "Y %s ", xname);
                    hex(errorMessage());
                    fputc('\n', out);
                }
            }
            TRY_END();
        }
    }
    fflush(out);
    FUNCTION_LOG_RETURN_VOID();
}

int main(int argc, char **argv)
{
    (void)argc;
    out = fdopen(dup(1), "w");
    cryptoInit();
    char *line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0)
    {
        fflush(out);
        const pid_t p = fork();
        if (p == 0)
        {
            const int fd = open(argv[1], O_RDWR | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            one(line);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            fprintf(out, "E -1 %02x\n", (unsigned int)(st & 0xff));
        fputs("W ", out);
        const int fd = open(argv[1], O_RDONLY);
        char b[8192];
        ssize_t n;
        fputs("00", out);
        while ((n = read(fd, b, sizeof(b))) > 0)
            for (ssize_t i = 0; i < n; i++)
                fprintf(out, "%02x", (unsigned char)b[i]);
        close(fd);
        fputs("\n.\n", out);
        fflush(out);
    }
    return 0;
}
