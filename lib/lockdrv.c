/* Drives the real lock code: lockdrv <lock path> <exec id> <program>
 *   program letters: a acquire (report), r release, w write progress, i inspect, x crash
 * The driver announces "HOLD"/"FREE" by (refused) mkdir calls, which the scheduler sees in order with the lock operations. */
#include <build.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include "common/error/error.h"
#include "common/lock.h"
#include "common/log.h"
#include "common/memContext.h"
#include "common/type/string.h"

static void say(const char *path, const char *what)
{
    char b[512];
    snprintf(b, sizeof(b), "%s/lock/EV-%s", path, what);
    mkdir(b, 0700);
}

int main(int argc, char **argv)
{
    (void)argc;
    logInit(logLevelOff, logLevelOff, logLevelOff, false, 0, 1, false);
    char p[400];
    snprintf(p, sizeof(p), "%s/lock", argv[1]);
    lockInit(strNewZ(p), strNewZ(argv[2]));
    int rc = 0, held = 0;
    for (const char *c = argv[3]; *c; c++)
    {
        TRY_BEGIN()
        {
            switch (*c)
            {
                case 'a':
                    held = lockAcquireP(STRDEF("demo-backup-1.lock"));
                    if (held) say(argv[1], "HOLD");
                    break;
                case 'A':
                    held = lockAcquireP(STRDEF("demo-backup-1.lock"), .returnOnNoLock = true);
                    if (held) say(argv[1], "HOLD");
                    break;
                case 'w':
                    if (held) lockWriteP(STRDEF("demo-backup-1.lock"), .percentComplete = varNewUInt(100));
                    break;
                case 'r':
                    if (held) { say(argv[1], "WORK"); say(argv[1], "FREE"); lockReleaseP(); held = 0; }
                    break;
                case 'i':
                    lockReadP(STRDEF("demo-backup-1.lock"));
                    break;
                case 'x':
                    if (held) { say(argv[1], "WORK"); say(argv[1], "FREE"); }
                    kill(getpid(), SIGKILL);
                    break;
            }
        }
        CATCH_ANY()
        {
            printf("ERR %s\n", errorMessage());
            rc = 1;
        }
        TRY_END();
    }
    printf("rc %d held %d\n", rc, held);
    return rc;
}
