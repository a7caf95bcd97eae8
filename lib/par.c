/* P22: exploration of the real parallel executor, protocol client and protocol server.
 *
 * par: worker processes run the real protocolServerProcess(); what each does with its job (result, error, retried error, death before or in
 *      the middle of its response) is fixed in advance, and select() is replaced so that every order and grouping of completions is tried.
 * ses: every sequence of session operations on one client with several interleaved sessions. */
#include "expl.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "common/io/fdRead.h"
#include "common/io/fdWrite.h"
#include "common/type/keyValue.h"
#include "protocol/client.h"
#include "protocol/parallel.h"
#include "protocol/server.h"

#define CMD_JOB                                                     STRID5("j-job", 0x13d4a0)
#define CMD_SES                                                     STRID5("s-ses", 0x13d4b0)
#define MAXW 3
#define MAXJ 5

typedef struct
{
    int exec[MAXJ];                                                 /* times the handler of the job ran to its end */
    int start[MAXJ];
    int worker[MAXJ];
    unsigned int stack[256], stackN[256], stackLen;
    unsigned long viols;
} Shared;

static Shared *sh;

/* ---- worker side */
static int wIdx, wCtl;
static int wFd;

static ProtocolServerResult *
jobHandler(PackRead *const param)
{
    const unsigned int id = pckReadU32P(param);
    const String *const text = pckReadStrP(param);
    sh->worker[id] = wIdx;
    sh->start[id]++;

    char o;
    static char again;

    if (again && sh->start[id] > 1)
        o = again;
    else if (read(wCtl, &o, 1) != 1)
        _exit(9);

    again = 0;

    switch (o)
    {
        case 'd':
            _exit(1);

        case 'D':                                                   /* dies in the middle of the response */
        {
            unsigned char part[3] = {0xb0, 0x01, 0xff};
            if (write(wFd, part, 1 + id % 3) < 0) {}
            _exit(1);
        }

        case 'e':
            again = 'e';
            THROW_FMT(FormatError, "error of job %u", id);

        case 'r':                                                   /* fails once, then works */
            again = 'o';
            THROW_FMT(FileOpenError, "first error of job %u", id);

        case 'R':                                                   /* fails every time */
            again = 'R';
            THROW_FMT(FileOpenError, "error of job %u", id);
    }

    ProtocolServerResult *const result = protocolServerResultNewP();
    PackWrite *const out = protocolServerResultData(result);
    pckWriteU32P(out, id);

    if (o == 'b')
    {
        Buffer *const big = bufNew(300000);
        memset(bufPtr(big), 'a' + (int)id, 300000);
        bufUsedSet(big, 300000);
        pckWriteBinP(out, big);
    }
    else
        pckWriteStrP(out, text);

    sh->exec[id]++;
    return result;
}

static unsigned int sesOpened;

typedef struct SesData
{
    unsigned int tag;
    unsigned int count;
} SesData;

static ProtocolServerResult *
sesOpen(PackRead *const param)
{
    ProtocolServerResult *const result = protocolServerResultNewP();
    PackWrite *const out = protocolServerResultData(result);
    SesData *data = NULL;
    OBJ_NEW_BASE_BEGIN(SesData)
    {
        data = (SesData *)OBJ_NEW_ALLOC();
        *data = (SesData){.tag = pckReadU32P(param), .count = 0};
    }
    OBJ_NEW_END();
    sesOpened++;
    pckWriteU32P(out, data->tag);
    protocolServerResultSessionDataSet(result, data);
    return result;
}

static ProtocolServerResult *
sesProcess(PackRead *const param, void *const data)
{
    SesData *const s = data;
    const unsigned int what = pckReadU32P(param);
    s->count++;

    if (what == 1)
        THROW_FMT(FormatError, "error of session %u", s->tag);

    ProtocolServerResult *const result = protocolServerResultNewP();
    PackWrite *const out = protocolServerResultData(result);
    pckWriteU32P(out, s->tag);
    pckWriteU32P(out, s->count);

    if (what == 2)
        protocolServerResultCloseSet(result);

    return result;
}

static ProtocolServerResult *
sesClose(PackRead *const param, void *const data)
{
    (void)param;
    SesData *const s = data;
    ProtocolServerResult *const result = protocolServerResultNewP();
    PackWrite *const out = protocolServerResultData(result);
    pckWriteU32P(out, 1000 + s->tag);
    pckWriteU32P(out, s->count);
    return result;
}

static ProtocolServerResult *
plain(PackRead *const param)
{
    const unsigned int v = pckReadU32P(param);

    if (v == 7)
        THROW(FormatError, "error of plain request");

    ProtocolServerResult *const result = protocolServerResultNewP();
    PackWrite *const out = protocolServerResultData(result);
    pckWriteU32P(out, v + 1);
    return result;
}

#define CMD_PLAIN                                                   STRID5("p-plain", 0x13d4c0)

static void
workerRun(int rfd, int wfd, unsigned int retries)
{
    TRY_BEGIN()
    {
        static const ProtocolServerHandler handler[] =
        {
            {.command = CMD_JOB, .process = jobHandler},
            {.command = CMD_SES, .open = sesOpen, .processSession = sesProcess, .close = sesClose},
            {.command = CMD_PLAIN, .process = plain},
        };
        wFd = wfd;
        IoRead *const rd = ioFdReadNewOpen(STRDEF("r"), rfd, 60000);
        IoWrite *const wr = ioFdWriteNewOpen(STRDEF("w"), wfd, 60000);
        VariantList *const retry = varLstNew();

        for (unsigned int i = 0; i < retries; i++)
            varLstAdd(retry, varNewUInt64(0));

        List *const list = lstNewP(sizeof(ProtocolServerHandler));

        for (unsigned int i = 0; i < LENGTH_OF(handler); i++)
            lstAdd(list, &handler[i]);

        protocolServerProcess(protocolServerNew(STRDEF("srv"), STRDEF("test"), rd, wr), retry, list);
    }
    CATCH_FATAL()
    {
        _exit(3);
    }
    TRY_END();
    _exit(0);
}

/* ---- harness side */
typedef struct
{
    pid_t pid;
    int rfd, wfd, ctl;
    ProtocolClient *client;
} Worker;

static Worker w[MAXW];

static ProtocolClient *
workerStart(unsigned int i, unsigned int retries)
{
    int a[2], b[2], c[2];

    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC) || pipe2(c, O_CLOEXEC))
        abort();

    fflush(stdout);
    w[i].pid = fork();

    if (w[i].pid == 0)
    {
        signal(SIGPIPE, SIG_DFL);
        for (unsigned int j = 0; j < i; j++)
        {
            close(w[j].rfd);
            close(w[j].wfd);
            close(w[j].ctl);
        }
        close(a[1]);
        close(b[0]);
        close(c[1]);
        wIdx = (int)i;
        wCtl = c[0];
        alarm(60);
        workerRun(a[0], b[1], retries);
    }

    close(a[0]);
    close(b[1]);
    close(c[0]);
    w[i].wfd = a[1];
    w[i].rfd = b[0];
    w[i].ctl = c[1];
    w[i].client = protocolClientNew(
        strNewFmt("worker %u", i), STRDEF("test"), ioFdReadNewOpen(STRDEF("cr"), w[i].rfd, 60000), ioFdWriteNewOpen(STRDEF("cw"), w[i].wfd, 60000));
    return w[i].client;
}

static void
workerStop(unsigned int n)
{
    for (unsigned int i = 0; i < n; i++)
    {
        close(w[i].rfd);
        close(w[i].wfd);
        close(w[i].ctl);
        kill(w[i].pid, SIGKILL);
        waitpid(w[i].pid, NULL, 0);
    }
}

/* choice stack */
static unsigned int choPos;
#define cho sh->stack
#define choN sh->stackN
#define choLen sh->stackLen

static unsigned int
choose(unsigned int n)
{
    if (choPos == choLen)
    {
        cho[choLen] = 0;
        choN[choLen] = n;
        choLen++;
    }
    choN[choPos] = n;
    return cho[choPos++];
}

static int
chooseNext(void)
{
    while (choLen > 0 && cho[choLen - 1] + 1 >= choN[choLen - 1])
        choLen--;
    if (choLen == 0)
        return 0;
    cho[choLen - 1]++;
    return 1;
}

static unsigned int nw, nj, policy, retryTotal, timeouts, timeoutMax;
static char outcome[MAXJ + 1];
static int running[MAXW];                                           /* job of each worker or -1 */
static unsigned int given, firstGiven[MAXJ];
static int asked[MAXW];                                             /* a worker told there is nothing left must not be asked again */
static int askedAgain, gaveBusy;
static char trace[2000];
static int inPar;

#define TRACE(...) snprintf(trace + strlen(trace), sizeof(trace) - strlen(trace), __VA_ARGS__)

int
select(int n, fd_set *r, fd_set *wr, fd_set *x, struct timeval *tv)
{
    if (!inPar || n == 0)
    {
        struct pollfd dummy;
        if (n == 0)
            return poll(&dummy, 0, tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
        return (int)syscall(SYS_select, n, r, wr, x, tv);
    }

    unsigned int idx[MAXW], cnt = 0;

    for (unsigned int i = 0; i < nw; i++)
        if (r != NULL && w[i].rfd < n && FD_ISSET(w[i].rfd, r) && running[i] >= 0)
            idx[cnt++] = i;

    for (unsigned int i = 0; i < nw; i++)
        if (running[i] >= 0 && !(w[i].rfd < n && FD_ISSET(w[i].rfd, r)))
            V("a running worker is not waited for: %s", trace);

    if (cnt == 0)
    {
        errno = EINVAL;
        return -1;
    }

    FD_ZERO(r);

    /* which subset completes now; the empty one is a timeout */
    const unsigned int sub = choose((1U << cnt) - 1 + (timeouts < timeoutMax ? 1 : 0)) + 1;

    if (sub == 1U << cnt)
    {
        timeouts++;
        TRACE(" timeout");
        return 0;
    }

    int res = 0;

    for (unsigned int k = 0; k < cnt; k++)
    {
        if (!(sub >> k & 1))
            continue;

        const unsigned int i = idx[k];
        const char o = outcome[running[i]];
        TRACE(" w%u:j%d=%c", i, running[i], o);

        if (write(w[i].ctl, &o, 1) != 1)
            V("worker of job %d is gone before it was told what to do: %s", running[i], trace);

        struct pollfd p = {.fd = w[i].rfd, .events = POLLIN};

        if (poll(&p, 1, 30000) != 1)
            V("no answer from worker %u: %s", i, trace);

        FD_SET(w[i].rfd, r);
        running[i] = -1;
        res++;
    }

    return res;
}

static ProtocolParallelJob *
callback(void *data, const unsigned int clientIdx)
{
    (void)data;

    if (asked[clientIdx])
        askedAgain = 1;

    if (running[clientIdx] >= 0)
        gaveBusy = 1;

    /* policy 1: job j only for worker j % nw; policy 2: no more than two jobs for each worker; 3: nothing more after two jobs */
    for (unsigned int j = 0; j < nj; j++)
    {
        if (firstGiven[j])
            continue;
        if (policy == 1 && j % nw != clientIdx)
            continue;
        if (policy == 3 && given >= 2)
            break;

        firstGiven[j] = clientIdx + 1;
        given++;
        running[clientIdx] = (int)j;
        TRACE(" give j%u to w%u;", j, clientIdx);

        PackWrite *const param = protocolPackNew();
        pckWriteU32P(param, j);
        pckWriteStrP(param, strNewFmt("text %u", j));
        return protocolParallelJobNew(VARUINT(j), CMD_JOB, param);
    }

    asked[clientIdx] = 1;
    return NULL;
}

static char desc[256];

static void
parExec(void)
{
    memset(sh, 0, offsetof(Shared, stack));
    memset(firstGiven, 0, sizeof(firstGiven));
    memset(asked, 0, sizeof(asked));
    given = 0;
    askedAgain = 0;
    gaveBusy = 0;
    timeouts = 0;
    choPos = 0;
    trace[0] = 0;
    int returned[MAXJ] = {0}, isErr[MAXJ] = {0};
    volatile int ended = 0, thrown = 0;
    char thrownMsg[400] = "";

    MEM_CONTEXT_TEMP_BEGIN()
    {
        ProtocolParallel *const par = protocolParallelNew(1000, callback, NULL);

        for (unsigned int i = 0; i < nw; i++)
        {
            running[i] = -1;
            protocolParallelClientAdd(par, workerStart(i, retryTotal));
        }

        inPar = 1;

        TRY_BEGIN()
        {
            for (unsigned int loop = 0; loop < 60 && !ended; loop++)
            {
                const unsigned int completed = protocolParallelProcess(par);

                for (unsigned int c = 0; c < completed; c++)
                {
                    ProtocolParallelJob *const job = protocolParallelResult(par);

                    if (job == NULL)
                    {
                        V("%u jobs reported complete but only %u results: %s (%s)", completed, c, trace, outcome);
                        continue;
                    }

                    const unsigned int j = varUInt(protocolParallelJobKey(job));
                    returned[j]++;

                    if (firstGiven[j] != protocolParallelJobProcessId(job) || sh->worker[j] + 1 != (int)firstGiven[j])
                        V("job %u given to worker %u, run by %d, reported for %u: %s", j, firstGiven[j], sh->worker[j] + 1, protocolParallelJobProcessId(job), trace);

                    if (protocolParallelJobErrorCode(job) != 0)
                    {
                        isErr[j] = 1;
                        char want[64];
                        snprintf(want, sizeof(want), "error of job %u", j);

                        if (strchr("ob", outcome[j]) || (outcome[j] == 'r' && retryTotal))
                            V("job %u succeeded but is reported failed (%s): %s", j, strZ(protocolParallelJobErrorMessage(job)), trace);
                        else if (strchr("eR", outcome[j]) && strstr(strZ(protocolParallelJobErrorMessage(job)), want) == NULL)
                            V("job %u reported with another error: %s: %s", j, strZ(protocolParallelJobErrorMessage(job)), trace);
                        else if (outcome[j] == 'e' && protocolParallelJobErrorCode(job) != errorTypeCode(&FormatError))
                            V("job %u reported with error code %d: %s", j, protocolParallelJobErrorCode(job), trace);
                    }
                    else
                    {
                        if (!strchr("obr", outcome[j]) || (outcome[j] == 'r' && !retryTotal))
                            V("job %u failed (%c) but is reported successful: %s", j, outcome[j], trace);

                        PackRead *const result = protocolParallelJobResult(job);
                        const unsigned int id = pckReadU32P(result);
                        int good = id == j;

                        if (outcome[j] == 'b')
                        {
                            const Buffer *const big = pckReadBinP(result);
                            good = good && bufUsed(big) == 300000 && bufPtrConst(big)[299999] == 'a' + (int)j;
                        }
                        else
                            good = good && strEq(pckReadStrP(result), strNewFmt("text %u", j));

                        if (!good)
                            V("job %u returned with the result of job %u: %s", j, id, trace);
                    }

                    protocolParallelJobFree(job);
                }

                ended = protocolParallelDone(par);
            }
        }
        CATCH_FATAL()
        {
            thrown = 1;
            snprintf(thrownMsg, sizeof(thrownMsg), "%s", errorMessage());
        }
        TRY_END();

        inPar = 0;
        evals++;

        /* what the tool does at its end */
        for (unsigned int i = 0; i < nw; i++)
        {
            int ok;

            if (w[i].client != NULL && !asked[i])
                ATTEMPT(ok, protocolClientFree(w[i].client));
            (void)ok;
        }

        /* the connections are down whatever the outcome */
        for (unsigned int i = 0; i < nw; i++)
            kill(w[i].pid, SIGKILL);

        workerStop(nw);

    const int death = strpbrk(outcome, "dD") != NULL;

    if (askedAgain)
        V("a released worker is asked for more jobs: %s", trace);

    if (gaveBusy)
        V("a busy worker is given another job: %s", trace);

    if (thrown && !death)
        V("processing failed though every worker answered: %s: outcomes %s, %s", thrownMsg, outcome, trace);

    if (!thrown && !ended)
        V("processing does not end: outcomes %s, %s", outcome, trace);

    for (unsigned int j = 0; j < nj; j++)
    {
        const int handed = firstGiven[j] != 0;

        if (returned[j] > 1)
            V("job %u returned %d times: outcomes %s, %s", j, returned[j], outcome, trace);

        if (ended && handed && returned[j] != 1)
            V("job %u lost: outcomes %s, %s", j, outcome, trace);

        if (ended && !handed && policy != 3)
            V("job %u never run: outcomes %s, %s", j, outcome, trace);

        if (sh->exec[j] > 1)
            V("job %u run %d times: outcomes %s, %s", j, sh->exec[j], outcome, trace);

        if (sh->start[j] > 1 + (strchr("erR", outcome[j]) ? (int)retryTotal : 0))
            V("job %u started %d times: outcomes %s, %s", j, sh->start[j], outcome, trace);
    }

    fflush(stdout);
    _exit(viols != 0);
    }
    MEM_CONTEXT_TEMP_END();
}

/* every execution in a process of its own: after an error the tool ends as well */
#define CHILD(call)                                                                                                                \
    do                                                                                                                             \
    {                                                                                                                              \
        fflush(stdout);                                                                                                            \
        const pid_t child_ = fork();                                                                                               \
        if (child_ == 0)                                                                                                           \
        {                                                                                                                          \
            viols = 0;                                                                                                             \
            call;                                                                                                                  \
            fflush(stdout);                                                                                                        \
            _exit(0);                                                                                                              \
        }                                                                                                                          \
        int st_;                                                                                                                   \
        waitpid(child_, &st_, 0);                                                                                                  \
        if (st_ != 0)                                                                                                              \
            V("execution ended with status %x: %s%s", st_, outcome, desc);                                                        \
        evals++;                                                                                                                   \
    }                                                                                                                              \
    while (0)

static void
par(void)
{
    signal(SIGPIPE, SIG_IGN);

    for (nw = 1; nw <= MAXW; nw++)
        for (nj = 0; nj <= (deep ? 5 : 4); nj++)
            for (policy = 0; policy <= 3; policy += policy == 1 ? 2 : 1)
                for (retryTotal = 0; retryTotal < 2; retryTotal++)
                {
                    const char *alpha = nj <= (deep ? 3 : 2) ? "oedDbrR" : deep && nj == 4 ? "oedDb" : nj == 3 ? "oedD" : "oed";
                    const unsigned int na = (unsigned int)strlen(alpha);

                    if (retryTotal && nj > 2 && !(deep && nj == 3))
                        continue;
                    if (nj == 4 && nw == 3 && policy && !deep)
                        continue;
                    if (nj == 5 && policy)
                        continue;
                    if (nj == 4 && !deep)
                        alpha = "oed";

                    unsigned long total = 1;
                    for (unsigned int j = 0; j < nj; j++)
                        total *= na;

                    timeoutMax = nj <= 2 ? 1 : 0;

                    for (unsigned long v = 0; v < total; v++)
                    {
                        unsigned long x = v;
                        memset(outcome, 0, sizeof(outcome));
                        for (unsigned int j = 0; j < nj; j++, x /= na)
                            outcome[j] = alpha[x % na];

                        if (!MINE())
                            continue;

                        choLen = 0;
                        do
                            CHILD(parExec());
                        while (chooseNext());
                    }
                }
}

/* ---- sessions */
#define MAXS 3
enum {sNone, sNew, sOpen, sReq, sClosed, sEnd};

static void
sesExec(const unsigned char *op, unsigned int len)
{
    ProtocolClientSession *s[MAXS] = {NULL};
    int count[MAXS] = {0}, want[MAXS] = {0}, pend[MAXS] = {0};
    (void)want;
    const char *const tr = desc;

    MEM_CONTEXT_TEMP_BEGIN()
    {
        ProtocolClient *const client = workerStart(0, 0);

        TRY_BEGIN()
        {
            for (unsigned int i = 0; i < len; i++)
            {
                const unsigned int k = op[i] % 4;

                switch (op[i] / 4)
                {
                    case 0:                                         /* open */
                    {
                        s[k] = protocolClientSessionNewP(client, CMD_SES, .async = true);
                        PackWrite *const param = protocolPackNew();
                        pckWriteU32P(param, 50 + k + 10 * (unsigned int)i);
                        want[k] = (int)(50 + k + 10 * i);
                        PackRead *const r = protocolClientSessionOpenP(s[k], .param = param);
                        if (pckReadU32P(r) != (unsigned int)want[k])
                            V("opening session %u returned something else:%s", k, tr);
                        count[k] = 0;
                        break;
                    }

                    case 1:                                         /* request whose answer is read later: normal, error, closing */
                    case 2:
                    case 3:
                    {
                        PackWrite *const param = protocolPackNew();
                        pckWriteU32P(param, op[i] / 4 - 1U);
                        pend[k] = op[i] / 4;
                        count[k]++;
                        protocolClientSessionRequestAsyncP(s[k], .param = param);
                        break;
                    }

                    case 4:                                         /* close */
                    {
                        PackRead *const r = protocolClientSessionClose(s[k]);
                        const unsigned int t = pckReadU32P(r), n = pckReadU32P(r);
                        if (t != 1000U + (unsigned int)want[k] || n != (unsigned int)count[k])
                            V("closing session %u (tag %d, %d requests) returned %u, %u:%s", k, want[k], count[k], t, n, tr);
                        s[k] = NULL;
                        break;
                    }

                    case 5:                                         /* free, whatever is outstanding */
                        protocolClientSessionFree(s[k]);
                        s[k] = NULL;
                        pend[k] = 0;
                        break;

                    case 6:                                         /* read the answer */
                    {
                        volatile int err = 0;
                        volatile unsigned int t = 0, n = 0;

                        TRY_BEGIN()
                        {
                            PackRead *const r = protocolClientSessionResponse(s[k]);
                            t = pckReadU32P(r);
                            n = pckReadU32P(r);
                        }
                        CATCH_ANY()
                        {
                            char m[64];
                            snprintf(m, sizeof(m), "error of session %d", want[k]);
                            err = strstr(errorMessage(), m) != NULL ? 1 : 2;
                            if (err == 2)
                                V("answer for session %u is another error: %s:%s", k, errorMessage(), tr);
                        }
                        TRY_END();

                        if ((pend[k] == 2) != (err != 0))
                            V("session %u: error %s:%s", k, err ? "reported though the request worked" : "lost", tr);
                        else if (!err && (t != (unsigned int)want[k] || n != (unsigned int)count[k]))
                            V("session %u (tag %d) got the answer %u (number %u, expected %d):%s", k, want[k], t, n, count[k], tr);

                        if (pend[k] == 3)
                        {
                            protocolClientSessionFree(s[k]);
                            s[k] = NULL;
                        }

                        pend[k] = 0;
                        break;
                    }

                    case 7:                                         /* request outside any session */
                    {
                        PackWrite *const param = protocolPackNew();
                        pckWriteU32P(param, k == 3 ? 7 : 20 + i);
                        volatile int err = 0;
                        volatile unsigned int t = 0;
                        TRY_BEGIN()
                        {
                            t = pckReadU32P(protocolClientRequestP(client, CMD_PLAIN, .param = param));
                        }
                        CATCH_ANY()
                        {
                            err = strstr(errorMessage(), "error of plain request") != NULL ? 1 : 2;
                        }
                        TRY_END();

                        if (k == 3 ? err != 1 : err != 0 || t != 21 + i)
                            V("plain request: error %d, result %u:%s", err, t, tr);
                        break;
                    }
                }
            }
        }
        CATCH_FATAL()
        {
            V("failed: %s:%s", errorMessage(), tr);
        }
        TRY_END();

        int ok;
        ATTEMPT(ok, protocolClientFree(client));
        if (!ok)
            V("client cannot be freed:%s", tr);
        kill(w[0].pid, SIGKILL);
        fflush(stdout);
        workerStop(1);
        _exit(viols != 0);
    }
    MEM_CONTEXT_TEMP_END();
}

static void
sesGen(unsigned char *op, unsigned int len, unsigned int max, const int *st, const int *pd, unsigned int ns)
{
    /* st: 0 not open, 1 open, 2 request outstanding, 3 closing request outstanding */
    if (len == max)
    {
        if (MINE())
        {
            desc[0] = 0;

            for (unsigned int i = 0; i < len; i++)
                snprintf(desc + strlen(desc), sizeof(desc) - strlen(desc), " %c%u", "OQEZCFRp"[op[i] / 4], op[i] % 4);

            CHILD(sesExec(op, len));
        }
        return;
    }

    for (unsigned int k = 0; k < ns; k++)
    {
        /* sessions are interchangeable: number k is first used after number k - 1 */
        if (st[k] == 0 && k > 0 && pd[k - 1] == 0)
            continue;

        for (unsigned int o = 0; o < 7; o++)
        {
            int ok, to = st[k];

            switch (o)
            {
                case 0: ok = st[k] == 0; to = 1; break;
                case 1: ok = st[k] == 1; to = 2; break;
                case 2: ok = st[k] == 1; to = 2; break;
                case 3: ok = st[k] == 1; to = 3; break;
                case 4: ok = st[k] == 1; to = 0; break;
                case 5: ok = st[k] == 1 || st[k] == 2; to = 0; break;
                default: ok = st[k] == 2 || st[k] == 3; to = st[k] == 3 ? 0 : 1; break;
            }

            /* freeing with an error outstanding throws by design of the caller's cleanup; not explored */
            if (o == 5 && st[k] == 2 && pd[k] == 2)
                continue;

            if (!ok)
                continue;

            int st2[MAXS], pd2[MAXS];
            memcpy(st2, st, sizeof(st2));
            memcpy(pd2, pd, sizeof(pd2));
            st2[k] = to;
            pd2[k] = o == 2 ? 2 : 1;
            op[len] = (unsigned char)(o * 4 + k);
            sesGen(op, len + 1, max, st2, pd2, ns);
        }
    }

    for (unsigned int k = 0; k <= 3; k += 3)
    {
        op[len] = (unsigned char)(7 * 4 + k);
        sesGen(op, len + 1, max, st, pd, ns);
    }
}

static void
ses(void)
{
    signal(SIGPIPE, SIG_IGN);
    const int st[MAXS] = {0}, pd[MAXS] = {0};
    unsigned char op[16];
    /* sequences of exactly the maximal length contain all shorter ones as prefixes */
    sesGen(op, 0, deep ? 7 : 6, st, pd, 2);
    sesGen(op, 0, deep ? 8 : 6, st, pd, 3);
}

int
main(int argc, char **argv)
{
    static const Mode modes[] = {{"par", par}, {"ses", ses}, {NULL, NULL}};
    sh = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return explore(argc, argv, modes);
}
