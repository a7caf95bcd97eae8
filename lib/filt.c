/* Explores the real I/O filters in process: filt <mode> <slice> <slices> <deep>
 *   p24  every (bounded) way of splitting a stream into buffers gives the same result, and encode/decode is the identity
 *   p25  every truncation / change / extension of an encoded stream is rejected or harmless
 * Prints "V <message>" for each violation and "N <evaluations> <distinct>" at the end. */
#include <build.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <openssl/evp.h>
#include "common/compress/helper.h"
#include "common/crypto/cipherBlock.h"
#include "common/crypto/hash.h"
#include "common/crypto/spec.h"
#include "common/crypto/xxhash.h"
#include "common/error/error.h"
#include "common/io/bufferRead.h"
#include "common/io/bufferWrite.h"
#include "common/io/filter/group.h"
#include "common/io/filter/sink.h"
#include "common/io/filter/size.h"
#include "common/io/io.h"
#include "common/io/limitRead.h"
#include "common/io/read.intern.h"
#include "common/io/write.intern.h"
#include "common/log.h"
#include "common/memContext.h"
#include "common/type/object.h"

static unsigned long evals, viols, job, slice, slices;
static int deep;
#define MINE() (job++ % slices == slice)

static void V(const char *fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    if (viols++ < 5)
    {
        printf("V ");
        vprintf(fmt, a);
        printf("\n");
    }
    va_end(a);
}

/* ---- data ---- */
static unsigned char data[3][300000];
static const char *pname[3] = {"random", "zero", "text"};

static void dataInit(void)
{
    unsigned long x = 88172645463325252UL;
    for (size_t i = 0; i < sizeof(data[0]); i++)
    {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        data[0][i] = (unsigned char)(x >> 24);
        data[1][i] = 0;
        data[2][i] = (unsigned char)"the quick brown fox\njumps over "[(i * i / 7 + i) % 31];
    }
}

/* ---- a source delivering scripted chunk sizes (cyclic), possibly with empty reads in between ---- */
typedef struct { const unsigned char *p; size_t n, pos; const size_t *chunk; unsigned int nchunk, idx; } Src;
static bool srcOpen(void *d) { return true; }
static void srcClose(void *d) { }
static bool srcEof(void *d) { return ((Src *)d)->pos >= ((Src *)d)->n; }
static size_t srcRead(void *dv, Buffer *b, bool block)
{
    Src *d = dv;
    size_t want = d->nchunk ? d->chunk[d->idx++ % d->nchunk] : d->n;
    if (want > bufRemains(b)) want = bufRemains(b);
    if (want > d->n - d->pos) want = d->n - d->pos;
    bufCatC(b, d->p, d->pos, want);
    d->pos += want;
    return want;
}

static IoRead *mkRead(const unsigned char *p, size_t n, const size_t *chunk, unsigned int nchunk)
{
    Src *d;
    OBJ_NEW_BASE_BEGIN(Src, .childQty = MEM_CONTEXT_QTY_MAX)
    {
        d = OBJ_NEW_ALLOC();
        *d = (Src){.p = p, .n = n, .chunk = chunk, .nchunk = nchunk};
    }
    OBJ_NEW_END();
    return ioReadNewP(d, .open = srcOpen, .read = srcRead, .eof = srcEof, .close = srcClose);
}

/* ---- filters by letter ---- */
static Buffer *pass;
static IoFilter *mkFilter(char c, bool raw, int level)
{
    const CipherSpec *spec = cipherSpecNew(cipherTypeAes256Cbc, pass);
    switch (c)
    {
        case 'g': return compressFilterP(compressTypeGz, level, .raw = raw);
        case 'G': return decompressFilterP(compressTypeGz, .raw = raw);
        case 'b': return compressFilterP(compressTypeBz2, level < 1 ? 1 : level, .raw = raw);
        case 'B': return decompressFilterP(compressTypeBz2, .raw = raw);
        case 'l': return compressFilterP(compressTypeLz4, level, .raw = raw);
        case 'L': return decompressFilterP(compressTypeLz4, .raw = raw);
        case 'z': return compressFilterP(compressTypeZst, level, .raw = raw);
        case 'Z': return decompressFilterP(compressTypeZst, .raw = raw);
        case 'e': return cipherBlockNewP(cipherModeEncrypt, spec, .raw = raw);
        case 'E': return cipherBlockNewP(cipherModeDecrypt, spec, .raw = raw);
        case 'h': return cryptoHashNew(hashTypeSha1);
        case '2': return cryptoHashNew(hashTypeSha256);
        case '5': return cryptoHashNew(hashTypeMd5);
        case 'x': return xxHashNew(8);
        case 'n':
        case 's': return ioSizeNew();
        case 'k': return ioSinkNew();
    }
    abort();
}

static void mkChain(IoFilterGroup *g, const char *chain, bool raw, int level)
{
    for (; *chain; chain++)
        ioFilterGroupAdd(g, mkFilter(*chain, raw, level));
}

/* hash/size results against independent computation over the bytes */
static unsigned char dig[3][300][32];
static void checkResults(const char *what, IoFilterGroup *g, const char *chain, const unsigned char *p, size_t n)
{
    unsigned int hi = 0, si = 0;
    for (const char *c = chain; *c; c++)
    {
        const EVP_MD *md = *c == 'h' ? EVP_sha1() : *c == '2' ? EVP_sha256() : *c == '5' ? EVP_md5() : NULL;
        if (md != NULL)
        {
            unsigned char d[64];
            unsigned int dl = 0;
            EVP_Digest(p, n, d, &dl, md, NULL);
            const Buffer *r = pckReadBinP(ioFilterGroupResultP(g, CRYPTO_HASH_FILTER_TYPE, .idx = hi++));
            if (bufUsed(r) != dl || memcmp(bufPtrConst(r), d, dl) != 0)
                V("%s: hash filter %c gives a wrong result", what, *c);
        }
        if (*c == 'n') si++;
        if (*c == 's')
        {
            uint64_t r = pckReadU64P(ioFilterGroupResultP(g, SIZE_FILTER_TYPE, .idx = si++));
            if (r != n)
                V("%s: size filter gives %lu instead of %zu", what, (unsigned long)r, n);
        }
    }
}

static char desc[400];
static const char *mkDesc(const char *side, const char *chain, bool raw, int pat, size_t n, const size_t *chunk, unsigned int nchunk, size_t bufsz, size_t rd)
{
    int o = snprintf(desc, sizeof(desc), "%s chain '%s'%s, %s data of %zu bytes, buffer size %zu, caller buffer %zu, chunks", side, chain, raw ? " raw" : "", pname[pat], n, bufsz, rd);
    for (unsigned int i = 0; i < nchunk && i < 12 && o < 380; i++)
        o += snprintf(desc + o, sizeof(desc) - (size_t)o, " %zu", chunk[i]);
    return desc;
}

/* chain applied on the write side, fed with the given chunks */
static void onWrite(const char *chain, bool raw, int level, int pat, size_t n, const size_t *chunk, unsigned int nchunk, size_t bufsz)
{
    evals++;
    ioBufferSizeSet(bufsz);
    TRY_BEGIN()
    {
        MEM_CONTEXT_TEMP_BEGIN()
        {
            Buffer *out = bufNew(0);
            IoWrite *w = ioBufferWriteNew(out);
            mkChain(ioWriteFilterGroup(w), chain, raw, level);
            ioWriteOpen(w);
            size_t pos = 0;
            unsigned int i = 0;
            while (pos < n)
            {
                size_t c = nchunk ? chunk[i++ % nchunk] : n;
                if (c > n - pos) c = n - pos;
                ioWrite(w, BUF(data[pat] + pos, c));
                pos += c;
            }
            ioWriteClose(w);
            const char *last = strchr(chain, 'k');
            if (last == NULL && (bufUsed(out) != n || memcmp(bufPtrConst(out), data[pat], n) != 0))
                V("%s: gives %zu bytes, not the data written", mkDesc("write", chain, raw, pat, n, chunk, nchunk, bufsz, 0), bufUsed(out));
            if (last != NULL && bufUsed(out) != 0)
                V("%s: sink passed %zu bytes", mkDesc("write", chain, raw, pat, n, chunk, nchunk, bufsz, 0), bufUsed(out));
            checkResults(mkDesc("write", chain, raw, pat, n, chunk, nchunk, bufsz, 0), ioWriteFilterGroup(w), chain, data[pat], n);
        }
        MEM_CONTEXT_TEMP_END();
    }
    CATCH_FATAL()
    {
        V("%s: error %s", mkDesc("write", chain, raw, pat, n, chunk, nchunk, bufsz, 0), errorMessage());
    }
    TRY_END();
}

/* chain applied on the read side of a source with short reads, read with the given buffer size */
static void onRead(const char *chain, bool raw, int level, int pat, size_t n, const size_t *chunk, unsigned int nchunk, size_t bufsz, size_t rd, bool small)
{
    evals++;
    ioBufferSizeSet(bufsz);
    TRY_BEGIN()
    {
        MEM_CONTEXT_TEMP_BEGIN()
        {
            IoRead *r = mkRead(data[pat], n, chunk, nchunk);
            mkChain(ioReadFilterGroup(r), chain, raw, level);
            ioReadOpen(r);
            Buffer *out = bufNew(0), *b = bufNew(rd);
            unsigned long guard = 0;
            do
            {
                bufUsedZero(b);
                if (small)
                    ioReadSmall(r, b);
                else
                    ioRead(r, b);
                bufCat(out, b);
                if (++guard > 4000000)
                {
                    V("%s: never ends", mkDesc("read", chain, raw, pat, n, chunk, nchunk, bufsz, rd));
                    break;
                }
            }
            while (!ioReadEof(r) || (small && bufFull(b)));
            ioReadClose(r);
            if (bufUsed(out) != n || memcmp(bufPtrConst(out), data[pat], n) != 0)
                V("%s: gives %zu bytes, not the data of the source", mkDesc(small ? "small read" : "read", chain, raw, pat, n, chunk, nchunk, bufsz, rd), bufUsed(out));
            checkResults(mkDesc("read", chain, raw, pat, n, chunk, nchunk, bufsz, rd), ioReadFilterGroup(r), chain, data[pat], n);
        }
        MEM_CONTEXT_TEMP_END();
    }
    CATCH_FATAL()
    {
        V("%s: error %s", mkDesc("read", chain, raw, pat, n, chunk, nchunk, bufsz, rd), errorMessage());
    }
    TRY_END();
}

static const char *chains[] = {"", "hs", "25xs", "gG", "lL", "zZ", "bB", "eE", "hsgneEnGhs", "leEL", "zeEZ", "beEB", "hglLGh", "hsk", NULL};

static void p24(void)
{
    /* all compositions of short streams */
    static const size_t bs[] = {1, 2, 3, 16, 17, 100};
    for (int c = 0; chains[c]; c++)
    {
        bool slow = strpbrk(chains[c], "b") != NULL;
        size_t maxN = deep ? (slow ? 9 : 11) : (slow ? 6 : 9);
        for (size_t n = 0; n <= maxN; n++)
            for (unsigned int comp = 0; comp < (n ? 1u << (n - 1) : 1); comp++)
            {
                size_t ch[16];
                unsigned int k = 0;
                if (n)
                {
                    ch[0] = 1;
                    for (size_t i = 1; i < n; i++)
                        if (comp & (1u << (i - 1)))
                            ch[++k] = 1;
                        else
                            ch[k]++;
                    k++;
                }
                for (unsigned int b = 0; b < sizeof(bs) / sizeof(*bs); b++)
                {
                    if (!MINE()) continue;
                    onWrite(chains[c], comp & 1, 1, 0, n, ch, k, bs[b]);
                    if (strchr(chains[c], 'k') == NULL)
                    {
                        onRead(chains[c], comp & 1, 1, 2, n, ch, k, bs[b], 1 + comp % 4, false);
                        onRead(chains[c], comp & 1, 1, 2, n, ch, k, bs[b], 1 + comp % 5, true);
                    }
                }
            }
        /* longer streams around the buffer sizes */
        static const size_t bl[] = {1, 2, 16, 32, 100, 4096, 65536};
        for (unsigned int b = 0; b < sizeof(bl) / sizeof(*bl); b++)
        {
            size_t B = bl[b];
            size_t ns[] = {0, 1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B + 5, 15, 16, 17, 1000, 8192, 65535, 65536, 65537, 262144, 262145};
            size_t cs[] = {1, 2, 3, 7, 16, B > 1 ? B - 1 : 1, B, B + 1, 3 * B + 1, 100000};
            for (unsigned int i = 0; i < sizeof(ns) / sizeof(*ns); i++)
                for (unsigned int j = 0; j < sizeof(cs) / sizeof(*cs); j++)
                    for (int pat = 0; pat < 3; pat++)
                        for (int raw = 0; raw < 2; raw++)
                        {
                            size_t n = ns[i];
                            if (n > sizeof(data[0]) || n / cs[j] > 20000 || n / B > 70000) continue;
                            if (!deep && n > 70000 && (cs[j] < 100 || pat == 0 || B < 100)) continue;
                            if (slow && !deep && (n / B > 2000 || (pat == 1 && raw))) continue;
                            if (n / B > 1000 && !deep && (raw || pat)) continue;
                            if (!MINE()) continue;
                            int level = (int)(j % 3 == 0 ? 1 : j % 3 == 1 ? 3 : 6);
                            onWrite(chains[c], raw, level, pat, n, &cs[j], 1, B);
                            if (strchr(chains[c], 'k') == NULL)
                            {
                                onRead(chains[c], raw, level, pat, n, &cs[j], 1, B, B, false);
                                if (B > 1)
                                    onRead(chains[c], raw, level, pat, n, &cs[j], 1, B, i % 2 ? B - 1 : 2 * B, i % 3 == 0);
                            }
                        }
        }
    }
    /* line reads, and a mix of line, small and block reads, for every text over {a, newline} and every composition */
    for (size_t n = 0; n <= (deep ? 8u : 7u); n++)
        for (unsigned int t = 0; t < 1u << n; t++)
            for (unsigned int comp = 0; comp < (n ? 1u << (n - 1) : 1); comp++)
                for (size_t bsz = 9; bsz <= 20; bsz += 11)
                {
                    if (!MINE()) continue;
                    evals++;
                    char txt[16];
                    for (size_t i = 0; i < n; i++)
                        txt[i] = t & (1u << i) ? '\n' : (char)('a' + i);
                    size_t ch[16];
                    unsigned int k = 0;
                    ch[0] = n ? 1 : 0;
                    for (size_t i = 1; i < n; i++)
                        if (comp & (1u << (i - 1)))
                            ch[++k] = 1;
                        else
                            ch[k]++;
                    k++;
                    ioBufferSizeSet(bsz);
                    TRY_BEGIN()
                    {
                        MEM_CONTEXT_TEMP_BEGIN()
                        {
                            /* lines */
                            IoRead *r = mkRead((unsigned char *)txt, n, ch, k);
                            ioReadOpen(r);
                            size_t pos = 0;
                            for (;;)
                            {
                                const char *nl = memchr(txt + pos, '\n', n - pos);
                                size_t len = nl ? (size_t)(nl - (txt + pos)) : n - pos;
                                String *s = ioReadLineParam(r, true);
                                if (strSize(s) != len || memcmp(strZ(s), txt + pos, len) != 0)
                                {
                                    V("line read of %zu byte text %x split %x buffer %zu: wrong line at %zu", n, t, comp, bsz, pos);
                                    break;
                                }
                                pos += len + 1;
                                if (!nl || pos > n) break;
                            }
                            /* a line, then two bytes small, then the rest as a block */
                            const char *nl = memchr(txt, '\n', n);
                            if (nl)
                            {
                                r = mkRead((unsigned char *)txt, n, ch, k);
                                ioReadOpen(r);
                                ioReadLine(r);
                                size_t at = (size_t)(nl - txt) + 1;
                                Buffer *a = bufNew(2), *b = bufNew(40);
                                ioReadSmall(r, a);
                                ioRead(r, b);
                                Buffer *all = bufNew(0);
                                bufCat(all, a);
                                bufCat(all, b);
                                if (bufUsed(all) != n - at || memcmp(bufPtrConst(all), txt + at, n - at) != 0)
                                    V("line, small and block read of %zu byte text %x split %x buffer %zu: wrong rest", n, t, comp, bsz);
                            }
                            /* limited read of every length, then what remains */
                            for (size_t lim = 0; lim <= n; lim++)
                            {
                                r = mkRead((unsigned char *)txt, n, ch, k);
                                ioReadOpen(r);
                                IoRead *l = ioLimitReadNew(r, lim);
                                ioReadOpen(l);
                                Buffer *a = bufNew(lim + 3), *b = bufNew(40);
                                ioRead(l, a);
                                if (!ioReadEof(l))
                                    V("limited read of %zu: not at end after all was read", lim);
                                ioReadClose(l);
                                ioRead(r, b);
                                if (bufUsed(a) != lim || memcmp(bufPtrConst(a), txt, lim) != 0 || bufUsed(b) != n - lim || memcmp(bufPtrConst(b), txt + lim, n - lim) != 0)
                                    V("limited read of %zu of %zu bytes split %x buffer %zu: %zu then %zu bytes", lim, n, comp, bsz, bufUsed(a), bufUsed(b));
                            }
                            /* writing lines and strings */
                            Buffer *out = bufNew(0);
                            IoWrite *w = ioBufferWriteNewOpen(out);
                            size_t p = 0;
                            for (unsigned int i = 0; i < k; i++)
                            {
                                if (i % 2)
                                    ioWriteStr(w, strNewZN(txt + p, ch[i]));
                                else
                                    ioWrite(w, BUF(txt + p, ch[i]));
                                p += ch[i];
                                if (comp & (1u << i))
                                    ioWriteFlush(w);
                            }
                            ioWriteClose(w);
                            if (bufUsed(out) != n || memcmp(bufPtrConst(out), txt, n) != 0)
                                V("writes of %zu byte text %x split %x buffer %zu: %zu bytes out", n, t, comp, bsz, bufUsed(out));
                        }
                        MEM_CONTEXT_TEMP_END();
                    }
                    CATCH_FATAL()
                    {
                        V("line reads of %zu byte text %x split %x: error %s", n, t, comp, errorMessage());
                    }
                    TRY_END();
                }
}

/* ---- p25 ---- */
static int decode(const char *dec, bool raw, const unsigned char *p, size_t n, size_t bufsz, size_t chunk, int side, Buffer *out)
{
    volatile int ok = 0;
    evals++;
    ioBufferSizeSet(bufsz);
    bufUsedZero(out);
    TRY_BEGIN()
    {
        MEM_CONTEXT_TEMP_BEGIN()
        {
            if (side == 0)
            {
                IoRead *r = mkRead(p, n, &chunk, chunk ? 1 : 0);
                mkChain(ioReadFilterGroup(r), dec, raw, 1);
                ioReadOpen(r);
                Buffer *b = bufNew(bufsz);
                do
                {
                    bufUsedZero(b);
                    ioRead(r, b);
                    bufCat(out, b);
                }
                while (!ioReadEof(r) && bufUsed(out) < 10000000);
                ioReadClose(r);
            }
            else
            {
                Buffer *o2 = bufNew(0);
                IoWrite *w = ioBufferWriteNew(o2);
                mkChain(ioWriteFilterGroup(w), dec, raw, 1);
                ioWriteOpen(w);
                for (size_t pos = 0; pos < n;)
                {
                    size_t c = chunk && chunk < n - pos ? chunk : n - pos;
                    ioWrite(w, BUF(p + pos, c));
                    pos += c;
                }
                ioWriteClose(w);
                bufCat(out, o2);
            }
        }
        MEM_CONTEXT_TEMP_END();
        ok = 1;
    }
    CATCH_FATAL()
    {
    }
    TRY_END();
    return ok;
}

static void p25(void)
{
    static const struct { const char *enc, *dec; int check; } fm[] = {
        {"g", "G", 1}, {"l", "L", 1}, {"b", "B", 1}, {"z", "Z", 0}, {"e", "E", 0}, {"ge", "EG", 1}, {"le", "EL", 1}, {"ze", "EZ", 0}, {"be", "EB", 1}};
    static const size_t sizes[] = {0, 1, 15, 16, 17, 31, 100, 1000, 9000, 70000};
    Buffer *out = bufNew(0);
    for (unsigned int f = 0; f < sizeof(fm) / sizeof(*fm); f++)
        for (int raw = 0; raw < 2; raw++)
            for (unsigned int s = 0; s < sizeof(sizes) / sizeof(*sizes); s++)
                for (int pat = 0; pat < 3; pat++)
                {
                    size_t n = sizes[s];
                    bool bz = strchr(fm[f].enc, 'b') != NULL;
                    if (n >= 70000 && pat == 0) continue;
                    if (n > 1000 && !deep && (raw || pat == 0)) continue;
                    if (!MINE()) continue;
                    static unsigned char enc[200000];
                    size_t en = 0;
                    ioBufferSizeSet(65536);
                    MEM_CONTEXT_TEMP_BEGIN()
                    {
                        Buffer *o = bufNew(0);
                        IoWrite *w = ioBufferWriteNew(o);
                        mkChain(ioWriteFilterGroup(w), fm[f].enc, raw, 1);
                        ioWriteOpen(w);
                        ioWrite(w, BUF(data[pat], n));
                        ioWriteClose(w);
                        en = bufUsed(o);
                        memcpy(enc, bufPtrConst(o), en);
                    }
                    MEM_CONTEXT_TEMP_END();
                    size_t step = en > 3000 && !deep ? (bz ? en / 100 : en / 1000) : 1;
                    if (!step) step = 1;
                    if (en > 20000) step = en / 500;
                    char d[200];
                    snprintf(d, sizeof(d), "%s%s of %s data of %zu bytes (%zu encoded)", fm[f].enc, raw ? " raw" : "", pname[pat], n, en);
                    if (!decode(fm[f].dec, raw, enc, en, 4096, 0, 0, out) || bufUsed(out) != n || memcmp(bufPtrConst(out), data[pat], n) != 0)
                        V("%s: does not decode to itself", d);
                    /* truncations */
                    for (size_t t = 0; t < en; t += (t + 40 >= en || t < 40) ? 1 : step)
                        for (int v = 0; v < (en <= 400 || deep ? 4 : 2); v++)
                        {
                            size_t bsz = v & 1 ? 1000 : 64;
                            if (decode(fm[f].dec, raw, enc, t, bsz, v & 2 ? 7 : 0, v & 1, out))
                            {
                                // The raw cipher has no header: nothing left at all is the empty stream only if it was empty
                                V("%s cut to %zu: accepted with %zu bytes%s (%s side)", d, t, bufUsed(out),
                                  bufUsed(out) == n && memcmp(bufPtrConst(out), data[pat], n) == 0 ? " (complete data)" : "", v & 1 ? "write" : "read");
                            }
                        }
                    /* changes */
                    for (size_t t = 0; t < en; t += (t + 20 >= en || t < 40) ? 1 : step)
                        for (int v = 0; v < 3; v++)
                        {
                            unsigned char o = enc[t];
                            enc[t] ^= v == 0 ? 1 : v == 1 ? 0x80 : 0xff;
                            if (decode(fm[f].dec, raw, enc, en, 1000, 0, (int)(t & 1), out) && fm[f].check && !raw)
                                if (bufUsed(out) != n || memcmp(bufPtrConst(out), data[pat], n) != 0)
                                    V("%s with byte %zu changed by %d: accepted with other content", d, t, v);
                            enc[t] = o;
                        }
                    /* extensions: never different content reported as success */
                    static const unsigned char ext[4][20] = {"\0", "junkjunkjunkjunkjun", "\x1f\x8b", "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"};
                    static const size_t extn[4] = {1, 19, 2, 16};
                    for (int v = 0; v < 5; v++)
                        for (int side = 0; side < 2; side++)
                        {
                            size_t add = v < 4 ? extn[v] : en;
                            if (en + add > sizeof(enc)) continue;
                            memmove(enc + en, v < 4 ? ext[v] : enc, add);
                            if ((v < 4 || !strpbrk(fm[f].enc, "lz")) && decode(fm[f].dec, raw, enc, en + add, 500, 0, side, out) && !strchr(fm[f].enc, 'e') &&
                                (bufUsed(out) != n || memcmp(bufPtrConst(out), data[pat], n) != 0))
                                V("%s extended by %zu: accepted with other content (%zu bytes)", d, add, bufUsed(out));
                        }
                }
}

int main(int argc, char **argv)
{
    FUNCTION_LOG_BEGIN(logLevelDebug);
        FUNCTION_LOG_PARAM(INT, argc);
    FUNCTION_LOG_END();
    static const ErrorHandlerFunction eh[] = {stackTraceClean, memContextClean};
    errorHandlerSet(eh, LENGTH_OF(eh));
    slice = strtoul(argv[2], NULL, 10);
    slices = strtoul(argv[3], NULL, 10);
    deep = atoi(argv[4]);
    logInit(logLevelOff, logLevelOff, logLevelOff, false, 0, 1, false);
    cryptoInit();
    dataInit();
    pass = bufNewC("some passphrase", 15);
    if (strcmp(argv[1], "p24") == 0)
        p24();
    else
        p25();
    printf("N %lu %lu\n", evals, viols);
    fflush(stdout);
    _exit(0);
    FUNCTION_LOG_RETURN(INT, 0);
}
