/* Explores pure functions in process: p37 WAL naming, p27 formats */
#include "expl.h"
#include "command/archive/common.h"
#include "postgres/interface.h"
#include "common/encode.h"
#include "common/ini.h"
#include "common/type/convert.h"
#include "common/type/json.h"
#include "common/type/pack.h"
#include "common/type/stringId.h"
#include "common/type/stringList.h"
#include "common/type/keyValue.h"

/* ---------------------------------------------------------------- p37 */
static const char *refName(uint32_t tli, uint64_t segno, uint64_t sz)
{
    static char b[8][32];
    static int i;
    i = (i + 1) % 8;
    uint64_t per = 0x100000000ULL / sz;
    snprintf(b[i], 32, "%08X%08X%08X", tli, (uint32_t)(segno / per), (uint32_t)(segno % per));
    return b[i];
}

static void p37(void)
{
    static const uint32_t tlis[] = {1, 2, 9, 10, 15, 16, 255, 0x7fffffff, 0x80000000, 0xffffffff};
    static const uint64_t majors[] = {0, 1, 9, 0xf, 0x10, 0xff, 0x100, 0xfffe, 0xffff, 0x7fffffff, 0x80000000ULL, 0xfffffffdULL};
    for (int p = 20; p <= 30; p++)
    {
        uint64_t sz = 1ULL << p, per = 0x100000000ULL / sz;
        for (unsigned t = 0; t < LENGTH_OF(tlis); t++)
            for (unsigned m = 0; m < LENGTH_OF(majors); m++)
            {
                if (!MINE()) continue;
                for (uint64_t k = 0; k < per; k++)
                {
                    /* all segments of a file for big sizes; for small ones those near powers of two and the ends */
                    if (per > 64 && !deep && !(k < 20 || k + 20 > per || (k & (k - 1)) == 0 || ((k + 1) & k) == 0))
                        continue;
                    uint64_t segno = majors[m] * per + k;
                    static const long off[] = {0, 1, 2, -1, -2};
                    MEM_CONTEXT_TEMP_BEGIN()
                    {
                        char want[32];
                        snprintf(want, sizeof(want), "%s", refName(tlis[t], segno, sz));
                        for (unsigned o = 0; o < LENGTH_OF(off); o++)
                        {
                            uint64_t lsn = segno * sz + (off[o] >= 0 ? (uint64_t)off[o] : sz + (uint64_t)off[o]);
                            evals++;
                            if (!strEqZ(pgLsnToWalSegment(tlis[t], lsn, (unsigned)sz), want))
                                V("position %lx segment size %lu timeline %x: named %s instead of %s", lsn, sz, tlis[t], strZ(pgLsnToWalSegment(tlis[t], lsn, (unsigned)sz)), want);
                            char ls[64];
                            snprintf(ls, sizeof(ls), "%X/%X", (uint32_t)(lsn >> 32), (uint32_t)lsn);
                            if (pgLsnFromStr(STR(ls)) != lsn)
                                V("position %s read as %lx", ls, pgLsnFromStr(STR(ls)));
                            if (strcasecmp(strZ(pgLsnToStr(lsn)), ls) != 0)
                                V("position %s written as %s", ls, strZ(pgLsnToStr(lsn)));
                            /* ranges */
                            for (unsigned len = 0; len < 4; len++)
                                for (int e = 0; e < 3; e++)
                                {
                                    uint64_t stop = (segno + len) * sz + (e == 0 ? 0 : e == 1 ? 1 : sz - 1);
                                    if (stop < lsn || (segno + len) / per > 0xffffffffULL) continue;
                                    StringList *l = pgLsnRangeToWalSegmentList(tlis[t], lsn, stop, (unsigned)sz);
                                    evals++;
                                    bool ok = strLstSize(l) == len + 1;
                                    for (unsigned i = 0; ok && i <= len; i++)
                                        ok = strEqZ(strLstGet(l, i), refName(tlis[t], segno + i, sz));
                                    if (!ok)
                                        V("range %lx..%lx segment size %lu: %s", lsn, stop, sz, strZ(strLstJoin(l, " ")));
                                    strLstFree(l);
                                }
                        }
                        evals++;
                        if (pgTimelineFromWalSegment(STR(want)) != tlis[t])
                            V("timeline of %s read as %x", want, pgTimelineFromWalSegment(STR(want)));
                        if ((segno + 1) / per <= 0xffffffffULL && !strEqZ(walSegmentNext(STR(want), sz), refName(tlis[t], segno + 1, sz)))
                            V("segment after %s (size %lu) is %s", want, sz, strZ(walSegmentNext(STR(want), sz)));
                        for (unsigned n = 1; n <= 4; n++)
                            if ((segno + n) / per <= 0xffffffffULL)
                            {
                                StringList *l = walSegmentRange(STR(want), sz, n);
                                evals++;
                                bool ok = strLstSize(l) == n;
                                for (unsigned i = 0; ok && i < n; i++)
                                    ok = strEqZ(strLstGet(l, i), refName(tlis[t], segno + i, sz));
                                if (!ok)
                                    V("%u segments from %s (size %lu): %s", n, want, sz, strZ(strLstJoin(l, " ")));
                            }
                        if (!walIsSegment(STR(want)) || walIsPartial(STR(want)))
                            V("%s not taken for a WAL segment", want);
                        String *part = strNewFmt("%s.partial", want);
                        if (!walIsSegment(part) || !walIsPartial(part))
                            V("%s not taken for a partial WAL segment", strZ(part));
                    }
                    MEM_CONTEXT_TEMP_END();
                }
            }
    }
    /* names: exactly 24 upper case hex digits, optionally .partial */
    static const char *no[] = {
        "", "0", "00000001000000000000000", "0000000100000000000000011", "00000002.history", "000000010000000000000001.00000028.backup", "000000010000000000000001.partia",
        "000000010000000000000001.partialx", "000000010000000000000001.ready", "x00000010000000000000001", "00000001000000000000000g", " 000000010000000000000001",
        "000000010000000000000001 ", "000000010000000000000001partial", "0000000100000000", "00000001000000000000000f", NULL};
    if (MINE())
        for (int i = 0; no[i]; i++)
        {
            evals++;
            if (walIsSegment(STR(no[i])))
                V("'%s' taken for a WAL segment", no[i]);
        }
    static const char *bad[] = {"", "1", "1/", "/1", "1/2/3", "x/1", "1/x", "1 /1", "1-1", "10000000000000000000/1", NULL};
    if (MINE())
        for (int i = 0; bad[i]; i++)
        {
            bool ok;
            evals++;
            ATTEMPT(ok, pgLsnFromStr(STR(bad[i])));
            if (ok)
                V("'%s' accepted as a WAL position", bad[i]);
        }
}

/* ---------------------------------------------------------------- p27 */
static uint64_t bnd[700];
static unsigned nbnd;
static void bounds(void)
{
    for (int k = 0; k <= 64; k++)
        for (int d = -2; d <= 2; d++)
            bnd[nbnd++] = (k == 64 ? 0 : 1ULL << k) + (uint64_t)d;
    static const uint64_t x[] = {10, 99, 100, 999999999, 1000000000, 4294967295, 9999999999999999999ULL, 12345678901234567890ULL};
    for (unsigned i = 0; i < LENGTH_OF(x); i++)
        bnd[nbnd++] = x[i];
}

/* all strings up to a length over an alphabet of pieces */
static const char *alpha[] = {"a", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x7f", "\xc3\xa9", "u", "{", "}", "[", "]", "=", " ", "#", ":", ",", "0", "n"};
#define NA LENGTH_OF(alpha)
static unsigned long npow(unsigned n) { unsigned long r = 1; while (n--) r *= NA; return r; }
static const char *mkStr(unsigned len, unsigned long code)
{
    static char b[8][64];
    static int i;
    i = (i + 1) % 8;
    b[i][0] = 0;
    while (len--)
    {
        { size_t o = strlen(b[i]); snprintf(b[i] + o, 64 - o, "%s", alpha[code % NA]); }
        code /= NA;
    }
    return b[i];
}
static const char *show(const char *s)
{
    static char b[4][200];
    static int i;
    i = (i + 1) % 4;
    char *o = b[i];
    for (; *s && o < b[i] + 180; s++)
        if (*s >= ' ' && *s < 127) *o++ = *s; else o += snprintf(o, 8, "<%02x>", (unsigned char)*s);
    *o = 0;
    return b[i];
}

static void varint(void)
{
    for (unsigned i = 0; i < nbnd; i++)
    {
        if (!MINE()) continue;
        bool ok;
        uint8_t b[CVT_VARINT128_BUFFER_SIZE + 2];
        size_t n = 0;
        evals++;
        cvtUInt64ToVarInt128(bnd[i], b, &n, sizeof(b));
        size_t p = 0;
        uint64_t v = cvtUInt64FromVarInt128(b, &p, n);
        if (v != bnd[i] || p != n) V("varint %lx read back as %lx", bnd[i], v);
        for (size_t cut = 0; cut < n; cut++)
        {
            evals++;
            ATTEMPT(ok, size_t q = 0; cvtUInt64FromVarInt128(b, &q, cut));
            if (ok) V("varint %lx cut to %zu accepted", bnd[i], cut);
        }
        for (size_t bs = 1; bs < 13; bs++)
        {
            evals++;
            ioBufferSizeSet(bs);
            MEM_CONTEXT_TEMP_BEGIN()
            {
                Buffer *out = bufNew(0);
                IoWrite *w = ioBufferWriteNewOpen(out);
                ioWriteVarIntU64(w, bnd[i]);
                ioWriteVarIntU64(w, 7);
                ioWriteClose(w);
                IoRead *r = ioBufferReadNewOpen(out);
                uint64_t a = ioReadVarIntU64(r), c = ioReadVarIntU64(r);
                if (a != bnd[i] || c != 7) V("varint %lx through I/O with buffer %zu read back as %lx,%lx", bnd[i], bs, a, c);
                for (size_t cut = 0; cut < n; cut++)
                {
                    ATTEMPT(ok, ioReadVarIntU64(ioBufferReadNewOpen(BUF(bufPtrConst(out), cut))));
                    if (ok) V("varint %lx through I/O cut to %zu accepted", bnd[i], cut);
                }
            }
            MEM_CONTEXT_TEMP_END();
        }
    }
    if (MINE())
    {
        bool ok;
        uint8_t b[20];
        memset(b, 0x80, sizeof(b));
        evals++;
        ATTEMPT(ok, size_t q = 0; cvtUInt64FromVarInt128(b, &q, 20));
        if (ok) V("endless varint accepted");
        ATTEMPT(ok, ioReadVarIntU64(ioBufferReadNewOpen(BUF(b, 20))));
        if (ok) V("endless varint accepted through I/O");
    }
}

static void convert(void)
{
    char z[64], ref[64];
    bool ok;
    for (unsigned i = 0; i < nbnd; i++)
    {
        if (!MINE()) continue;
        uint64_t u = bnd[i];
        evals++;
        snprintf(ref, sizeof(ref), "%lu", u);
        cvtUInt64ToZ(u, z, sizeof(z));
        if (strcmp(z, ref) || cvtZToUInt64(z) != u) V("uint64 %s written as %s", ref, z);
        snprintf(ref, sizeof(ref), "%ld", (int64_t)u);
        cvtInt64ToZ((int64_t)u, z, sizeof(z));
        if (strcmp(z, ref) || cvtZToInt64(z) != (int64_t)u) V("int64 %s written as %s", ref, z);
        snprintf(ref, sizeof(ref), "%u", (unsigned)u);
        cvtUIntToZ((unsigned)u, z, sizeof(z));
        if (strcmp(z, ref) || cvtZToUInt(z) != (unsigned)u) V("uint %s written as %s", ref, z);
        snprintf(ref, sizeof(ref), "%d", (int)u);
        cvtIntToZ((int)u, z, sizeof(z));
        if (strcmp(z, ref) || cvtZToInt(z) != (int)u) V("int %s written as %s", ref, z);
        /* values of one type given where another is expected */
        volatile int64_t r = 0;
        snprintf(ref, sizeof(ref), "%lu", u);
        ATTEMPT(ok, r = cvtZToUInt(ref));
        if (ok != (u <= UINT_MAX) || (ok && (uint64_t)r != u)) V("'%s' as unsigned int: %s", ref, ok ? "accepted" : "refused");
        ATTEMPT(ok, r = cvtZToInt(ref));
        if (ok != (u <= INT_MAX) || (ok && (uint64_t)r != u)) V("'%s' as int: %s", ref, ok ? "accepted" : "refused");
        ATTEMPT(ok, r = cvtZToInt64(ref));
        if (ok != (u <= INT64_MAX) || (ok && (uint64_t)r != u)) V("'%s' as int64: %s", ref, ok ? "accepted" : "refused");
        snprintf(ref, sizeof(ref), "%ld", (int64_t)u);
        ATTEMPT(ok, r = cvtZToInt(ref));
        if (ok != ((int64_t)u <= INT_MAX && (int64_t)u >= INT_MIN) || (ok && r != (int64_t)u)) V("'%s' as int: %s", ref, ok ? "accepted" : "refused");
        ATTEMPT(ok, r = cvtZToUInt(ref));
        if (ok != ((int64_t)u <= UINT_MAX && (int64_t)u >= 0)) V("'%s' as unsigned int: %s", ref, ok ? "accepted" : "refused");
        ATTEMPT(ok, r = (int64_t)cvtZToUInt64(ref));
        if (ok != ((int64_t)u >= 0)) V("'%s' as uint64: %s", ref, ok ? "accepted" : "refused");
        static const char *junk[] = {"%lux", "x%lu", "%lu.5", "%lu-", "%lu ", "%lu0000000000000000000000", "--%lu"};
        for (unsigned j = 0; j < LENGTH_OF(junk); j++)
        {
            if (u == 0 && j == 5) continue;
            snprintf(ref, sizeof(ref), junk[j], u);
            evals++;
            ATTEMPT(ok, cvtZToUInt64(ref));
            if (ok) V("'%s' accepted as uint64", ref);
            ATTEMPT(ok, cvtZToInt64(ref));
            if (ok) V("'%s' accepted as int64", ref);
            ATTEMPT(ok, cvtZToInt(ref));
            if (ok) V("'%s' accepted as int", ref);
        }
    }
    if (MINE())
    {
        ATTEMPT(ok, cvtZToUInt64(""));
        if (ok) V("empty string accepted as uint64");
        ATTEMPT(ok, cvtZToInt(""));
        if (ok) V("empty string accepted as int");
        for (unsigned m = 0; m <= 07777; m++)
        {
            evals++;
            cvtModeToZ(m, z, sizeof(z));
            if (cvtZToMode(z) != m) V("mode %o written as %s", m, z);
        }
    }
}

static void encode(void)
{
    static const EncodingType types[] = {encodingBase64, encodingBase64Url, encodingHex};
    uint8_t d[80], o[80];
    char z[200];
    bool ok;
    for (unsigned t = 0; t < 3; t++)
    {
        /* lengths x byte patterns */
        for (size_t n = 0; n <= 70; n++)
            for (int pat = 0; pat < 5; pat++)
            {
                if (!MINE()) continue;
                for (size_t i = 0; i < n; i++)
                    d[i] = (uint8_t)(pat == 0 ? 0 : pat == 1 ? 255 : pat == 2 ? i * 37 : pat == 3 ? 251 - i * 5 : i % 2 ? 0xfb : 0xf0);
                evals++;
                memset(z, 'X', sizeof(z));
                encodeToStr(types[t], d, n, z);
                if (strlen(z) != encodeToStrSize(types[t], n)) V("encoding %u of %zu bytes: size %zu announced as %zu", t, n, strlen(z), encodeToStrSize(types[t], n));
                static const char hexd[] = "0123456789abcdef", b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", b64u[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
                char ref[200];
                size_t ro = 0;
                if (t == 2)
                    for (size_t i = 0; i < n; i++) { ref[ro++] = hexd[d[i] >> 4]; ref[ro++] = hexd[d[i] & 15]; }
                else
                {
                    const char *al = t ? b64u : b64;
                    for (size_t i = 0; i < n; i += 3)
                    {
                        unsigned v = (unsigned)d[i] << 16 | (i + 1 < n ? d[i + 1] : 0u) << 8 | (i + 2 < n ? d[i + 2] : 0u);
                        ref[ro++] = al[v >> 18];
                        ref[ro++] = al[v >> 12 & 63];
                        if (i + 1 < n || t == 0) ref[ro++] = i + 1 < n ? al[v >> 6 & 63] : '=';
                        if (i + 2 < n || t == 0) ref[ro++] = i + 2 < n ? al[v & 63] : '=';
                    }
                }
                ref[ro] = 0;
                if (strcmp(ref, z)) V("encoding %u of %zu bytes pattern %d is %s instead of %s", t, n, pat, z, ref);
                if (t == 1) continue;
                memset(o, 0xAA, sizeof(o));
                if (decodeToBinSize(types[t], z) != n) V("decoding %s: size %zu", z, decodeToBinSize(types[t], z));
                else
                {
                    decodeToBin(types[t], z, o);
                    if (memcmp(o, d, n) || o[n] != 0xAA) V("encoding %u of %zu bytes pattern %d does not decode to itself", t, n, pat);
                }
                /* every byte value in every position of the text */
                size_t zn = strlen(z);
                for (size_t i = 0; i < zn && (n < 9 || deep); i++)
                    for (int c = 1; c < 256; c++)
                    {
                        char old = z[i];
                        z[i] = (char)c;
                        bool valid = t == 2 ? isxdigit(c) && c < 128 : (c < 128 && (isalnum(c) || c == '+' || c == '/')) || (c == '=' && i + 1 == zn) || (c == '=' && i + 2 == zn && z[zn - 1] == '=');
                        if (t == 0 && old == '=' && i + 2 == zn) valid = valid && (c == '=' || isalnum(c) || c == '+' || c == '/');
                        if (t == 0 && i + 1 == zn && zn > 1 && z[zn - 2] == '=') valid = c == '=';
                        evals++;
                        ATTEMPT(ok, uint8_t o2[200]; decodeToBinSize(types[t], z); decodeToBin(types[t], z, o2));
                        if (ok && !valid) V("encoding %u: '%s' accepted with byte %02x at %zu", t, z, c, i);
                        if (!ok && valid) V("encoding %u: '%s' refused", t, z);
                        z[i] = old;
                    }
                for (size_t cut = 0; cut < zn; cut++)
                {
                    char old = z[cut];
                    z[cut] = 0;
                    ATTEMPT(ok, uint8_t o2[200]; decodeToBin(types[t], z, o2));
                    if (ok && cut % (t == 2 ? 2 : 4)) V("encoding %u: '%s' cut to %zu accepted", t, z, cut);
                    z[cut] = old;
                }
            }
    }
}

static void stringId(void)
{
    static const char a5[] = "abcdefghijklmnopqrstuvwxyz-256", a6[] = "abcdefghijklmnopqrstuvwxyz-0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    char s[20], o[30];
    for (int kind = 0; kind < 2; kind++)
    {
        const char *al = kind ? a6 : a5;
        size_t n = strlen(al), max = kind ? STRID6_MAX : STRID5_MAX;
        for (size_t len = 1; len <= max; len++)
            for (size_t i = 0; i < n * (len > 1 ? n : 1); i++)
                for (size_t pos = 0; pos < len; pos++)
                {
                    if (!MINE()) continue;
                    /* two positions take all pairs of letters, the others are fixed */
                    for (size_t k = 0; k < len; k++) s[k] = al[k * 7 % 26];
                    s[pos] = al[i % n];
                    s[(pos + 1) % len] = al[(i / n) % n];
                    if (len == 1) s[0] = al[i % n];
                    s[len] = 0;
                    evals++;
                    bool ok;
                    volatile StringId id = 0;
                    ATTEMPT(ok, id = strIdFromZN(s, len, 0));
                    if (!ok) { V("string id '%s' refused", s); continue; }
                    size_t on = strIdToZ(id, o);
                    if (on != len || strcmp(o, s)) V("string id '%s' reads back as '%s'", s, o);
                }
    }
    static const char *bad[] = {"a_b", "abcdefghijklmnopq", "ABCDEFGHIJK", "a b", "a.b", "\xc3\xa9", "ABCDEFGHIJKL", "a/b", NULL};
    if (MINE())
        for (int i = 0; bad[i]; i++)
        {
            bool ok;
            evals++;
            volatile StringId id = 0;
            ATTEMPT(ok, id = strIdFromZN(bad[i], strlen(bad[i]), 0));
            if (ok && id != 0)
            {
                strIdToZ(id, o);
                if (strcmp(o, bad[i])) V("string id '%s' taken for '%s'", bad[i], o);
            }
        }
}

static void json(void)
{
    bool ok;
    for (unsigned len = 0; len <= (deep ? 4u : 3u); len++)
        for (unsigned long c = 0; c < npow(len); c++)
        {
            if (!MINE()) continue;
            const char *s = mkStr(len, c);
            /* a key that would need an escape must be refused, not written so that it cannot be read */
            const bool esc = strpbrk(s, "\"\\\b\f\n\r\t") != NULL;
            if (esc)
            {
                evals++;
                volatile bool readable = false;
                ATTEMPT(ok, JsonWrite *w = jsonWriteNewP(); jsonWriteObjectBegin(w); jsonWriteInt(jsonWriteKey(w, STR(s)), 5); jsonWriteObjectEnd(w);
                        JsonRead *r = jsonReadNew(jsonWriteResult(w)); jsonReadObjectBegin(r); readable = strEqZ(jsonReadKey(r), s) && jsonReadInt(r) == 5);
                if (!(ok && readable))
                {
                    ATTEMPT(ok, JsonWrite *w = jsonWriteNewP(); jsonWriteObjectBegin(w); jsonWriteKey(w, STR(s)));
                    if (ok) V("JSON key '%s' accepted for writing but not readable", show(s));
                }
            }
            MEM_CONTEXT_TEMP_BEGIN()
            {
                evals++;
                /* as a string, in an array and as key and value of an object */
                JsonWrite *w = jsonWriteNewP();
                jsonWriteObjectBegin(w);
                jsonWriteStr(jsonWriteKeyZ(w, "a"), STR(s));
                jsonWriteArrayBegin(jsonWriteKeyZ(w, "b"));
                jsonWriteStr(w, STR(s));
                jsonWriteNull(w);
                jsonWriteBool(w, true);
                jsonWriteStr(w, STR(s));
                jsonWriteArrayEnd(w);
                String *key = strNewFmt("c%s", esc ? "x" : s);
                jsonWriteInt(jsonWriteKey(w, key), -7);
                jsonWriteObjectEnd(w);
                const String *j = jsonWriteResult(w);
                ATTEMPT(ok, jsonValidate(j));
                if (!ok) V("JSON of '%s' not accepted: %s", show(s), show(strZ(j)));
                if (strchr(strZ(j), '\n')) V("JSON of '%s' spans lines", show(s));
                JsonRead *r = jsonReadNew(j);
                volatile bool same = false;
                ATTEMPT(
                    ok, jsonReadObjectBegin(r); same = jsonReadKeyExpectZ(r, "a"); same = same && strEqZ(jsonReadStr(r), s); same = same && strEqZ(jsonReadKey(r), "b");
                    jsonReadArrayBegin(r); same = same && strEqZ(jsonReadStr(r), s); jsonReadNull(r); same = same && jsonReadBool(r); jsonReadSkip(r); jsonReadArrayEnd(r);
                    same = same && strEq(jsonReadKey(r), key); same = same && jsonReadInt(r) == -7; jsonReadObjectEnd(r));
                if (!ok || !same) V("string '%s' not read back from JSON %s", show(s), show(strZ(j)));
                /* skipping */
                r = jsonReadNew(j);
                ATTEMPT(ok, jsonReadObjectBegin(r); same = strEqZ(jsonReadKey(r), "a"); jsonReadSkip(r); same = same && strEqZ(jsonReadKey(r), "b"); jsonReadSkip(r); same = same && strEq(jsonReadKey(r), key); jsonReadSkip(r); jsonReadObjectEnd(r));
                if (!ok || !same) V("skipping over JSON %s goes wrong", show(strZ(j)));
                /* as a variant */
                ATTEMPT(ok, same = strEq(jsonFromVar(jsonToVar(j)), j) || strstr(strZ(j), "\"b\"") > strstr(strZ(j), "\"c"));
                if (!ok || !same) V("JSON %s changes when read and written", show(strZ(j)));
                const Variant *v = jsonToVar(j);
                if (!varEq(kvGet(varKv(v), VARSTRDEF("a")), VARSTR(STR(s))) || varInt64(kvGet(varKv(v), VARSTR(key))) != -7) V("values of JSON %s read wrongly", show(strZ(j)));
                /* cut anywhere */
                if (len < 2 || c % 31 == 0)
                    for (size_t cut = 0; cut < strSize(j); cut++)
                    {
                        evals++;
                        ATTEMPT(ok, jsonValidate(strSubN(j, 0, cut)));
                        if (ok) V("JSON %s cut to %zu accepted", show(strZ(j)), cut);
                        ATTEMPT(ok, jsonToVar(strSubN(j, 0, cut)));
                        if (ok) V("JSON %s cut to %zu read", show(strZ(j)), cut);
                    }
                ATTEMPT(ok, jsonValidate(strNewFmt("%s}", strZ(j))));
                if (ok) V("JSON %s followed by } accepted", show(strZ(j)));
                ATTEMPT(ok, jsonValidate(strNewFmt("%s x", strZ(j))));
                if (ok) V("JSON %s followed by x accepted", show(strZ(j)));
            }
            MEM_CONTEXT_TEMP_END();
        }
    for (unsigned i = 0; i < nbnd; i++)
    {
        if (!MINE()) continue;
        uint64_t u = bnd[i];
        MEM_CONTEXT_TEMP_BEGIN()
        {
            evals++;
            if (jsonReadUInt64(jsonReadNew(jsonWriteResult(jsonWriteUInt64(jsonWriteNewP(), u)))) != u) V("uint64 %lu not read back from JSON", u);
            if (jsonReadInt64(jsonReadNew(jsonWriteResult(jsonWriteInt64(jsonWriteNewP(), (int64_t)u)))) != (int64_t)u) V("int64 %ld not read back from JSON", (int64_t)u);
            if (jsonReadUInt(jsonReadNew(jsonWriteResult(jsonWriteUInt(jsonWriteNewP(), (unsigned)u)))) != (unsigned)u) V("uint %u not read back from JSON", (unsigned)u);
            if (jsonReadInt(jsonReadNew(jsonWriteResult(jsonWriteInt(jsonWriteNewP(), (int)u)))) != (int)u) V("int %d not read back from JSON", (int)u);
            String *z = strNewFmt("%lu", u);
            volatile int64_t r = 0;
            ATTEMPT(ok, r = jsonReadInt(jsonReadNew(z)));
            if (ok != (u <= INT_MAX)) V("JSON %lu as int: %s", u, ok ? "accepted" : "refused");
            ATTEMPT(ok, r = jsonReadUInt(jsonReadNew(z)));
            if (ok != (u <= UINT_MAX)) V("JSON %lu as unsigned int: %s", u, ok ? "accepted" : "refused");
            ATTEMPT(ok, r = jsonReadInt64(jsonReadNew(z)));
            if (ok != (u <= INT64_MAX)) V("JSON %lu as int64: %s", u, ok ? "accepted" : "refused");
            ATTEMPT(ok, r = (int64_t)jsonReadUInt64(jsonReadNew(strNewFmt("%ld", (int64_t)u))));
            if (ok != ((int64_t)u >= 0)) V("JSON %ld as uint64: %s", (int64_t)u, ok ? "accepted" : "refused");
            (void)r;
        }
        MEM_CONTEXT_TEMP_END();
    }
    static const char *bad[] = {"", " ", "{", "}", "[", "]", "\"", "tru", "nul", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{,}", "[1,]", "[,1]", "[1 2]", "{\"a\":1 \"b\":2}", "{a:1}", "\"\\x\"",
                                "\"\\u12\"", "-", "1,", "{\"a\":1}}", "[1]]", "1a", "'a'", "{\"a\":[1}", "[{\"a\":1]", NULL};
    if (MINE())
        for (int i = 0; bad[i]; i++)
        {
            evals++;
            /* the value is always validated when an info file is read; escapes are looked at when the string is used */
            bool ok2;
            ATTEMPT(ok, jsonValidate(STR(bad[i])));
            ATTEMPT(ok2, jsonToVar(STR(bad[i])));
            if (ok && ok2) V("malformed JSON '%s' accepted", bad[i]);
        }
}

static void ini(void)
{
    /* keys and values as in info files and manifests; keys never hold a newline and never start with [ */
    static const size_t bss[] = {4096, 64 };
    for (unsigned len = 0; len <= (deep ? 4u : 3u); len++)
        for (unsigned long c = 0; c < npow(len); c++)
            for (unsigned tail = 0; tail < 3; tail++)
            {
                if (!MINE()) continue;
                const char *s = mkStr(len, c);
                if (strchr(s, '\n')) continue;
                for (unsigned b = 0; b < LENGTH_OF(bss); b++)
                MEM_CONTEXT_TEMP_BEGIN()
                {
                    bool ok;
                    evals++;
                    ioBufferSizeSet(bss[b]);
                    String *key = strNewFmt("pg/%s%s", s, tail == 0 ? "" : tail == 1 ? "=1" : "/x");
                    /* never ambiguous with a value that is an object or a string without quotes in it */
                    String *val = strNewFmt("{\"size\":1}");
                    String *key2 = strNewFmt("k%s", s);
                    JsonWrite *jw = jsonWriteNewP();
                    jsonWriteStr(jw, STR(s));
                    const String *val2 = jsonWriteResult(jw);
                    String *doc = strNewFmt("[one]\n%s=%s\n\n[two]\nplain=%s\n%s=true\n", strZ(key), strZ(val), strZ(val2), strZ(key2));
                    volatile bool same = true;
                    Ini *volatile in = NULL;
                    const IniValue *volatile v = NULL;
                    ATTEMPT(
                        ok, in = iniNewP(ioBufferReadNew(BUFSTR(doc)), .strict = true); v = iniValueNext(in);
                        same = v && strEqZ(v->section, "one") && strEq(v->key, key) && strEq(v->value, val); v = iniValueNext(in);
                        same = same && v && strEqZ(v->section, "two") && strEqZ(v->key, "plain") && strEq(v->value, val2) && strEqZ(jsonReadStr(jsonReadNew(v->value)), s);
                        v = iniValueNext(in); same = same && v && strEq(v->key, key2) && strEqZ(v->value, "true"); same = same && iniValueNext(in) == NULL);
                    if (!ok || !same) V("info text not read back (%s): %s", ok ? "other values" : errorMessage(), show(strZ(doc)));
                }
                MEM_CONTEXT_TEMP_END();
            }
    static const char *bad[] = {"a=1\n", "[]\na=1\n", "[x]\na\n", "[x]\na=x\n", "[x]\n=1\n", "[x]\na=1x\n", "[x]\na=\n", NULL};
    if (MINE())
        for (int i = 0; bad[i]; i++)
        {
            bool ok;
            evals++;
            ioBufferSizeSet(4096);
            ATTEMPT(ok, Ini *in = iniNewP(ioBufferReadNew(BUFSTRZ(bad[i])), .strict = true); while (iniValueNext(in)));
            if (ok) V("malformed info text '%s' accepted", show(bad[i]));
        }
}

/* ---- pack ---- */
#define NK 14
static const char *kname[NK] = {"bin", "bool", "i32", "i64", "mode", "str", "strid", "strlst", "time", "u32", "u64", "obj", "array", "pack"};
#define NVAL 4
static const char *strs[NVAL] = {"", "x", "two\nlines\xff", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"};
static const uint64_t nums[NVAL] = {0, 1, 0x80, 0xffffffffffffffffULL};
typedef struct { int kind, val, gap, defw; } Fld;

static Pack *inner(int v)
{
    PackWrite *w = pckWriteNewP();
    for (int i = 0; i < v; i++)
        pckWriteStrP(w, STR(strs[i % NVAL]), .defaultWrite = true);
    pckWriteEndP(w);
    return pckWriteResult(w);
}
static StringList *lst(int v)
{
    StringList *l = strLstNew();
    for (int i = 0; i < v; i++)
        strLstAddZ(l, strs[(i * 2 + 1) % NVAL]);
    return l;
}

static void pw(PackWrite *w, Fld f, unsigned id)
{
    uint64_t n = nums[f.val];
    switch (f.kind)
    {
        case 0: pckWriteBinP(w, BUFSTRZ(strs[f.val]), .id = id); break;
        case 1: pckWriteBoolP(w, f.val & 1, .id = id, .defaultWrite = f.defw); break;
        case 2: pckWriteI32P(w, (int32_t)(f.val == 3 ? (uint64_t)INT32_MIN : n), .id = id, .defaultWrite = f.defw); break;
        case 3: pckWriteI64P(w, f.val == 3 ? INT64_MIN : (int64_t)n, .id = id, .defaultWrite = f.defw); break;
        case 4: pckWriteModeP(w, (mode_t)(n & 07777), .id = id, .defaultWrite = f.defw); break;
        case 5: pckWriteStrP(w, STR(strs[f.val]), .id = id, .defaultWrite = f.defw, .defaultValue = EMPTY_STR); break;
        case 6: pckWriteStrIdP(w, f.val ? strIdFromZN("abc-z", (size_t)f.val, 0) : 0, .id = id, .defaultWrite = f.defw); break;
        case 7: pckWriteStrLstP(w, lst(f.val), .id = id); break;
        case 8: pckWriteTimeP(w, f.val == 3 ? -1 : (time_t)n, .id = id, .defaultWrite = f.defw); break;
        case 9: pckWriteU32P(w, (uint32_t)n, .id = id, .defaultWrite = f.defw); break;
        case 10: pckWriteU64P(w, n, .id = id, .defaultWrite = f.defw); break;
        case 11:
            pckWriteObjBeginP(w, .id = id);
            for (int i = 0; i < f.val; i++) pckWriteU32P(w, (uint32_t)i);
            pckWriteObjEndP(w);
            break;
        case 12:
            pckWriteArrayBeginP(w, .id = id);
            for (int i = 0; i < f.val; i++) pckWriteStrP(w, STR(strs[i]), .defaultWrite = true);
            pckWriteArrayEndP(w);
            break;
        case 13: pckWritePackP(w, inner(f.val), .id = id); break;
    }
}

/* reads the field; returns whether it is the value written */
static bool pr(PackRead *r, Fld f, unsigned id)
{
    uint64_t n = nums[f.val];
    switch (f.kind)
    {
        case 0: { Buffer *b = pckReadBinP(r, .id = id); if (b == NULL) return false; return bufUsed(b) == strlen(strs[f.val]) && !memcmp(bufPtrConst(b), strs[f.val], bufUsed(b)); }
        case 1: return pckReadBoolP(r, .id = id) == (bool)(f.val & 1);
        case 2: return pckReadI32P(r, .id = id) == (int32_t)(f.val == 3 ? (uint64_t)INT32_MIN : n);
        case 3: return pckReadI64P(r, .id = id) == (f.val == 3 ? INT64_MIN : (int64_t)n);
        case 4: return pckReadModeP(r, .id = id) == (mode_t)(n & 07777);
        case 5: return strEqZ(pckReadStrP(r, .id = id, .defaultValue = EMPTY_STR), strs[f.val]);
        case 6: return pckReadStrIdP(r, .id = id) == (f.val ? strIdFromZN("abc-z", (size_t)f.val, 0) : 0);
        case 7: { StringList *l = pckReadStrLstP(r, .id = id); if (l == NULL) return f.val == 0; return strEq(strLstJoin(l, "|"), strLstJoin(lst(f.val), "|")) && strLstSize(l) == (unsigned)f.val; }
        case 8: return pckReadTimeP(r, .id = id) == (f.val == 3 ? -1 : (time_t)n);
        case 9: return pckReadU32P(r, .id = id) == (uint32_t)n;
        case 10: return pckReadU64P(r, .id = id) == n;
        case 11:
        {
            bool ok = true;
            pckReadObjBeginP(r, .id = id);
            for (int i = 0; i < f.val; i++) ok = pckReadU32P(r) == (uint32_t)i && ok;
            ok = pckReadU32P(r, .defaultValue = 77) == 77 && ok;
            pckReadObjEndP(r);
            return ok;
        }
        case 12:
        {
            int i = 0;
            bool ok = true;
            pckReadArrayBeginP(r, .id = id);
            while (pckReadNext(r)) ok = i < f.val && strEqZ(pckReadStrP(r, .id = pckReadId(r)), strs[i++]) && ok;
            pckReadArrayEndP(r);
            return ok && i == f.val;
        }
        case 13:
        {
            PackRead *p = pckReadPackReadP(r, .id = id);
            bool ok = p != NULL;
            for (int i = 0; i < f.val && ok; i++) ok = strEqZ(pckReadStrP(p), strs[i % NVAL]);
            return ok;
        }
    }
    return false;
}

static void packSeq(const Fld *f, unsigned n, size_t bs, bool cuts)
{
    MEM_CONTEXT_TEMP_BEGIN()
    {
        bool ok;
        char d[300];
        int o = snprintf(d, sizeof(d), "pack (buffer %zu):", bs);
        for (unsigned i = 0; i < n; i++)
            o += snprintf(d + o, sizeof(d) - (size_t)o, " %s/%d gap %d%s", kname[f[i].kind], f[i].val, f[i].gap, f[i].defw ? " default written" : "");
        evals++;
        ioBufferSizeSet(bs);
        Buffer *out = bufNew(0);
        IoWrite *w = ioBufferWriteNewOpen(out);
        PackWrite *p = pckWriteNewIo(w), *m = pckWriteNewP();
        unsigned id = 0, ids[8];
        bool gap = false, dense = true;
        for (unsigned i = 0; i < n; i++) { gap = gap || f[i].gap; dense = dense && !f[i].gap && (f[i].defw || f[i].val % 2); }
        for (unsigned i = 0; i < n; i++)
        {
            id += 1 + (unsigned)f[i].gap;
            ids[i] = id;
            pw(p, f[i], gap ? id : 0);
            pw(m, f[i], gap ? id : 0);
        }
        pckWriteEndP(p);
        pckWriteEndP(m);
        ioWriteStr(w, STRDEF("next"));
        ioWriteClose(w);
        const Buffer *mem = pckToBuf(pckWriteResult(m));
        if (bufUsed(mem) + 4 != bufUsed(out) || memcmp(bufPtrConst(mem), bufPtrConst(out), bufUsed(mem)))
            V("%s: written to memory and to I/O differ", d);
        /* in sequence, through I/O, followed by other data */
        volatile bool same = true;
        IoRead *ir = ioBufferReadNewOpen(out);
        PackRead *r = pckReadNewIo(ir);
        ATTEMPT(ok, for (unsigned i = 0; i < n; i++) same = pr(r, f[i], gap ? ids[i] : 0) && same; pckReadEndP(r); Buffer *b = bufNew(9); ioRead(ir, b); same = same && bufUsed(b) == 4 && !memcmp(bufPtrConst(b), "next", 4));
        if (!ok || !same) V("%s: not read back%s%s", d, ok ? "" : ": ", ok ? "" : errorMessage());
        /* each field alone, skipping the others, from memory */
        /* (lists, arrays and objects are only ever read whole, so fields after them are not reached by skipping) */
        bool skip = true;
        for (unsigned i = 0; i < n && skip; i++)
        {
            evals++;
            skip = f[i].kind != 7 && f[i].kind != 11 && f[i].kind != 12;
            ATTEMPT(ok, PackRead *q = pckReadNew(pckFromBuf(bufDup(mem))); same = pr(q, f[i], ids[i]); pckReadEndP(q));
            if (!ok || !same) V("%s: field %u alone not read back%s%s", d, i, ok ? "" : ": ", ok ? "" : errorMessage());
        }
        /* nothing more is found */
        if (skip)
        {
        ATTEMPT(ok, PackRead *q = pckReadNew(pckFromBuf(bufDup(mem))); same = pckReadNullP(q, .id = id + 1) && pckReadU32P(q, .id = id + 2, .defaultValue = 99) == 99; pckReadEndP(q));
        if (!ok || !same) V("%s: a field after the last is found", d);
        /* ids and types as listed */
        if (dense) ATTEMPT(ok, PackRead *q = pckReadNew(pckFromBuf(bufDup(mem))); unsigned last = 0; while (pckReadNext(q)) { same = same && pckReadId(q) > last && pckReadId(q) <= id; last = pckReadId(q); pckReadConsume(q); });
        if (!ok || !same) V("%s: listing fails", d);
        }
        /* cut anywhere: must be noticed */
        if (cuts)
            for (size_t cut = 0; cut < bufUsed(mem); cut++)
            {
                evals++;
                volatile bool sm = true;
                ATTEMPT(ok, PackRead *q = pckReadNewIo(ioBufferReadNewOpen(BUF(bufPtrConst(mem), cut))); for (unsigned i = 0; i < n; i++) sm = pr(q, f[i], gap ? ids[i] : 0) && sm; pckReadEndP(q));
                if (ok) V("%s: cut to %zu of %zu bytes accepted through I/O%s", d, cut, bufUsed(mem), sm ? "" : " with other values");
                ATTEMPT(ok, PackRead *q = pckReadNewC(bufPtrConst(mem), cut); for (unsigned i = 0; i < n; i++) sm = pr(q, f[i], gap ? ids[i] : 0) && sm; pckReadEndP(q));
                if (ok) V("%s: cut to %zu of %zu bytes accepted%s", d, cut, bufUsed(mem), sm ? "" : " with other values");
            }
    }
    MEM_CONTEXT_TEMP_END();
}

static void pack(void)
{
    static const int gaps[] = {0, 1, 6, 20};
    static const size_t bss[] = {1, 2, 7, 16, 100, 4096};
    Fld f[3];
    unsigned N1 = NK * NVAL * 4 * 2;
    for (unsigned a = 0; a < N1; a++)
        for (unsigned b = 0; b <= N1; b++)
        {
                        if (!MINE()) continue;
            f[0] = (Fld){(int)(a / NVAL % NK), (int)(a % NVAL), gaps[a / NVAL / NK % 4], (int)(a / NVAL / NK / 4)};
            unsigned n = 1;
            if (b)
            {
                unsigned x = b - 1;
                f[1] = (Fld){(int)(x / NVAL % NK), (int)(x % NVAL), gaps[x / NVAL / NK % 4], (int)(x / NVAL / NK / 4)};
                n = 2;
            }
            packSeq(f, n, bss[(a + b) % 6], (a + b) % (deep ? 3 : 7) == 0 || n == 1);
        }
    /* triples of kinds */
    for (int a = 0; a < NK; a++)
        for (int b = 0; b < NK; b++)
            for (int c = 0; c < NK; c++)
                for (int v = 0; v < 8; v++)
                {
                    if (!MINE()) continue;
                    f[0] = (Fld){a, v % NVAL, gaps[v % 3], v & 1};
                    f[1] = (Fld){b, (v + 1) % NVAL, gaps[(v + a) % 4], v >> 1 & 1};
                    f[2] = (Fld){c, (v + 2) % NVAL, gaps[(v + b) % 3], v >> 2 & 1};
                    packSeq(f, 3, bss[(a + b + c + v) % 6], (a + b + c + v) % 29 == 0);
                }
    /* wrong type is refused */
    if (MINE())
        for (int a = 0; a < NK; a++)
            for (int b = 0; b < NK; b++)
            {
                if (a == b || (a == 7 && b == 12) || (a == 12 && b == 7)) continue;
                MEM_CONTEXT_TEMP_BEGIN()
                {
                    bool ok;
                    volatile bool same = false;
                    evals++;
                    PackWrite *m = pckWriteNewP();
                    pw(m, (Fld){a, 2, 0, 1}, 0);
                    pckWriteEndP(m);
                    const Buffer *mem = pckToBuf(pckWriteResult(m));
                    ATTEMPT(ok, PackRead *q = pckReadNew(pckFromBuf(bufDup(mem))); same = pr(q, (Fld){b, 2, 0, 1}, 0); pckReadEndP(q));
                    if (ok) V("pack field written as %s read as %s", kname[a], kname[b]);
                }
                MEM_CONTEXT_TEMP_END();
            }
}

static void p27(void)
{
    bounds();
    varint();
    convert();
    encode();
    stringId();
    json();
    ini();
    pack();
}

int main(int argc, char **argv)
{
    static const Mode m[] = {{"p37", p37}, {"p27", p27}, {NULL, NULL}};
    return explore(argc, argv, m);
}
