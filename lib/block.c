/* P26: every sequence of file versions through the real block incremental filter, map and delta code, rebuilt from stored bytes only */
#include "expl.h"
#include "command/backup/blockIncr.h"
#include "command/backup/blockMap.h"
#include "command/restore/blockChecksum.h"
#include "command/restore/blockDelta.h"
#include "common/compress/helper.h"
#include "common/crypto/cipherBlock.h"
#include "common/io/filter/size.h"
#include "common/io/limitRead.h"
#include "common/type/pack.h"

typedef struct { size_t n; unsigned char b[64]; } Ver;
typedef struct { size_t block, super, chk; CompressType comp; bool enc; uint64_t bundle, offset; size_t buf; } Conf;
typedef struct { Buffer *file; uint64_t begin, size, map; unsigned ref; uint64_t bundle; } Stored;

static void show(char *out, const Ver *v)
{
    size_t i;
    for (i = 0; i < v->n; i++)
        out[i] = (char)v->b[i];
    out[i] = 0;
}

/* store version v as backup number ref with the given prior */
static Stored store(const Conf *c, const CipherSpec *spec, const Ver *v, unsigned ref, const Stored *prior)
{
    Stored r = {.ref = ref, .bundle = c->bundle ? c->bundle + ref : 0, .begin = c->offset * (ref + 1)};
    /* bytes of other files before this one in the bundle */
    r.file = bufNew(0);
    bufResize(r.file, r.begin + 16);
    memset(bufPtr(r.file), 0xEE, r.begin);
    bufUsedSet(r.file, r.begin);
    Buffer *map = NULL;
    if (prior != NULL)
    {
        map = bufNew(0);
        IoWrite *w = ioBufferWriteNew(map);
        if (c->enc)
            ioFilterGroupAdd(ioWriteFilterGroup(w), cipherBlockNewP(cipherModeDecrypt, spec, .raw = true));
        ioWriteOpen(w);
        ioWrite(w, BUF(bufPtrConst(prior->file) + prior->begin + prior->size - prior->map, prior->map));
        ioWriteClose(w);
    }
    IoFilter *comp = c->comp != compressTypeNone ? compressFilterP(c->comp, 1, .raw = true) : NULL;
    IoFilter *enc = c->enc ? cipherBlockNewP(cipherModeEncrypt, spec, .raw = true) : NULL;
    Buffer *out = bufNew(0);
    IoRead *rd = ioBufferReadNew(BUF(v->b, v->n));
    IoWrite *w = ioBufferWriteNew(out);
    ioFilterGroupAdd(ioWriteFilterGroup(w), blockIncrNew(c->super, c->block, c->chk, ref, r.bundle, r.begin, map, comp, enc));
    ioFilterGroupAdd(ioWriteFilterGroup(w), ioSizeNew());
    ioReadOpen(rd);
    ioWriteOpen(w);
    ioCopyP(rd, w);
    ioReadClose(rd);
    ioWriteClose(w);
    r.map = pckReadU64P(ioFilterGroupResultP(ioWriteFilterGroup(w), BLOCK_INCR_FILTER_TYPE));
    r.size = pckReadU64P(ioFilterGroupResultP(ioWriteFilterGroup(w), SIZE_FILTER_TYPE));
    if (r.size != bufUsed(out))
        V("stored size %lu but %zu bytes", r.size, bufUsed(out));
    bufCat(r.file, out);
    return r;
}

static BlockMap *readMap(const Conf *c, const CipherSpec *spec, const Stored *s)
{
    IoRead *rd = ioBufferReadNew(BUF(bufPtrConst(s->file) + s->begin + s->size - s->map, s->map));
    if (c->enc)
        ioFilterGroupAdd(ioReadFilterGroup(rd), cipherBlockNewP(cipherModeDecrypt, spec, .raw = true));
    ioReadOpen(rd);
    return blockMapNewRead(rd, c->block, c->chk);
}

/* rebuild from the map of s over existing content (NULL = no file) */
static void rebuild(const Conf *c, const CipherSpec *spec, const Stored *all, const Stored *s, const Ver *want, const Ver *have, const char *what)
{
    unsigned char dst[256] = {0};
    size_t len = 0;
    Buffer *chk = NULL;
    evals++;
    if (have != NULL)
    {
        len = have->n > want->n ? want->n : have->n;
        memcpy(dst, have->b, len);
        IoRead *rd = ioBufferReadNew(BUF(dst, len));
        ioFilterGroupAdd(ioReadFilterGroup(rd), blockChecksumNew(c->block, c->chk));
        ioReadOpen(rd);
        ioReadDrain(rd);
        chk = pckReadBinP(ioFilterGroupResultP(ioReadFilterGroup(rd), BLOCK_CHECKSUM_FILTER_TYPE));
    }
    BlockMap *map = readMap(c, spec, s);
    BlockDelta *d = blockDeltaNew(map, c->block, c->chk, chk, spec, c->comp);
    size_t written = 0;
    for (unsigned i = 0; i < blockDeltaReadSize(d); i++)
    {
        const BlockDeltaRead *r = blockDeltaReadGet(d, i);
        const Stored *src = &all[r->reference];
        if (r->bundleId != src->bundle || r->offset < src->begin || r->offset + r->size > src->begin + src->size - src->map)
        {
            V("%s: delta reads outside the stored blocks (reference %u bundle %lu offset %lu size %lu)", what, r->reference, r->bundleId, r->offset, r->size);
            return;
        }
        IoRead *rd = ioBufferReadNewOpen(BUF(bufPtrConst(src->file) + r->offset, r->size));
        for (const BlockDeltaWrite *w = blockDeltaNext(d, r, rd); w != NULL; w = blockDeltaNext(d, r, rd))
        {
            if (w->offset + bufUsed(w->block) > sizeof(dst))
            {
                V("%s: write beyond the file", what);
                return;
            }
            memcpy(dst + w->offset, bufPtrConst(w->block), bufUsed(w->block));
            if (w->offset + bufUsed(w->block) > len)
                len = w->offset + bufUsed(w->block);
            written += bufUsed(w->block);
            /* a block already right must not be fetched again */
            if (have != NULL && w->offset + bufUsed(w->block) <= have->n && have->n <= want->n && have->n % c->block == 0 &&
                memcmp(have->b + w->offset, bufPtrConst(w->block), bufUsed(w->block)) == 0)
                V("%s: a block that is already right is restored again", what);
        }
    }
    if (len != want->n || memcmp(dst, want->b, len) != 0)
        V("%s: rebuilt %zu bytes instead of %zu (or other content)", what, len, want->n);
}

static void sequence(const Conf *c, const Ver *const *vs, unsigned n)
{
    MEM_CONTEXT_TEMP_BEGIN()
    {
        const CipherSpec *spec = c->enc ? cipherSpecNew(cipherTypeAes256Cbc, BUFSTRDEF("pass")) : cipherSpecNewNone();
        Stored st[4], *cur[4];
        char what[400], a[80], b[80], d[80], h[80];
        ioBufferSizeSet(c->buf);
        show(a, vs[0]);
        show(b, n > 1 ? vs[1] : vs[0]);
        show(d, n > 2 ? vs[2] : vs[0]);
        for (unsigned i = 0; i < n; i++)
        {
            evals++;
            st[i] = store(c, spec, vs[i], i, i ? cur[i - 1] : NULL);
            cur[i] = &st[i];
            bool same = i && vs[i]->n == vs[i - 1]->n && memcmp(vs[i]->b, vs[i - 1]->b, vs[i]->n) == 0;
            if (st[i].map == 0)
            {
                if (!same)
                    V("version %u of %s,%s,%s: no map although the file changed", i, a, b, d);
                if (i == 0)
                    break;
                cur[i] = cur[i - 1];
            }
            else
            {
                if (same)
                    V("version %u of %s,%s,%s is unchanged but is stored again", i, a, b, d);
                /* exactly the changed blocks are stored */
                BlockMap *m = readMap(c, spec, cur[i]);
                size_t nb = (vs[i]->n + c->block - 1) / c->block;
                if (blockMapSize(m) != nb)
                    V("map of version %u of %s,%s,%s has %u blocks", i, a, b, d, blockMapSize(m));
                for (unsigned k = 0; k < blockMapSize(m) && k < nb; k++)
                {
                    size_t o = k * c->block, l = vs[i]->n - o < c->block ? vs[i]->n - o : c->block;
                    bool changed = i == 0 || vs[i - 1]->n < o + l || (vs[i - 1]->n - o < c->block ? vs[i - 1]->n - o : c->block) != l ||
                        memcmp(vs[i]->b + o, vs[i - 1]->b + o, l) != 0;
                    if (changed != (blockMapGet(m, k)->reference == i))
                        V("block %u of version %u of %s,%s,%s: changed %d but map refers to %u", k, i, a, b, d, changed, blockMapGet(m, k)->reference);
                }
            }
        }
        static const Ver other = {.n = 17, .b = "0123456789ABCDEFG"}, tiny = {.n = 1, .b = "x"};
        for (unsigned i = 0; i < n; i++)
        {
            for (unsigned k = 0; k <= n + 2; k++)
            {
                const Ver *have = k < n ? vs[k] : k == n ? NULL : k == n + 1 ? &other : &tiny;
                if (have) show(h, have);
                snprintf(what, sizeof(what), "versions %s,%s,%s (n=%u) block %zu super %zu chk %zu comp %u enc %d buf %zu: version %u over %s", a, b, d, n,
                    c->block, c->super, c->chk, (unsigned)c->comp, c->enc, c->buf, i, have ? h : "(none)");
                TRY_BEGIN()
                {
                    rebuild(c, spec, st, cur[i], vs[i], have, what);
                }
                CATCH_FATAL()
                {
                    V("%s: error %s", what, errorMessage());
                }
                TRY_END();
            }
        }
    }
    MEM_CONTEXT_TEMP_END();
}

static void p26(void)
{
    static Ver v[4096];
    unsigned nv = 0;
    const size_t B = 3;
    /* all files of up to maxb blocks over two block contents with a tail of 0, 1 or 2 bytes */
    for (unsigned maxb = deep ? 4 : 3, k = 0; k <= maxb; k++)
        for (unsigned w = 0; w < (1u << k); w++)
            for (unsigned t = 0; t < (deep && k < 4 ? 3 : 2); t++)
            {
                if (k == 0 && t == 0) continue;
                Ver *x = &v[nv++];
                x->n = k * B + t;
                for (unsigned i = 0; i < k; i++)
                    memcpy(x->b + i * B, w >> i & 1 ? "abc" : "xyz", B);
                memcpy(x->b + k * B, "ab", t);
            }
    static const Conf conf[] = {
        {3, 3, 6, compressTypeNone, false, 0, 0, 64},
        {3, 6, 6, compressTypeNone, false, 1, 5, 2},
        {3, 9, 7, compressTypeNone, false, 1, 3, 3},
        {3, 7, 16, compressTypeNone, false, 1, 0, 1},
        {3, 6, 6, compressTypeGz, false, 1, 7, 64},
        {3, 6, 6, compressTypeLz4, false, 0, 0, 5},
        {3, 9, 8, compressTypeZst, true, 1, 5, 16},
        {3, 6, 6, compressTypeNone, true, 1, 5, 64},
        {3, 3, 6, compressTypeBz2, true, 0, 0, 32},
    };
    for (unsigned c = 0; c < LENGTH_OF(conf); c++)
        for (unsigned a = 0; a < nv; a++)
            for (unsigned b = 0; b < nv; b++)
            {
                if (!MINE()) continue;
                const Ver *s2[] = {&v[a], &v[b]};
                if (conf[c].comp || conf[c].enc)
                {
                    /* slow filters: all pairs */
                    sequence(&conf[c], s2, 2);
                    if (!deep && (a * 7 + b) % 9) continue;
                }
                for (unsigned d = 0; d < nv; d++)
                {
                    if ((conf[c].comp || conf[c].enc) && (deep ? (a + b + d) % 16 : (a + b + d) % 8)) continue;
                    const Ver *s3[] = {&v[a], &v[b], &v[d]};
                    sequence(&conf[c], s3, 3);
                }
            }
    /* sizes and numbers of the map encoding: maps with arbitrary items written and read back */
    static const uint64_t num[] = {0, 1, 2, 127, 128, 129, 16383, 16384, 0xffffffff, 0x100000000ULL, 0x7fffffffffULL};
    for (unsigned r1 = 0; r1 < 3; r1++)
        for (unsigned r2 = 0; r2 < 3; r2++)
            for (unsigned r3 = 0; r3 < 3; r3++)
            {
                if (!MINE()) continue;
                for (unsigned k = 0; k < LENGTH_OF(num) * LENGTH_OF(num) * 8; k++)
                {
                    /* three super blocks of up to two blocks, of possibly different references, in a valid order */
                    MEM_CONTEXT_TEMP_BEGIN()
                    {
                        BlockMap *m = blockMapNew();
                        unsigned refs[] = {r1, r2, r3};
                        uint64_t off[3] = {0, 0, 0};
                        uint64_t gap = num[k % LENGTH_OF(num)], size = num[k / LENGTH_OF(num) % LENGTH_OF(num)] + 1;
                        unsigned two = k / LENGTH_OF(num) / LENGTH_OF(num);
                        for (unsigned i = 0; i < 3; i++)
                        {
                            /* neighbours from one backup are stored one after the other */
                            if (i == 0 || refs[i] != refs[i - 1])
                                off[refs[i]] += gap;
                            BlockMapItem it = {.reference = refs[i], .bundleId = refs[i] * 3, .offset = off[refs[i]], .size = size + i,
                                .superBlockSize = (two >> i & 1) ? 6 : 3, .block = 0};
                            memset(it.checksum, (int)(k + i), sizeof(it.checksum));
                            blockMapAdd(m, &it);
                            if (two >> i & 1)
                            {
                                it.block = 1;
                                memset(it.checksum, (int)(k + i + 1), sizeof(it.checksum));
                                blockMapAdd(m, &it);
                            }
                            off[refs[i]] += size + i;
                        }
                        Buffer *o = bufNew(0);
                        IoWrite *w = ioBufferWriteNewOpen(o);
                        blockMapWrite(m, w, 3, 6);
                        ioWriteClose(w);
                        bool ok;
                        BlockMap *volatile g = NULL;
                        ioBufferSizeSet(1 + k % 5);
                        ATTEMPT(ok, g = blockMapNewRead(ioBufferReadNewOpen(o), 3, 6));
                        evals++;
                        if (!ok || blockMapSize(g) != blockMapSize(m))
                            V("map %u,%u,%u gap %lu size %lu blocks %u cannot be read back: %s", r1, r2, r3, gap, size, two, ok ? "size" : errorMessage());
                        else
                            for (unsigned i = 0; i < blockMapSize(m); i++)
                            {
                                const BlockMapItem *x = blockMapGet(m, i), *y = blockMapGet(g, i);
                                if (x->reference != y->reference || x->bundleId != y->bundleId || x->offset != y->offset || x->size != y->size || x->block != y->block ||
                                    x->superBlockSize != y->superBlockSize || memcmp(x->checksum, y->checksum, 6) != 0)
                                    V("map %u,%u,%u gap %lu size %lu blocks %u: item %u read back as reference %u offset %lu size %lu block %lu", r1, r2, r3, gap, size, two,
                                        i, y->reference, y->offset, y->size, y->block);
                            }
                    }
                    MEM_CONTEXT_TEMP_END();
                }
            }
}

int main(int argc, char **argv)
{
    static const Mode m[] = {{"p26", p26}, {NULL, NULL}};
    return explore(argc, argv, m);
}
