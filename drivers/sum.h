// SHA-224 replaced by a function that is injective on the messages seen.
#pragma once
#include "db.h"
#include <crefl/link.h>
static struct Log { const void *ctx; unsigned n, id, cap; uint8_t *b; } *logs; static unsigned maxlogs = 160; static unsigned nlogs, nid;
static Log *live(const void *c) { for (unsigned i = nlogs; i--;) if (logs[i].ctx == c) return &logs[i]; cx_fail("a digest context is used before its initialisation or after its end"); }
static unsigned where; // which octets tell digests apart: those the index is made from, the last ones, or all
static void digest(unsigned id, uint8_t *out) { for (unsigned i = 0; i < 28; i++) out[i] = where == 1 ? (uint8_t)(i == 27 ? id : i == 26 ? id >> 8 : i) : where == 3 ? (uint8_t)(i == 5 ? id : i == 3 ? id >> 8 : i) : where == 2 ? (uint8_t)(id * (2 * i + 1) + (id >> 8) * 77) : (uint8_t)(i == 7 ? id : i == 0 ? id * 37 : i == 2 ? id >> 8 : i == 19 ? id ^ 0x55 : i * 9); }
#define SUM_STUBS(P) \
CX_STUB(P, void, sha224_init)(sha256_ctx *c) { if (!logs) logs = (Log*)cx_object(maxlogs * sizeof(Log), 1, "messages"); cx_assert(nlogs < maxlogs, "few messages"); logs[nlogs].ctx = c; logs[nlogs].cap = 160; logs[nlogs].b = (uint8_t*)cx_object(160, 0, "message"); logs[nlogs].id = 0; logs[nlogs++].n = 0; } \
CX_STUB(P, void, sha256_update)(sha256_ctx *c, const void *p, size_t n) { Log *l = live(c); while (l->n + n > l->cap) { uint8_t *q = (uint8_t*)cx_object(2 * l->cap, 0, "message"); memcpy(q, l->b, l->n); l->b = q; l->cap *= 2; } for (size_t i = 0; i < n; i++) l->b[l->n + i] = ((const uint8_t*)p)[i]; l->n += n; } \
CX_STUB(P, void, sha256_final)(sha256_ctx *c, unsigned char *out) { \
    Log *l = live(c); l->ctx = 0; for (unsigned i = 0; i < nlogs && !l->id; i++) if (logs[i].id && logs[i].n == l->n) { bool same = true; for (unsigned k = l->n; k--;) { uint8_t x = logs[i].b[k] ^ l->b[k]; if (!cx_is_const(x)) same &= x == 0; else if (x) { same = false; break; } } if (same) l->id = logs[i].id; } \
    if (!l->id) l->id = ++nid; digest(l->id, out); }
