/* Infeasibility of a conjunction of linear constraints by elimination, on integers. Anything that does not fit is dropped, which only loses precision. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef int64_t i64;
typedef __int128 i128;
#define MAXR 900
typedef struct { i64 *c; uint8_t strict, isint, eq; } row;

static i128 gcd_(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }

static i128 floordiv(i128 a, i128 b) { i128 q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) q--; return q; }

/* w: wide row of nv+1 numbers -> r. 1 kept, 0 trivially true or too wide, -1 contradiction */
static int put(row *r, const i128 *w, int nv, int strict, int isint, int eq) {
    i128 g = 0;
    for (int i = 0; i < nv; i++) g = gcd_(g, w[i]);
    i128 k = w[nv];
    if (g == 0) {
        if (eq) return k != 0 ? -1 : 0;
        return (k < 0 || (strict && k == 0)) ? -1 : 0;
    }
    if (eq) {
        if (k % g != 0) { if (isint) return -1; g = gcd_(g, k); }
        k = k / g;
    } else if (isint) {
        if (strict) { k -= 1; strict = 0; }
        k = floordiv(k, g);
    } else { g = gcd_(g, k); k = k / g; }
    for (int i = 0; i < nv; i++) { i128 x = w[i] / g; if (x > INT64_MAX / 4 || x < INT64_MIN / 4) return 0; r->c[i] = (i64)x; }
    if (k > INT64_MAX / 4 || k < INT64_MIN / 4) return 0;
    r->c[nv] = (i64)k; r->strict = strict; r->isint = isint; r->eq = eq;
    return 1;
}

int lin_infeasible(int nv, int nr, const i64 *rows, const uint8_t *fl, int limit) {
    int res = 0, n = 0;
    if (nr > MAXR) return 0;
    i64 *mem = malloc(sizeof(i64) * (size_t)(nv + 1) * 2 * MAXR);
    i128 *w = malloc(sizeof(i128) * (nv + 1));
    row *a = malloc(sizeof(row) * MAXR), *b = malloc(sizeof(row) * MAXR);
    for (int i = 0; i < MAXR; i++) { a[i].c = mem + (size_t)i * (nv + 1); b[i].c = mem + (size_t)(MAXR + i) * (nv + 1); }
    for (int i = 0; i < nr; i++) {
        for (int j = 0; j <= nv; j++) w[j] = rows[(size_t)i * (nv + 1) + j];
        int k = put(&a[n], w, nv, fl[i] & 1, (fl[i] >> 1) & 1, (fl[i] >> 2) & 1);
        if (k < 0) { res = 1; goto end; }
        if (k) n++;
    }
    /* equalities */
    for (;;) {
        int e = -1, v = -1; i64 bestk = 0;
        for (int i = 0; i < n; i++) if (a[i].eq) for (int j = 0; j < nv; j++) if (a[i].c[j]) {
            i64 k = a[i].c[j] < 0 ? -a[i].c[j] : a[i].c[j];
            if (e < 0 || k < bestk) { e = i; v = j; bestk = k; }
        }
        if (e < 0) break;
        i64 *t = b[0].c; memcpy(t, a[e].c, sizeof(i64) * (nv + 1));
        int ei = a[e].isint;
        i64 k = t[v], ak = k < 0 ? -k : k, sg = k < 0 ? -1 : 1;
        a[e].eq = 0;
        int m = 0;
        for (int i = 0; i < n; i++) {
            if (i == e) continue;
            i64 c = a[i].c[v];
            if (m != i) { i64 *p = a[m].c; a[m].c = a[i].c; a[i].c = p; a[m].strict = a[i].strict; a[m].isint = a[i].isint; a[m].eq = a[i].eq; }
            if (c) {
                for (int j = 0; j <= nv; j++) w[j] = (i128)ak * a[m].c[j] - (i128)sg * c * t[j];
                int r = put(&a[m], w, nv, a[m].strict, a[m].isint && ei, a[m].eq);
                if (r < 0) { res = 1; goto end; }
                if (!r) continue;
            }
            m++;
        }
        n = m;
    }
    /* inequalities */
    for (;;) {
        /* one constraint per direction */
        int m = 0;
        for (int i = 0; i < n; i++) {
            int d = 0;
            for (int j = 0; j < m; j++) if (!memcmp(a[j].c, a[i].c, sizeof(i64) * nv)) {
                d = 1;
                if (a[i].c[nv] < a[j].c[nv] || (a[i].c[nv] == a[j].c[nv] && a[i].strict && !a[j].strict)) {
                    a[j].c[nv] = a[i].c[nv]; a[j].strict = a[i].strict; a[j].isint = a[i].isint;
                }
                break;
            }
            if (d) continue;
            if (m != i) { i64 *p = a[m].c; a[m].c = a[i].c; a[i].c = p; a[m].strict = a[i].strict; a[m].isint = a[i].isint; a[m].eq = 0; }
            m++;
        }
        n = m;
        if (!n) break;
        int v = -1; long best = 0;
        for (int j = 0; j < nv; j++) {
            long p = 0, q = 0;
            for (int i = 0; i < n; i++) { if (a[i].c[j] > 0) p++; else if (a[i].c[j] < 0) q++; }
            if (!p && !q) continue;
            long s = p * q - p - q;
            if (v < 0 || s < best) { v = j; best = s; }
        }
        if (v < 0) break;
        long p = 0, q = 0;
        for (int i = 0; i < n; i++) { if (a[i].c[v] > 0) p++; else if (a[i].c[v] < 0) q++; }
        if (p * q + (n - p - q) > limit) break;
        m = 0;
        for (int i = 0; i < n; i++) if (!a[i].c[v]) { memcpy(b[m].c, a[i].c, sizeof(i64) * (nv + 1)); b[m].strict = a[i].strict; b[m].isint = a[i].isint; b[m].eq = 0; m++; }
        for (int i = 0; i < n; i++) if (a[i].c[v] > 0) for (int k = 0; k < n; k++) if (a[k].c[v] < 0) {
            i128 x = -(i128)a[k].c[v], y = a[i].c[v];
            for (int j = 0; j <= nv; j++) w[j] = x * a[i].c[j] + y * a[k].c[j];
            int r = put(&b[m], w, nv, a[i].strict || a[k].strict, a[i].isint && a[k].isint, 0);
            if (r < 0) { res = 1; goto end; }
            if (r) m++;
        }
        row *t = a; a = b; b = t; n = m;
    }
end:
    free(mem); free(w); free(a < b ? a : b); free(a < b ? b : a);
    return res;
}

/* the constraints known so far, by number; a variable of -1 is the constant */
typedef struct { int n, fl; int *v; i64 *c; } con;
static con *cons;
static int ncons;

int lin_add(int id, int fl, int n, const int *v, const i64 *c) {
    if (id >= ncons) {
        int m = ncons ? ncons * 2 : 1024;
        while (m <= id) m *= 2;
        con *p = realloc(cons, sizeof(con) * m);
        if (!p) return 0;
        cons = p; ncons = m;
    }
    con *q = &cons[id];
    q->n = n; q->fl = fl;
    q->v = malloc(sizeof(int) * n); q->c = malloc(sizeof(i64) * n);
    if (!q->v || !q->c) return 0;
    memcpy(q->v, v, sizeof(int) * n); memcpy(q->c, c, sizeof(i64) * n);
    return 1;
}

static int cmp_(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return (x > y) - (x < y); }

int lin_solve(int nr, const int *ids, int limit) {
    int t = 0;
    if (nr > MAXR) return 0;
    for (int i = 0; i < nr; i++) t += cons[ids[i]].n;
    int *vs = malloc(sizeof(int) * (t + 1)), nv = 0;
    for (int i = 0; i < nr; i++) { con *q = &cons[ids[i]]; for (int j = 0; j < q->n; j++) if (q->v[j] >= 0) vs[nv++] = q->v[j]; }
    qsort(vs, nv, sizeof(int), cmp_);
    int m = 0;
    for (int i = 0; i < nv; i++) if (!m || vs[m - 1] != vs[i]) vs[m++] = vs[i];
    nv = m;
    i64 *rows = calloc((size_t)nr * (size_t)(nv + 1), sizeof(i64));
    uint8_t *fl = malloc(nr + 1);
    for (int i = 0; i < nr; i++) {
        con *q = &cons[ids[i]];
        fl[i] = q->fl;
        for (int j = 0; j < q->n; j++) {
            int k = nv;
            if (q->v[j] >= 0) k = (int *)bsearch(&q->v[j], vs, nv, sizeof(int), cmp_) - vs;
            rows[(size_t)i * (nv + 1) + k] = q->c[j];
        }
    }
    int r = lin_infeasible(nv, nr, rows, fl, limit);
    free(vs); free(rows); free(fl);
    return r;
}
