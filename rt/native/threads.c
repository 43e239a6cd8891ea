/* The native routines called from several threads, every thread with its own buffers; built with -fsanitize=thread. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "csphi.h"

#define NT 4

typedef struct { int id, nmax, mmax, rows, cols; unsigned seed; SCOMPLEX *f, *sc, *out; double *y; int q, l, calls;
                 SCOMPLEX *s; double yn; } job;

static pthread_barrier_t gate;

static double rnd(unsigned *s)
{
    *s = *s * 1664525u + 1013904223u;
    return (double)(*s >> 8) / (1u << 24) - 0.5;
}

static int count(int nmax, int mmax)
{
    int n = nmax + 1, m;
    for (m = 1; m <= mmax; m++) n += 2 * (nmax - m + 1);
    return n;
}

static void work(job *j)
{
    int k, n = j->rows * j->cols, l = count(j->nmax, j->mmax), order = j->id % 2;
    for (k = 0; k < 2; k++) {
        if (k == order) {
            sc_to_fc(j->f, j->rows, j->cols, j->sc, l, j->nmax, j->mmax);
            fc_to_sc(j->f, j->rows, j->cols, j->out, l, j->nmax, j->mmax);
            j->calls += 2;
        } else {
            ynunm(j->nmax, j->mmax, j->y, j->nmax + 1);
            j->yn = ynnm(j->nmax, j->mmax);
            j->q = FindQ(j->rows + j->nmax);
            SData(j->s, j->q, j->rows, j->nmax);
            j->calls += 4;
        }
    }
    (void)n;
    j->l = l;
}

static void *body(void *p)
{
    pthread_barrier_wait(&gate);
    work(p);
    return 0;
}

static void prepare(job *j, int id, unsigned seed, int nmax, int mmax, int rows, int cols)
{
    int k, l = count(nmax, mmax);
    unsigned s = seed + 77u * (unsigned)id;
    memset(j, 0, sizeof *j);
    j->id = id; j->nmax = nmax; j->mmax = mmax; j->rows = rows; j->cols = cols; j->seed = seed;
    j->f = calloc((size_t)rows * cols, sizeof(SCOMPLEX));
    j->sc = calloc(l, sizeof(SCOMPLEX));
    j->out = calloc(l, sizeof(SCOMPLEX));
    j->y = calloc(nmax + 2, sizeof(double));
    j->s = calloc(8 * (rows + nmax) + 64, sizeof(SCOMPLEX));
    for (k = 0; k < l; k++) { j->sc[k].r = rnd(&s); j->sc[k].i = rnd(&s); }
}

static int differs(job *a, job *b)
{
    return memcmp(a->f, b->f, sizeof(SCOMPLEX) * a->rows * a->cols) || memcmp(a->out, b->out, sizeof(SCOMPLEX) * a->l)
        || memcmp(a->y, b->y, sizeof(double) * (a->nmax + 1)) || a->q != b->q || a->yn != b->yn
        || memcmp(a->s, b->s, sizeof(SCOMPLEX) * a->q);
}

static void drop(job *j)
{
    free(j->f); free(j->sc); free(j->out); free(j->y); free(j->s);
}

int main(int argc, char **argv)
{
    unsigned seed = argc > 1 ? (unsigned)atoi(argv[1]) : 1u;
    int rounds = argc > 2 ? atoi(argv[2]) : 3, r, i, total = 0, used = 0;
    for (r = 0; r < rounds * 12; r++) {
        pthread_t t[NT];
        job a[NT], b[NT];
        pthread_barrier_init(&gate, 0, NT);
        for (i = 0; i < NT; i++) {
            unsigned s = seed * 7919u + 31u * (unsigned)r + (r % 2 ? 1000003u * (unsigned)i : 0u);
            int nmax = (int)((rnd(&s) + 0.5) * 14), mmax = (int)((rnd(&s) + 0.5) * (nmax + 1));
            int rows = 2 * (nmax + 2 + (int)((rnd(&s) + 0.5) * 5)) - 2, cols = 2 * mmax + 2 + 2 * (int)((rnd(&s) + 0.5) * 4);
            if (mmax > nmax) mmax = nmax;
            prepare(&a[i], i, s, nmax, mmax, rows, cols);
            prepare(&b[i], i, s, nmax, mmax, rows, cols);
        }
        for (i = 0; i < NT; i++) pthread_create(&t[i], 0, body, &a[i]);
        for (i = 0; i < NT; i++) pthread_join(t[i], 0);
        for (i = 0; i < NT; i++) {
            work(&b[i]);
            if (differs(&a[i], &b[i])) {
                printf("DIFFERS: nmax %d, mmax %d, %d x %d in thread %d\n", a[i].nmax, a[i].mmax, a[i].rows, a[i].cols, i);
                return 1;
            }
            total += a[i].calls;
            used++;
            drop(&a[i]); drop(&b[i]);
        }
        pthread_barrier_destroy(&gate);
    }
    printf("DONE threads=%d calls=%d\n", used, total);
    return 0;
}
