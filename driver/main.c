/* Conformance driver: executes a script of public-API calls of TA-Lib RT and writes one trace line
 * (JSON) per call, to be checked against spec/TaLib.tla.  It judges nothing by itself.
 *   driver SCRIPT TRACE      (SCRIPT is run in a child; a crash or hang ends the trace with "Crash")
 * Script language: see the big switch in step(). */
#define _GNU_SOURCE
#include "glue.h"
#include "ta_abstract.h"
#include <unistd.h>
#include <limits.h>
#include <stdint.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <pthread.h>

/* ------------------------------------------------------------------ heap accounting (--wrap) */
static __thread int inlib, live; static __thread long failat = -1; /* fail the failat-th allocation inside the library */
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t); extern void __real_free(void *);
static int failnow(void) { if (!inlib || failat < 0) return 0; return failat-- == 0; }
void *__wrap_malloc(size_t n) { if (failnow()) return NULL; void *p = __real_malloc(n); if (p && inlib) live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (failnow()) return NULL; void *p = __real_calloc(a, b); if (p && inlib) live++; return p; }
void *__wrap_realloc(void *o, size_t n) { if (failnow()) return NULL; void *p = __real_realloc(o, n); if (p && !o && inlib) live++; return p; }
void __wrap_free(void *p) { if (p && inlib) live--; __real_free(p); }
#define LIB(x) ({ inlib = 1; __auto_type lib_r = (x); inlib = 0; lib_r; })

/* ------------------------------------------------------------------ output */
static __thread FILE *T; static __thread long lines;
static void ev(const char *e) { fprintf(T, "{\"e\":\"%s\"", e); }
static void ki(const char *k, long v) { fprintf(T, ",\"%s\":%ld", k, v); }
static void ks(const char *k, const char *v) {
  fprintf(T, ",\"%s\":\"", k);
  for (; *v; v++) { if (*v == '"' || *v == '\\') fputc('\\', T); if ((unsigned char)*v >= 32) fputc(*v, T); }
  fputc('"', T);
}
static void done(void) { fputs("}\n", T); fflush(T); lines++; }
static void hexd(double v) { uint64_t b; memcpy(&b, &v, 8); fprintf(T, "%016llx", (unsigned long long)b); }
static void arr(const void *p, int n, int isint) {
  if (isint) { fputc('[', T); for (int i = 0; i < n; i++) fprintf(T, i ? ",%d" : "%d", ((const int *)p)[i]); fputc(']', T); }
  else { fputc('"', T); for (int i = 0; i < n; i++) hexd(((const double *)p)[i]); fputc('"', T); }
}
static void runs(const char *k, const int *v, int n) {  /* run-length encoded */
  fprintf(T, ",\"%s\":[", k);
  for (int i = 0; i < n;) { int j = i; while (j < n && v[j] == v[i]) j++; fprintf(T, "%s[%d,%d]", i ? "," : "", v[i], j - i); i = j; }
  fputc(']', T);
}
static void opts(const Fn *f, const double *o) {
  fputs(",\"o\":[", T);
  for (int k = 0; k < f->nopt; k++) {
    if (k) fputc(',', T);
    if (f->ok[k] == 'r') { fputc('"', T); hexd(o[k]); fputc('"', T); } else fprintf(T, "%d", (int)o[k]);
  }
  fputc(']', T);
}

/* ------------------------------------------------------------------ data */
#define NCOL 8   /* O H L C V R X P */
typedef struct { int n; double *c[NCOL]; } Ds;
#define NDS 512
static Ds ds[NDS];
static __thread uint64_t rs;
static uint32_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return (uint32_t)((z ^ (z >> 31)) >> 33); }
static int ri(int a, int b) { return a + (int)(rnd() % (unsigned)(b - a + 1)); }
static void dsalloc(Ds *d, int n) { for (int k = 0; k < NCOL; k++) { free(d->c[k]); d->c[k] = malloc(sizeof(double) * (n ? n : 1)); } d->n = n; }
static double fl(double x) { return (double)(float)x; }
static double mx(double a, double b) { return a > b ? a : b; }
static double mn(double a, double b) { return a < b ? a : b; }
/* a cyclic sequence over 0..k-1 in which every window of n elements occurs exactly once */
static void dbr(int *a, int t, int p, int k, int n, int *out, int *len) {
  if (t > n) { if (n % p == 0) for (int i = 1; i <= p; i++) out[(*len)++] = a[i]; return; }
  a[t] = a[t - p]; dbr(a, t + 1, p, k, n, out, len);
  for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; dbr(a, t + 1, t, k, n, out, len); }
}
static int debruijn(int k, int n, int *out) { int a[16] = {0}, len = 0; dbr(a, 1, 1, k, n, out, &len); return len; }
/* All values are exactly representable in single precision. */
static void gen(Ds *d, int n, int kind, uint64_t seed) {
  dsalloc(d, n); rs = seed * 1000003 + kind; double p = 100, q = 0; int trend = 0;
  int w3[256], w6[256], z3 = 0, z6 = 0, k3 = 0, k6 = 0, ord[3] = {0, 1, 2}; double shape[6][5];
  if (kind == 15) {
    z3 = debruijn(3, 5, w3); z6 = debruijn(6, 3, w6); k3 = ri(0, z3 - 1); k6 = ri(0, z6 - 1);
    for (int i = 2; i > 0; i--) { int j = ri(0, i), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
    for (int i = 0; i < 6; i++) { double *b = shape[i]; b[0] = ri(20, 26); b[3] = ri(20, 26); b[1] = mx(b[0], b[3]) + ri(0, 2); b[2] = mn(b[0], b[3]) - ri(0, 2); b[4] = ri(0, 3); }
  }
  for (int i = 0; i < n; i++) {
    double o, h, l, c, v, r, x, per = ri(2, 12);
    if (i % 17 == 0) trend = ri(-2, 2);
    switch (kind) {
    case 0: /* integer walk with ties */
      o = p + ri(-4, 4); c = o + ri(-6, 6); h = mx(o, c) + ri(0, 3); l = mn(o, c) - ri(0, 3); p = c < 30 ? 30 : c;
      v = ri(100, 1100); r = ri(2, 50); x = ri(2, 50); break;
    case 1: /* flat */
      o = h = l = c = 50; v = 100; r = 50; x = 25; break;
    case 2: /* few distinct values */
      o = ri(10, 12); c = ri(10, 12); h = mx(o, c) + ri(0, 1); l = mn(o, c) - ri(0, 1); v = ri(0, 2); r = ri(-1, 1); x = ri(-1, 1); break;
    case 3: /* realistic prices */
      o = fl(p * (1 + ri(-1000, 1000) / 50000.0)); c = fl(o * (1 + ri(-1000, 1000) / 30000.0));
      h = fl(mx(o, c) * (1 + ri(0, 1000) / 100000.0)); l = fl(mn(o, c) * (1 - ri(0, 1000) / 100000.0)); p = c;
      v = ri(1000, 100000); r = c; x = fl(c + ri(-10, 10) * 0.25 + q); q = q * 0.5 + ri(-4, 4) * 0.125; q = fl(q); break;
    case 4: /* steady trends; unit-interval series */
      o = p + trend; c = o + trend * 2; h = mx(o, c) + ri(0, 1); l = mn(o, c) - ri(0, 1); p = c < 20 ? 20 : c;
      v = ri(1, 5) * 100; r = ri(-8, 8) / 8.0; x = ri(1, 16) / 16.0; break;
    case 5: { /* candle-like: structured bodies, shadows and gaps on a half-unit grid */
      int body = (int[]){0, 0, 1, 2, 3, 6, 12, 20}[rnd() % 8], us = (int[]){0, 0, 1, 2, 6, 14}[rnd() % 6], lo = (int[]){0, 0, 1, 2, 6, 14}[rnd() % 6];
      int up = rnd() & 1; int gap = (int[]){0, 0, 0, 1, -1, 3, -3, 8, -8}[rnd() % 9];
      o = p + gap * 0.5; c = up ? o + body * 0.5 : o - body * 0.5; h = mx(o, c) + us * 0.5; l = mn(o, c) - lo * 0.5; p = c < 40 ? 60 : c > 400 ? 300 : c;
      v = ri(1, 9) * 64; r = c - 100; x = h - l + 0.5; break; }
    case 6: /* runs of equal bars between jumps, zero volumes */
      if (i == 0 || ri(0, 6) == 0) p = ri(20, 200);
      o = p; c = p + ri(0, 1) * ri(-1, 1); h = mx(o, c); l = mn(o, c); v = ri(0, 1) * ri(0, 40); r = p; x = ri(0, 1) * 4; break;
    case 7: /* zero and negative values: zero denominators */
      o = ri(-2, 2); c = ri(-2, 2); h = mx(o, c) + ri(0, 1); l = mn(o, c) - ri(0, 1); v = ri(0, 3); r = ri(-3, 3); x = ri(-2, 2); break;
    case 8: /* multiples of three, so that the typical price is exact in single precision */
      o = 3 * ri(20, 40); c = 3 * ri(20, 40); h = mx(o, c) + 3 * ri(0, 5); l = mn(o, c) - 3 * ri(0, 5); v = 1 << ri(0, 6); r = ri(-40, 40) * 0.25; x = 1 << ri(0, 5); break;
    case 9: /* distinct values, no two bars tie */
      o = 100 + ri(-40, 40) * 0.5 + i * 0.03125; c = 100 + ri(-40, 40) * 0.5 + i * 0.015625; h = mx(o, c) + ri(0, 9) * 0.25 + 0.0078125 * (i % 64); l = mn(o, c) - ri(0, 9) * 0.25 - 0.00390625 * (i % 64);
      v = ri(10, 1000) + i * 0.25; r = ri(-400, 400) * 0.25 + 0.0078125 * (i % 128); x = ri(1, 400) * 0.25; break;
    case 10: /* sine-like cycles with noise */
      p = 100 + 20 * sin(i * 0.28) + ri(-8, 8) * 0.25; o = fl(p + ri(-4, 4) * 0.25); c = fl(p + 4 * cos(i * 0.28)); h = mx(o, c) + ri(0, 8) * 0.125; l = mn(o, c) - ri(0, 8) * 0.125;
      v = ri(100, 900); r = c; x = fl(100 + 10 * sin(i * 0.28 + 1)); break;
    case 12: /* unit interval, with bars that leave it */
      o = ri(-64, 64) / 64.0; c = ri(-64, 64) / 64.0; h = mx(o, c) + ri(0, 8) / 64.0; l = mn(o, c) - ri(0, 8) / 64.0; v = ri(0, 64) / 16.0; r = ri(-64, 64) / 64.0; x = ri(-64, 64) / 64.0; break;
    case 13: /* large integers */
      o = 500000 + ri(-40000, 40000); c = o + ri(-3000, 3000); h = mx(o, c) + ri(0, 2000); l = mn(o, c) - ri(0, 2000);
      v = ri(0, 1 << 23); r = c; x = 400000 + ri(-50000, 50000); break;
    case 14: /* very small values */
      o = (p + ri(-4, 4)) / 1048576; c = o + ri(-6, 6) / 1048576.0; h = mx(o, c) + ri(0, 3) / 1048576.0; l = mn(o, c) - ri(0, 3) / 1048576.0; p = mx(c * 1048576, 30);
      v = ri(0, 1100) / 1024.0; r = ri(2, 500) / 1048576.0; x = ri(2, 500) / 1048576.0; break;
    case 15: { /* every window of five out of three values, every window of three out of six bars */
      double *b = shape[w6[(k6 + i) % z6]]; o = b[0]; h = b[1]; l = b[2]; c = b[3]; v = b[4];
      r = ord[w3[(k3 + i) % z3]] - 1; x = 1 + ord[w3[(k3 + i * 2 + 7) % z3]]; break; }
    default: /* staircase: long monotone runs */
      p += (i / 23) % 2 ? -0.5 : 1; o = p; c = p + 0.25 * ri(-1, 3); h = mx(o, c) + 0.25 * ri(0, 2); l = mn(o, c) - 0.25 * ri(0, 2); v = 50 + i % 7; r = p; x = p * 0.5 + ri(-1, 1); break;
    }
    d->c[0][i] = o; d->c[1][i] = h; d->c[2][i] = l; d->c[3][i] = c; d->c[4][i] = v; d->c[5][i] = r; d->c[6][i] = x; d->c[7][i] = per;
  }
}
static void cols(const Fn *f, int *col) {
  int r = 0;
  for (int k = 0; k < f->nin; k++) switch (f->ik[k]) {
    case 'O': col[k] = 0; break; case 'H': col[k] = 1; break; case 'L': col[k] = 2; break; case 'C': col[k] = 3; break;
    case 'V': col[k] = 4; break; case 'P': col[k] = 7; break; default: col[k] = 5 + (r++); }
}
static const Fn *fn(const char *n) { for (int i = 0; i < NFN; i++) if (!strcmp(FN[i].name, n)) return &FN[i]; fprintf(stderr, "no function %s\n", n); exit(3); }

/* ------------------------------------------------------------------ script tokens */
static __thread char *tok; static char *next(void) { char *t = strtok_r(NULL, " \n", &tok); return t ? t : ""; }
static __thread int reg;   /* a lookback: tokens like l, l+3, l-1 are relative to it */
static int nexti(void) { char *t = next(); if (*t == 'l') return reg + (t[1] ? (int)strtol(t + 1, NULL, 10) : 0); return (int)strtol(t, NULL, 10); }
static double nexto(void) { char *t = next(); if (*t == 'x') { uint64_t b = strtoull(t + 1, NULL, 16); double v; memcpy(&v, &b, 8); return v; } return (double)strtol(t, NULL, 10); }
static void nextopts(const Fn *f, double *o) { for (int k = 0; k < f->nopt; k++) o[k] = nexto(); }

/* leaves known values in the memory the next call's variables will lie in, so that one used before it is set shows */
static __attribute__((noinline)) void soil(int k) { volatile int a[6000]; int v = (int[]){7, 0, -1, 1, 64}[k % 5]; for (int i = 0; i < 6000; i++) a[i] = v; (void)a[5]; }

/* ------------------------------------------------------------------ batch calls */
#define G 48                                    /* guard elements on each side of every buffer */
static double pat(int which) { return which ? -7.7777e13 : 3.3333e12; }
static void *outbuf(int n, int isint, int which) {
  size_t w = isint ? 4 : 8; int m = n + 2 * G; char *p = malloc(w * m);
  for (int i = 0; i < m; i++) if (isint) ((int *)p)[i] = which ? -1515870811 : 1010580540; else ((double *)p)[i] = pat(which);
  return p;
}
typedef struct { int rc, b, n; void *out[3]; } Res;
/* B f o.. ds off s e variant(D|S) alias nul
 *   alias "-" or "k:j" list (output k in the memory of input j); nul "-" or list of argument numbers
 *   (inputs from 0, outputs from 100, outBegIdx 200, outNBElement 201) to pass as null. */
static int isnul(const char *nul, int k) { char b[16]; const char *p = nul; if (*p == '-') return 0; snprintf(b, sizeof b, "%d", k); size_t l = strlen(b); while (p) { if (!strncmp(p, b, l) && (p[l] == ',' || !p[l])) return 1; p = strchr(p, ','); if (p) p++; } return 0; }
static int aliasof(const char *al, int k) { const char *p = al; if (*p == '-') return -1; while (p) { int a, b; if (sscanf(p, "%d:%d", &a, &b) == 2 && a == k) return b; p = strchr(p, ','); if (p) p++; } return -1; }
static __thread int inmod;
/* Q k: the next B, SF or SB does not record its first k outputs */
static __thread int skipnext; static int skip(int n) { int k = skipnext; skipnext = 0; if (k > n) k = n; if (k < 0) k = 0; return k; }
static void *after(void *p, int k, int isint) { return (char *)p + (size_t)k * (isint ? 4 : 8); }
static Res batch(const Fn *f, const double *o, Ds *d, int off, int s, int e, int var, const char *al, const char *nul, int which, void **keep) {
  int col[8]; cols(f, col); double *inb[8]; float *fin[8]; const double *in[8]; const float *fi[8]; Res r; int avail = d->n - off; if (avail < 0) avail = 0;
  int len = avail; 
  for (int k = 0; k < f->nin; k++) {
    inb[k] = malloc(sizeof(double) * (len + 2 * G)); fin[k] = malloc(sizeof(float) * (len + 2 * G));
    for (int i = -G; i < len + G; i++) { double v = (i >= 0 && i < len) ? d->c[col[k]][off + i] : pat(which) * (1 + 0.001 * (i & 15)); if (f->ik[k] == 'P' && !(i >= 0 && i < len)) v = which ? 2 : 7; inb[k][i + G] = v; fin[k][i + G] = (float)v; }
    in[k] = isnul(nul, k) ? NULL : inb[k] + G; fi[k] = isnul(nul, k) ? NULL : fin[k] + G;
  }
  int sz = len > 0 ? len : 1;
  for (int k = 0; k < f->nout; k++) {
    int a = aliasof(al, k);
    if (a >= 0) { r.out[k] = inb[a] + G; keep[k] = NULL; }
    else { keep[k] = outbuf(sz, f->ut[k] == 'i', which); r.out[k] = (char *)keep[k] + G * (f->ut[k] == 'i' ? 4 : 8); }
  }
  void *po[3]; for (int k = 0; k < 3; k++) po[k] = k < f->nout && !isnul(nul, 100 + k) ? r.out[k] : NULL;
  r.b = r.n = -77;
  int *pb = isnul(nul, 200) ? NULL : &r.b, *pn = isnul(nul, 201) ? NULL : &r.n;
  if (var == 'S') { r.rc = LIB(f->sbatch(s, e, fi, o, pb, pn, po)); } else { r.rc = LIB(f->batch(s, e, in, o, pb, pn, po)); }
  for (int k = 0; k < f->nin; k++) {
    int aliased = 0; for (int q = 0; q < f->nout; q++) if (aliasof(al, q) == k) aliased = 1;
    for (int i = -G; i < len + G; i++) { if (aliased && i >= 0 && i < len) continue; /* an aliased array may be used as scratch space, but not beyond its ends */
      double v = (i >= 0 && i < len) ? d->c[col[k]][off + i] : pat(which) * (1 + 0.001 * (i & 15)); if (f->ik[k] == 'P' && !(i >= 0 && i < len)) v = which ? 2 : 7;
      if (memcmp(&v, &inb[k][i + G], 8)) inmod = 1; float w = (float)v; if (memcmp(&w, &fin[k][i + G], 4)) inmod = 1; }
  }
  /* copy aliased outputs out before the inputs are released */
  for (int k = 0; k < f->nout; k++) if (!keep[k]) { double *c = malloc(sizeof(double) * (sz + 2 * G)); int a = aliasof(al, k); memcpy(c, inb[a], sizeof(double) * (len + 2 * G)); keep[k] = c; r.out[k] = c + G; }
  for (int k = 0; k < f->nin; k++) { free(inb[k]); free(fin[k]); }
  return r;
}
static void doB(void) {
  const Fn *f = fn(next()); double o[12]; nextopts(f, o); int di = nexti(), off = nexti(), s = nexti(), e = nexti(); int var = next()[0]; char *al = next(), *nul = next(); char *tag = next();
  Ds *d = &ds[di]; void *k1[3] = {0}, *k2[3] = {0}; inmod = 0;
  int lb = LIB(f->lookback(o)), h0 = live;
  Res a = batch(f, o, d, off, s, e, var, al, nul, 0, k1);
  Res b = batch(f, o, d, off, s, e, var, al, nul, 1, k2); int kept = live - h0;
  int sz = d->n - off; if (sz < 1) sz = 1;
  ev("Batch"); ks("f", f->name); opts(f, o); ki("d", di); ki("off", off); ki("s", s); ki("t", e); fprintf(T, ",\"v\":\"%c\"", var); ks("al", al); ks("nul", nul); ks("tag", tag);
  ki("rc", a.rc); ki("b", a.b); ki("n", a.n); ki("lb", lb); ki("im", inmod); ki("kept", kept);
  ki("same", a.rc == b.rc && a.b == b.b && a.n == b.n);
  /* which elements of each output were written, and do both runs agree on them */
  fputs(",\"w\":[", T);
  for (int k = 0; k < f->nout; k++) {
    if (k) fputc(',', T); fputc('[', T); int run = -1, firstr = 1, isint = f->ut[k] == 'i';
    if (aliasof(al, k) < 0) for (int i = -G; i <= sz + G; i++) {
      int st = 0; /* 0 untouched 1 written alike 2 differs */
      if (i < sz + G) {
        if (isint) { int x = ((int *)k1[k])[i + G], y = ((int *)k2[k])[i + G]; st = x == y ? 1 : (x == 1010580540 && y == -1515870811) ? 0 : 2; }
        else { double x = ((double *)k1[k])[i + G], y = ((double *)k2[k])[i + G]; double p0 = pat(0), p1 = pat(1); st = (!memcmp(&x, &y, 8) || (x != x && y != y)) ? 1 : (!memcmp(&x, &p0, 8) && !memcmp(&y, &p1, 8)) ? 0 : 2; }
      }
      if (st == 2) { fprintf(T, "%s[%d,-9999]", firstr ? "" : ",", i); firstr = 0; break; }
      if (st == 1 && run == -1) run = i + G;
      if (st == 0 && run >= 0) { fprintf(T, "%s[%d,%d]", firstr ? "" : ",", run - G, i - 1); firstr = 0; run = -1; }
    }
    fputc(']', T);
  }
  fputs("],\"out\":[", T);
  int n = a.rc == 0 ? a.n : 0; if (n < 0 || n > sz) n = 0;
  int sk = skip(n);
  for (int k = 0; k < f->nout; k++) { if (k) fputc(',', T); arr(after(a.out[k], sk, f->ut[k] == 'i'), n - sk, f->ut[k] == 'i'); }
  fputs("]", T); ki("skip", sk); done();
  for (int k = 0; k < f->nout; k++) { free(k1[k]); free(k2[k]); }
}

/* ------------------------------------------------------------------ memory files */
typedef struct { unsigned char *b; long len, pos, cap, limit; FILE *f; } Mf;
#define NF 24
static Mf mf[NF];
static ssize_t mrd(void *c, char *b, size_t n) { Mf *m = c; long a = m->len - m->pos; if (a < 0) a = 0; if ((long)n > a) n = a; memcpy(b, m->b + m->pos, n); m->pos += n; return n; }
static ssize_t mwr(void *c, const char *b, size_t n) { Mf *m = c; size_t w = n; if (m->limit >= 0 && m->pos + (long)n > m->limit) { w = m->limit - m->pos; if ((long)w <= 0) { w = 0; } } if (w) { if (m->pos + (long)w > m->cap) { m->cap = 2 * (m->pos + w); m->b = __real_realloc(m->b, m->cap); } memcpy(m->b + m->pos, b, w); m->pos += w; if (m->pos > m->len) m->len = m->pos; } return w; }
static void mopen(Mf *m, const char *mode) { if (m->f) fclose(m->f); cookie_io_functions_t io = {mrd, mwr, NULL, NULL}; m->f = fopencookie(m, mode, io); setvbuf(m->f, NULL, _IONBF, 0); }
static Mf *file(int k) { Mf *m = &mf[k]; if (!m->f) { m->limit = -1; mopen(m, "w+"); } return m; }

/* ------------------------------------------------------------------ streams */
typedef struct { void *st; const Fn *f; } Str;
#define NH 64
static Str H[NH];
static void strOut(const char *key, int nout, const char *ut, void *const *buf, int n) {
  fprintf(T, ",\"%s\":[", key);
  for (int k = 0; k < nout; k++) { if (k) fputc(',', T); arr(buf[k], n, ut[k] == 'i'); }
  fputc(']', T);
}

/* ------------------------------------------------------------------ abstract interface */
typedef struct { TA_ParamHolder *p; const Fn *f; double *inb[8]; void *out[3]; int cap, ds, off; int isset; int outn[3]; } Ho;
#define NA 16
static Ho A[NA];

#include "abstract.inc"

/* ------------------------------------------------------------------ threads
 * Tk line: line is for thread k (1..NTH).  TJ: all threads run their lines at the same time; their calls appear
 * in the trace one thread after the other.  The lines of different threads use different handles, files, holders
 * and may read the same series. */
#define NTH 8
static void step(char *line);
typedef struct { char *txt; size_t len; char *trace; size_t tlen; } Th;
static Th th[NTH + 1]; static pthread_barrier_t gate;
static void *threadmain(void *v) {
  Th *t = v; char *save = NULL; T = open_memstream(&t->trace, &t->tlen); pthread_barrier_wait(&gate);
  for (char *l = strtok_r(t->txt, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) step(l);
  fclose(T); return NULL;
}
static void threads(void) {
  pthread_t id[NTH + 1]; int n = 0; for (int k = 1; k <= NTH; k++) n += th[k].txt != NULL;
  if (!n) return; pthread_barrier_init(&gate, NULL, n);
  for (int k = 1; k <= NTH; k++) if (th[k].txt) pthread_create(&id[k], NULL, threadmain, &th[k]);
  for (int k = 1; k <= NTH; k++) if (th[k].txt) { pthread_join(id[k], NULL); ev("Thread"); ki("k", k); done(); fwrite(th[k].trace, 1, th[k].tlen, T); fflush(T); free(th[k].txt); free(th[k].trace); th[k].txt = NULL; th[k].trace = NULL; th[k].len = 0; }
  pthread_barrier_destroy(&gate);
}
static void threadline(int k, const char *l) { Th *t = &th[k]; size_t n = strlen(l); t->txt = realloc(t->txt, t->len + n + 2); memcpy(t->txt + t->len, l, n); t->txt[t->len + n] = '\n'; t->txt[t->len + n + 1] = 0; t->len += n + 1; }

static void step(char *line) {
  if (line[0] == 'T' && line[1] >= '1' && line[1] <= '0' + NTH && line[2] == ' ') { line[strcspn(line, "\n")] = 0; threadline(line[1] - '0', line + 3); return; }
  char *c = strtok_r(line, " \n", &tok); if (!c || *c == '#') return;
  int rc;
  /* ---- data */
  if (!strcmp(c, "D")) { int i = nexti(), n = nexti(), kind = nexti(); uint64_t seed = strtoull(next(), NULL, 10); gen(&ds[i], n, kind, seed); if (nexti()) { ev("Series"); ki("d", i); ki("n", n); fputs(",\"c\":[", T); for (int k = 0; k < NCOL; k++) { if (k) fputc(',', T); arr(ds[i].c[k], n, 0); } fputs("]", T); done(); } }
  else if (!strcmp(c, "E")) { /* explicit bars: E id n scale/1024 (o h l c v r x p)*; "=" repeats nothing */
    int i = nexti(), n = nexti(), emit = nexti(); double sc = nexti() / 1024.0; dsalloc(&ds[i], n); for (int b = 0; b < n; b++) { for (int k = 0; k < 4; k++) ds[i].c[k][b] = nexti() * sc; ds[i].c[4][b] = 100; ds[i].c[5][b] = ds[i].c[3][b]; ds[i].c[6][b] = ds[i].c[0][b]; ds[i].c[7][b] = 3; }
    if (emit) { ev("Series"); ki("d", i); ki("n", n); fputs(",\"c\":[", T); for (int k = 0; k < NCOL; k++) { if (k) fputc(',', T); arr(ds[i].c[k], n, 0); } fputs("]", T); done(); } }
  else if (!strcmp(c, "M")) { /* M id src from to seed: copy with the bars outside from..to replaced */
    int i = nexti(), src = nexti(), a = nexti(), b = nexti(); rs = strtoull(next(), NULL, 10); Ds *s = &ds[src]; dsalloc(&ds[i], s->n); int e = ri(0, 2) ? 0 : ri(0, 1) ? 70 : -70;
    for (int t = 0; t < s->n; t++) for (int k = 0; k < NCOL; k++) { double v = s->c[k][t]; if (t < a || t > b) v = k == 7 ? ri(2, 9) : ldexp(k == 4 ? ri(0, 999) : ri(-2000, 4000) * 0.5, e); ds[i].c[k][t] = v; }
    ev("Derived"); ki("d", i); ki("src", src); ki("from", a); ki("to", b); done(); }
  else if (!strcmp(c, "Y")) { int i = nexti(), n = ds[i].n; ev("Series"); ki("d", i); ki("n", n); fputs(",\"c\":[", T); for (int k = 0; k < NCOL; k++) { if (k) fputc(',', T); arr(ds[i].c[k], n, 0); } fputs("]", T); done(); }
  else if (!strcmp(c, "R")) { const Fn *f = fn(next()); double o[12]; nextopts(f, o); reg = LIB(f->lookback(o)); if (reg < 0) reg = 0; }
  else if (!strcmp(c, "Q")) skipnext = nexti();
  else if (!strcmp(c, "TJ")) threads();
  else if (!strcmp(c, "G")) { ev("Forget"); done(); }
  else if (!strcmp(c, "P")) { /* P id lo hi seed: new periods column */ int i = nexti(), lo = nexti(), hi = nexti(); rs = strtoull(next(), NULL, 10); for (int t = 0; t < ds[i].n; t++) ds[i].c[7][t] = ri(lo, hi); }
  /* ---- library settings */
  else if (!strcmp(c, "I")) { rc = LIB(TA_Initialize()); ev("Initialize"); ki("rc", rc); done(); }
  else if (!strcmp(c, "Z")) { rc = LIB(TA_Shutdown()); ev("Shutdown"); ki("rc", rc); done(); }
  else if (!strcmp(c, "U")) { int id = nexti(); unsigned k = nexti(); rc = LIB(TA_SetUnstablePeriod((TA_FuncUnstId)id, k)); ev("SetUnstable"); ki("id", id); ki("k", k); ki("rc", rc); done(); }
  else if (!strcmp(c, "u")) { int id = nexti(); unsigned v = LIB(TA_GetUnstablePeriod((TA_FuncUnstId)id)); ev("GetUnstable"); ki("id", id); ki("k", v); done(); }
  else if (!strcmp(c, "C")) { int v = nexti(); rc = LIB(TA_SetCompatibility((TA_Compatibility)v)); ev("SetCompat"); ki("v", v); ki("rc", rc); done(); }
  else if (!strcmp(c, "c")) { rc = LIB(TA_GetCompatibility()); ev("GetCompat"); ki("v", rc); done(); }
  else if (!strcmp(c, "K")) { int id = nexti(), rt = nexti(), ap = nexti(); double fac = nexto(); rc = LIB(TA_SetCandleSettings((TA_CandleSettingType)id, (TA_RangeType)rt, ap, fac)); ev("SetCandle"); ki("id", id); ki("rt", rt); ki("ap", ap); fputs(",\"fac\":\"", T); hexd(fac); fputc('"', T); ki("rc", rc); done(); }
  else if (!strcmp(c, "k")) { int id = nexti(); rc = LIB(TA_RestoreCandleDefaultSettings((TA_CandleSettingType)id)); ev("RestoreCandle"); ki("id", id); ki("rc", rc); done(); }
  else if (!strcmp(c, "L")) { const Fn *f = fn(next()); double o[12]; nextopts(f, o); int lb = LIB(f->lookback(o)); ev("Lookback"); ks("f", f->name); opts(f, o); ki("lb", lb); done(); }
  else if (!strcmp(c, "LA")) { /* the lookback of every function at its default parameters */
    static int lbs[400]; for (int i = 0; i < NFN; i++) { double o[12]; for (int k = 0; k < FN[i].nopt; k++) o[k] = FN[i].ok[k] == 'r' ? TA_REAL_DEFAULT : TA_INTEGER_DEFAULT; lbs[i] = LIB(FN[i].lookback(o)); } ev("Lookbacks"); fputs(",\"lbs\":[", T); for (int i = 0; i < NFN; i++) fprintf(T, "%s[\"%s\",%d]", i ? "," : "", FN[i].name, lbs[i]); fputs("]", T); done(); }
  else if (!strcmp(c, "B")) doB();
  else if (!strcmp(c, "V")) { /* validation: V f o.. : every entry point with these parameters on a small series */
    const Fn *f = fn(next()); double o[12]; nextopts(f, o); Ds *d = &ds[nexti()]; int e = d->n - 1; void *kk[3] = {0}; inmod = 0;
    int lb = LIB(f->lookback(o)); Res a = batch(f, o, d, 0, 0, e, 'D', "-", "-", 0, kk); int touched = 0;
    for (int k = 0; k < f->nout; k++) { for (int i = 0; i < d->n + 2 * G; i++) if (f->ut[k] == 'i' ? ((int *)kk[k])[i] != 1010580540 : ((double *)kk[k])[i] != pat(0)) touched = 1; free(kk[k]); }
    Res b = batch(f, o, d, 0, 0, e, 'S', "-", "-", 0, kk); for (int k = 0; k < f->nout; k++) { for (int i = 0; i < d->n + 2 * G; i++) if (f->ut[k] == 'i' ? ((int *)kk[k])[i] != 1010580540 : ((double *)kk[k])[i] != pat(0)) touched |= 2; free(kk[k]); }
    void *st = NULL; int h0 = live; int ri_ = LIB(f->init(&st, o)); int nonnull = st != NULL; int rf = LIB(f->free_(&st));
    ev("Validate"); ks("f", f->name); opts(f, o); ki("lb", lb); ki("brc", a.rc); ki("bb", a.b); ki("bn", a.n); ki("src", b.rc); ki("sb", b.b); ki("sn", b.n); ki("irc", ri_); ki("st", nonnull); ki("frc", rf); ki("touched", touched); ki("leak", live - h0); ki("im", inmod); done(); }
  /* ---- streams */
  else if (!strcmp(c, "SI")) { int h = nexti(); const Fn *f = fn(next()); double o[12]; nextopts(f, o); if (*next() == 'n') { rc = LIB(f->init(NULL, o)); ev("OpenNowhere"); ks("f", f->name); ki("rc", rc); ki("heap", live); done(); return; } void *was = H[h].st; rc = LIB(f->init(&H[h].st, o)); if (rc == 0 || !was) H[h].f = f; ev("Open"); ki("h", h); ks("f", f->name); opts(f, o); ki("rc", rc); ki("nn", H[h].st != NULL); ki("heap", live); done(); }
  else if (!strcmp(c, "SF")) { /* SF h ds i n [nulout] : n single-bar feeds */
    int h = nexti(), di = nexti(), i0 = nexti(), n = nexti(); char *nul = next(); if (!*nul) nul = "-"; const Fn *f = H[h].f; Ds *d = &ds[di]; int col[8]; cols(f, col);
    int *rcs = malloc(sizeof(int) * (n + 1)); void *buf[3]; for (int k = 0; k < f->nout; k++) buf[k] = calloc(n + 1, 8);
    for (int j = 0; j < n; j++) { double v[8]; for (int k = 0; k < f->nin; k++) v[k] = d->c[col[k]][i0 + j]; union { double r; int i; } u[3]; void *po[3]; for (int k = 0; k < 3; k++) { u[k].r = pat(0); po[k] = isnul(nul, 100 + k) ? NULL : &u[k]; }
      rcs[j] = LIB(f->feed(H[h].st, v, po));
      for (int k = 0; k < f->nout; k++) { if (f->ut[k] == 'i') ((int *)buf[k])[j] = rcs[j] ? 0 : u[k].i; else ((double *)buf[k])[j] = rcs[j] ? 0 : u[k].r; } }
    ev("Feed"); ki("h", h); ks("f", f->name); ki("d", di); ki("i", i0); ki("n", n); ks("nul", nul); runs("rcs", rcs, n); int sk = skip(n); void *sb[3]; for (int k = 0; k < f->nout; k++) sb[k] = after(buf[k], sk, f->ut[k] == 'i'); strOut("out", f->nout, f->ut, sb, n - sk); ki("skip", sk); ki("heap", live); done();
    for (int k = 0; k < f->nout; k++) free(buf[k]); free(rcs); }
  else if (!strcmp(c, "SB")) { /* SB h ds off s e alias nul */
    int h = nexti(), di = nexti(), off = nexti(), s = nexti(), e = nexti(); char *al = next(), *nul = next(); const Fn *f = H[h].f; Ds *d = &ds[di]; int col[8]; cols(f, col); int len = d->n - off, sz = len > 0 ? len : 1;
    double *inb[8]; const double *in[8]; for (int k = 0; k < f->nin; k++) { inb[k] = malloc(sizeof(double) * (sz + 2 * G)); for (int i = -G; i < sz + G; i++) inb[k][i + G] = (i >= 0 && i < len) ? d->c[col[k]][off + i] : 12345.5; in[k] = isnul(nul, k) ? NULL : inb[k] + G; }
    void *keep[3] = {0}, *out[3] = {0}, *po[3] = {0}; for (int k = 0; k < f->nout; k++) { int a = aliasof(al, k); if (a >= 0) out[k] = inb[a] + G; else { keep[k] = outbuf(sz, f->ut[k] == 'i', 0); out[k] = (char *)keep[k] + G * (f->ut[k] == 'i' ? 4 : 8); } po[k] = isnul(nul, 100 + k) ? NULL : out[k]; }
    int b = -77, n = -77; rc = LIB(f->bfeed(H[h].st, s, e, in, isnul(nul, 200) ? NULL : &b, isnul(nul, 201) ? NULL : &n, po));
    int spill = 0; for (int k = 0; k < f->nout; k++) if (keep[k]) for (int i = -G; i < sz + G; i++) if ((i < 0 || i >= n) && (f->ut[k] == 'i' ? ((int *)keep[k])[i + G] != 1010580540 : ((double *)keep[k])[i + G] != pat(0))) spill = 1;
    int im = 0; for (int k = 0; k < f->nin; k++) { int ali = 0; for (int q = 0; q < f->nout; q++) if (aliasof(al, q) == k) ali = 1; if (!ali) for (int i = 0; i < len; i++) if (memcmp(&inb[k][i + G], &d->c[col[k]][off + i], 8)) im = 1; }
    ev("FeedChunk"); ki("h", h); ks("f", f->name); ki("d", di); ki("off", off); ki("s", s); ki("t", e); ks("al", al); ks("nul", nul); ki("rc", rc); ki("b", b); ki("n", n); ki("spill", spill); ki("im", im); int m = n < 0 || n > sz || rc == 2 ? 0 : n; int sk = skip(m); for (int k = 0; k < f->nout; k++) out[k] = after(out[k], sk, f->ut[k] == 'i'); strOut("out", f->nout, f->ut, out, m - sk); ki("skip", sk); ki("heap", live); done();
    for (int k = 0; k < f->nin; k++) free(inb[k]); for (int k = 0; k < f->nout; k++) free(keep[k]); }
  else if (!strcmp(c, "SX")) { int h = nexti(); char *nul = next(); rc = LIB(H[h].f->free_(*nul == 'n' ? NULL : &H[h].st)); ev("Free"); ki("h", h); ki("rc", rc); ks("nul", *nul == 'n' ? "p" : "-"); ki("nn", H[h].st != NULL); ki("heap", live); done(); }
  else if (!strcmp(c, "SY")) { /* set the function of a null handle (so that it can be loaded, freed, saved) */ int h = nexti(); H[h].f = fn(next()); ev("Handle"); ki("h", h); ks("f", H[h].f->name); done(); }
  else if (!strcmp(c, "SV")) { int h = nexti(), k = nexti(); Mf *m = file(k); long p0 = m->pos; rc = LIB(H[h].f->save(H[h].st, m->f)); ev("Save"); ki("h", h); ki("k", k); ki("rc", rc); ki("from", p0); ki("pos", m->pos); ki("heap", live); done(); }
  else if (!strcmp(c, "SL")) { int h = nexti(), k = nexti(); const char *fnm = next(); Mf *m = file(k); long p0 = m->pos; const Fn *f = fn(fnm); if (!H[h].st) H[h].f = f; soil((int)p0); rc = LIB(f->load(&H[h].st, m->f)); ev("Load"); ki("h", h); ki("k", k); ks("f", f->name); ki("rc", rc); ki("from", p0); ki("pos", m->pos); ki("nn", H[h].st != NULL); ki("heap", live); done(); }
  else if (!strcmp(c, "FN")) { int k = nexti(); Mf *m = file(k); m->len = m->pos = 0; m->limit = -1; mopen(m, "w+"); ev("FileNew"); ki("k", k); done(); }
  else if (!strcmp(c, "FR")) { int k = nexti(); Mf *m = file(k); m->pos = 0; mopen(m, "r+"); ev("FileRewind"); ki("k", k); done(); }
  else if (!strcmp(c, "TR")) { /* TR h slot h2: save h, then load every truncation of it into handle h2 */
    int h = nexti(), k = nexti(), stepv = nexti(); const Fn *f = H[h].f; Mf *m = file(k); m->len = m->pos = 0; m->limit = -1; mopen(m, "w+"); int rs_ = LIB(f->save(H[h].st, m->f)); long len = m->len; if (stepv < 1) stepv = 1;
    int cnt = (len + stepv - 1) / stepv; int *rcs = malloc(sizeof(int) * (cnt + 1)), *fr = malloc(sizeof(int) * (cnt + 1)), *lk = malloc(sizeof(int) * (cnt + 1)), *nn = malloc(sizeof(int) * (cnt + 1)); int q = 0;
    for (long t = 0; t < len; t += stepv) { m->len = t; m->pos = 0; mopen(m, "r"); void *st = NULL; int h0 = live; soil((int)(t + q / 7)); rcs[q] = LIB(f->load(&st, m->f)); fr[q] = LIB(f->free_(&st)); nn[q] = st != NULL; lk[q] = live - h0; q++; }
    m->len = len; m->pos = 0; mopen(m, "r+"); ev("Truncate"); ki("h", h); ki("k", k); ki("src", rs_); ki("len", len); ki("cnt", q); runs("rcs", rcs, q); runs("frc", fr, q); runs("nn", nn, q); runs("leak", lk, q); ki("heap", live); done(); free(rcs); free(fr); free(lk); free(nn); }
  else if (!strcmp(c, "WR")) { /* WR h slot: save into a medium that accepts only k bytes, for every k */
    int h = nexti(), k = nexti(), stepv = nexti(); const Fn *f = H[h].f; Mf *m = file(k); m->len = m->pos = 0; m->limit = -1; mopen(m, "w+"); int rs_ = LIB(f->save(H[h].st, m->f)); long len = m->len; if (stepv < 1) stepv = 1;
    int cnt = (len + stepv - 1) / stepv; int *rcs = malloc(sizeof(int) * (cnt + 1)); int q = 0;
    for (long t = 0; t < len; t += stepv) { m->len = m->pos = 0; m->limit = t; mopen(m, "w"); rcs[q++] = LIB(f->save(H[h].st, m->f)); }
    m->len = m->pos = 0; m->limit = -1; mopen(m, "w+"); ev("WriteFail"); ki("h", h); ki("k", k); ki("src", rs_); ki("len", len); ki("cnt", q); runs("rcs", rcs, q); ki("heap", live); done(); free(rcs); }
  else if (!abstract_step(c)) { fprintf(stderr, "bad command %s\n", c); exit(3); }
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
#ifdef __SANITIZE_ADDRESS__
  if (!getenv("ASAN_DRIVER")) { setenv("ASAN_DRIVER", "1", 1); setenv("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=16:max_malloc_fill_size=1048576:malloc_fill_byte=202:exitcode=67", 1); execv("/proc/self/exe", argv); }
#endif
#ifdef __SANITIZE_THREAD__
  if (!getenv("TSAN_DRIVER")) { setenv("TSAN_DRIVER", "1", 1); setenv("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 report_signal_unsafe=0", 1); personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
#endif
  T = fopen(argv[2], "w"); if (!T) return 3; setvbuf(T, NULL, _IOFBF, 1 << 16);
  int sec = argc > 3 ? atoi(argv[3]) : 300;
  fflush(T); pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); alarm(sec);
    FILE *s = fopen(argv[1], "r"); if (!s) _exit(3); char *line = NULL; size_t cap = 0; int nline = 0;
    inlib = 1; TA_Initialize(); inlib = 0; live = 0;
    while (getline(&line, &cap, s) > 0) { nline++; char keep[256]; snprintf(keep, sizeof keep, "%s", line); step(line); }
    fflush(T); _exit(0);
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) { ev(WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "Race" : WIFEXITED(st) && WEXITSTATUS(st) == 67 ? "BadAccess" : "Crash"); ki("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); done(); fclose(T); return 0; }
  fclose(T);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 3;
}
