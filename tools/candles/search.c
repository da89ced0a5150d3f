/* Looks for short series on which the candlestick functions report something, and for the one-tick
 * changes of them on which they stop doing so.  The result (lib/candles.txt) is test input only: what
 * the functions have to report is decided by spec/Candles.tla.
 *   search PROFILE TRIES > file      (one line per window)
 * line: function profile output penetration*4 width  o h l c ...  | bar field delta ...
 * (field 4: the whole bar, 5: open and close)            */
#include "glue.h"
#include <stdint.h>
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int ri(int a, int b) { return a + (int)(rnd() % (uint64_t)(b - a + 1)); }
#define W 24
typedef struct { int v[W][4]; } Win;
static const Fn *f; static int w; static double pen;
static int eval(const Win *x) {
  static double c[8][W]; const double *in[8]; int ob, on, out[W]; void *op[3] = {out, 0, 0}; double o[4] = {pen};
  for (int i = 0; i < w; i++) for (int k = 0; k < 4; k++) c[k][i] = x->v[i][k] / 4.0;
  for (int k = 0; k < f->nin; k++) in[k] = c[k];
  if (f->batch(w - 1, w - 1, in, o, &ob, &on, op) != 0 || on != 1) return 0;
  return out[0];
}
static void rndwin(Win *x) {
  int p = ri(60, 90), span = ri(1, 14), drift = ri(-6, 6), sh = ri(0, 4), big = ri(4, 30);
  for (int i = 0; i < w; i++) {
    int recent = i >= w - 6;
    int body = ri(0, 2) == 0 ? ri(0, big) : ri(0, 3) ? ri(0, span) : 0; if (ri(0, 1)) body = -body;
    int o = p + ri(-span, span), c = o + body, s = ri(0, sh), t = ri(0, sh);
    if (ri(0, 3) == 0) s = 0;
    if (ri(0, 3) == 0) t = 0;
    if (ri(0, 5) == 0) s += ri(0, big);
    if (ri(0, 5) == 0) t += ri(0, big);
    if (!recent && ri(0, 1)) { s = t = 0; c = o + (body > 0) - (body < 0); }
    x->v[i][0] = o; x->v[i][3] = c; x->v[i][1] = (o > c ? o : c) + s; x->v[i][2] = (o < c ? o : c) - t;
    p = (ri(0, 1) ? c : p) + drift + ri(-1, 1);
  }
}
/* 1: changed and still a bar */
static int nudge(Win *x, int b, int k, int d) {
  int *v = x->v[b];
  if (k == 4) { for (int j = 0; j < 4; j++) v[j] += d; return 1; }   /* the whole bar */
  if (k == 5) { v[0] += d; v[3] += d; } else v[k] += d;              /* the body */
  int mx = v[0] > v[3] ? v[0] : v[3], mn = v[0] < v[3] ? v[0] : v[3];
  if (k == 1 || k == 2) return v[1] >= mx && v[2] <= mn;
  if (v[1] < mx) v[1] = mx;
  if (v[2] > mn) v[2] = mn;
  return 1;
}
#define MULT 4
int main(int ac, char **av) {
  int prof = atoi(av[1]); long tries = atol(av[2]); int only = ac > 3;
  TA_Initialize();
  static const int P1[11][3] = {{0,2,4},{0,2,8},{0,1,6},{1,2,1},{0,0,4},{0,0,8},{2,2,4},{1,2,1},{1,1,1},{1,2,2},{1,2,1}};   /* range type, period, factor*4 */
  static const int P2[11][3] = {{0,1,5},{0,1,9},{0,2,4},{1,1,2},{2,1,5},{2,2,6},{0,1,3},{2,1,1},{0,2,2},{0,1,3},{2,4,1}};
  static const int P3[11][3] = {{1,0,2},{1,0,3},{1,0,2},{1,0,1},{0,0,4},{0,0,8},{2,0,4},{1,0,1},{1,0,1},{1,0,2},{1,0,1}};   /* every bar is its own measure */
  if (prof) for (int i = 0; i < 11; i++) { const int *s = prof == 1 ? P1[i] : prof == 2 ? P2[i] : P3[i]; if (TA_SetCandleSettings(i, s[0], s[1], s[2] / 4.0)) return 1; }
  for (int n = 0; n < NFN; n++) {
    f = &FN[n]; if (strncmp(f->name, "CDL", 3) || (only && strcmp(av[3], f->name))) continue;
    double o[4] = {0.5}; int hik = !strncmp(f->name, "CDLHIKKAKE", 10);
    w = f->lookback(o) + 1; if (w > W) continue;
    (void)hik;
    static const int outs[] = {100, -100, 80, -80, 200, -200};
    int got[6] = {0};
    for (int v = 0; v < 6; v++) {
      static int cnt[W][6][4]; memset(cnt, 0, sizeof cnt); int hits = 0, lines = 0;
      for (long t = 0; t < tries && hits < 60; t++) {
        Win x; rndwin(&x); pen = f->nopt ? ri(0, 4) / 4.0 : 0;
        if (eval(&x) != outs[v]) { if (!hits && t > tries / 4 && 0) break; continue; }
        hits++;
        for (int st = 0; st < 300; st++) {
          /* flips of this window that are still wanted */
          int fl[W * 24][3], nf = 0, nw = 0;
          for (int b = 0; b < w; b++) for (int k = 0; k < 6; k++) for (int s = 0; s < 4; s++) {
            static const int D[] = {-1, 1, -2, 2}; if (s > 1 && b < w - 6) continue; Win y = x; if (!nudge(&y, b, k, D[s])) continue;
            if (eval(&y) != outs[v]) { fl[nf][0] = b; fl[nf][1] = k; fl[nf][2] = D[s]; nf++; if (cnt[b][k][s] < MULT) nw++; }
          }
          if (nw >= (st < 100 ? 3 : 1) || (st == 0 && hits == 1)) {
            printf("%s %d %d %d %d", f->name, prof, outs[v], (int)(pen * 4), w); lines++;
            for (int b = 0; b < w; b++) for (int k = 0; k < 4; k++) printf(" %d", x.v[b][k]);
            printf(" |");
            for (int q = 0; q < nf; q++) { int dd = fl[q][2], *c = &cnt[fl[q][0]][fl[q][1]][dd == -1 ? 0 : dd == 1 ? 1 : dd == -2 ? 2 : 3]; if (*c < MULT) { (*c)++; printf(" %d %d %d", fl[q][0], fl[q][1], fl[q][2]); } }
            printf("\n");
          }
          for (int m = 0; m < 20; m++) { Win y = x; int b = ri(0, 2) ? w - 1 - ri(0, w > 5 ? 5 : w - 1) : ri(0, w - 1); if (nudge(&y, b, ri(0, 3), ri(-3, 3)) && eval(&y) == outs[v]) { x = y; if (m > 3) break; } }
        }
      }
      got[v] = hits; if (lines) fprintf(stderr, "%s/%d %d: %d hits %d windows\n", f->name, prof, outs[v], hits, lines);
    }
    int any = 0; for (int v = 0; v < 6; v++) any += got[v];
    if (!any) fprintf(stderr, "%s/%d NOTHING\n", f->name, prof);
  }
  return 0;
}
