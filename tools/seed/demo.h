/* helpers of the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <limits.h>
#include "ta_libc.h"
static unsigned long long rs_ = 12345;
static int rnd_(int a, int b) { rs_ = rs_ * 6364136223846793005ull + 1442695040888963407ull; return a + (int)((rs_ >> 33) % (unsigned)(b - a + 1)); }
#define N 300
static double O[N], H[N], L[N], C[N], V[N];
static void walk(unsigned seed) { rs_ = seed; double p = 100; for (int i = 0; i < N; i++) { O[i] = p + rnd_(-8, 8) * 0.25; C[i] = O[i] + rnd_(-16, 16) * 0.25; if (C[i] < 20) C[i] = 20; H[i] = (O[i] > C[i] ? O[i] : C[i]) + rnd_(0, 8) * 0.25; L[i] = (O[i] < C[i] ? O[i] : C[i]) - rnd_(0, 8) * 0.25; V[i] = rnd_(100, 900); p = C[i]; } }
static int near_(double a, double b) { if (a != a || b != b) return a != a && b != b; return fabs(a - b) <= 1e-7 * (1 + fabs(a) + fabs(b)); }
static int bad_;
#define CHECK(x) do { if (!(x)) { printf("failed: %s (line %d)\n", #x, __LINE__); bad_ = 1; } } while (0)
#define DONE return bad_
