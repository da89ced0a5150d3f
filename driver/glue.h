#ifndef GLUE_H
#define GLUE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "ta_libc.h"
typedef struct Fn {
  const char *name; int nin; const char *ik; int nopt; const char *ok; int nout; const char *ut;
  TA_RetCode (*batch)(int,int,const double*const*,const double*,int*,int*,void*const*);
  TA_RetCode (*sbatch)(int,int,const float*const*,const double*,int*,int*,void*const*);
  int (*lookback)(const double*);
  TA_RetCode (*init)(void**,const double*);
  TA_RetCode (*feed)(void*,const double*,void*const*);
  TA_RetCode (*bfeed)(void*,int,int,const double*const*,int*,int*,void*const*);
  TA_RetCode (*free_)(void**);
  TA_RetCode (*save)(void*,FILE*);
  TA_RetCode (*load)(void**,FILE*);
} Fn;
extern const Fn FN[]; extern const int NFN;
#endif
