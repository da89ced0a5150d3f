/* The abstract interface: parameter holders, calls by name, introspection. */
#define CAP 4096
static const TA_FuncHandle *handle(const char *n) { const TA_FuncHandle *h = NULL; TA_GetFuncHandle(n, &h); return h; }
static int seriesOf(const Fn *f, int idx) {    /* first series of abstract input idx */
  const TA_FuncHandle *h = handle(f->name); int s = 0; const TA_FuncInfo *fi; TA_GetFuncInfo(h, &fi);
  for (int i = 0; i < idx && i < (int)fi->nbInput; i++) { const TA_InputParameterInfo *p; TA_GetInputParameterInfo(h, i, &p); s += p->type == TA_Input_Price ? __builtin_popcount(p->flags & 31) : 1; }
  return s;
}
static int setin(Ho *a, int idx, char kind, int di, int off, int mask) {
  Ds *d = &ds[di]; int rc;
  if (kind == 'p') { const double *c[6]; for (int k = 0; k < 6; k++) c[k] = (mask >> k & 1) ? d->c[k] + off : NULL; rc = LIB(TA_SetInputParamPricePtr(a->p, idx, c[0], c[1], c[2], c[3], c[4], c[5])); }
  else if (kind == 'i') { static int ints[CAP]; rc = LIB(TA_SetInputParamIntegerPtr(a->p, idx, mask ? ints : NULL)); }
  else { int col[8], s = a->f ? seriesOf(a->f, idx) : 0; if (a->f) cols(a->f, col); const double *p = d->c[a->f && s < a->f->nin ? col[s] : 5] + off; rc = LIB(TA_SetInputParamRealPtr(a->p, idx, mask ? p : NULL)); }
  return rc;
}
static void jstr(const char *v) { fputc('"', T); if (v) for (; *v; v++) { if (*v == '"' || *v == '\\') fputc('\\', T); fputc((unsigned char)*v < 32 ? ' ' : (unsigned char)*v > 126 ? '?' : *v, T); } fputc('"', T); }
static char names[400][32]; static int nnames;
static void collect(const TA_FuncInfo *f, void *o) { if (nnames < 400) snprintf(names[nnames++], 32, "%s", f->name); ++*(int *)o; }
static void jd(double v) { fputc('"', T); hexd(v); fputc('"', T); }
static void dumpinfo(const char *name) {
  const TA_FuncHandle *h = NULL; const TA_FuncInfo *f = NULL; int r1 = TA_GetFuncHandle(name, &h), r2 = h ? TA_GetFuncInfo(h, &f) : -1;
  ev("Info"); ks("f", name); ki("rc", r1); ki("rc2", r2);
  if (r1 == 0 && r2 == 0) {
    ks("name", f->name); ks("group", f->group); ks("camel", f->camelCaseName); ks("hint", f->hint); ki("flags", f->flags); ki("nin", f->nbInput); ki("nout", f->nbOutput); ki("nopt", f->nbOptInput); ki("nstruct", f->nbStructParams); ki("same", f->handle == h);
    fputs(",\"ins\":[", T);
    for (unsigned i = 0; i < f->nbInput; i++) { const TA_InputParameterInfo *p = NULL; TA_GetInputParameterInfo(h, i, &p); fprintf(T, "%s{\"n\":", i ? "," : ""); jstr(p->paramName); fprintf(T, ",\"t\":%d,\"f\":%d}", p->type, p->flags); }
    fputs("],\"outs\":[", T);
    for (unsigned i = 0; i < f->nbOutput; i++) { const TA_OutputParameterInfo *p = NULL; TA_GetOutputParameterInfo(h, i, &p); fprintf(T, "%s{\"n\":", i ? "," : ""); jstr(p->paramName); fprintf(T, ",\"t\":%d,\"f\":%d}", p->type, p->flags); }
    fputs("],\"opts\":[", T);
    for (unsigned i = 0; i < f->nbOptInput; i++) {
      const TA_OptInputParameterInfo *p = NULL; TA_GetOptInputParameterInfo(h, i, &p); fprintf(T, "%s{\"n\":", i ? "," : ""); jstr(p->paramName); fprintf(T, ",\"t\":%d,\"f\":%d,\"disp\":", p->type, p->flags); jstr(p->displayName); fputs(",\"hint\":", T); jstr(p->hint);
      if (p->type == TA_OptInput_IntegerRange) { const TA_IntegerRange *r = p->dataSet; fprintf(T, ",\"min\":%d,\"max\":%d,\"def\":%d,\"sug\":[%d,%d,%d]}", r->min, r->max, (int)p->defaultValue, r->suggested_start, r->suggested_end, r->suggested_increment); }
      else if (p->type == TA_OptInput_IntegerList) { const TA_IntegerList *r = p->dataSet; fprintf(T, ",\"min\":%d,\"max\":%d,\"def\":%d,\"list\":[", r->data[0].value, r->data[r->nbElement - 1].value, (int)p->defaultValue); for (unsigned k = 0; k < r->nbElement; k++) { fprintf(T, "%s[%d,", k ? "," : "", r->data[k].value); jstr(r->data[k].string); fputc(']', T); } fputs("]}", T); }
      else if (p->type == TA_OptInput_RealRange) { const TA_RealRange *r = p->dataSet; fputs(",\"min\":", T); jd(r->min); fputs(",\"max\":", T); jd(r->max); fputs(",\"def\":", T); jd(p->defaultValue); fprintf(T, ",\"prec\":%d,\"sug\":[", r->precision); jd(r->suggested_start); fputc(',', T); jd(r->suggested_end); fputc(',', T); jd(r->suggested_increment); fputs("]}", T); }
      else fputs(",\"bad\":1}", T);
    }
    fputs("]", T);
    const TA_InputParameterInfo *ip; const TA_OutputParameterInfo *op; const TA_OptInputParameterInfo *tp;
    ki("xi", TA_GetInputParameterInfo(h, f->nbInput, &ip)); ki("xo", TA_GetOutputParameterInfo(h, f->nbOutput, &op)); ki("xt", TA_GetOptInputParameterInfo(h, f->nbOptInput, &tp)); ki("xs", TA_GetStructParameterInfo(h, f->nbStructParams, &ip));
    TA_StateFunc s1 = NULL; TA_BatchStateFunc s2 = NULL; TA_StateIOFunc s3 = NULL; int ok = 1;
    ok &= TA_GetInitNewStateFuncPtr(f, &s1) == 0 && s1; s1 = NULL; ok &= TA_GetCallFuncStateFuncPtr(f, &s1) == 0 && s1; s1 = NULL; ok &= TA_GetFreeStateFuncPtr(f, &s1) == 0 && s1;
    ok &= TA_GetCallFuncBatchStateFuncPtr(f, &s2) == 0 && s2; ok &= TA_GetSaveStateFuncPtr(f, &s3) == 0 && s3; s3 = NULL; ok &= TA_GetLoadStateFuncPtr(f, &s3) == 0 && s3; ki("ptrs", ok);
  }
  done();
}
/* The calls on streams of holders, by name or (token p) through the function pointers of TA_GetXxxFuncPtr */
static const TA_FuncInfo *infoOf(Ho *a) { const TA_FuncInfo *fi = NULL; TA_GetFuncInfo(handle(a->f->name), &fi); return fi; }
static int viaptr(void) { return *next() == 'p'; }
#define HCALL(NAME, GET, ...) static int h##NAME(Ho *a, int p) { TA_StateFunc s; if (!p) return TA_##NAME(a->p); return GET(infoOf(a), &s) ? 9999 : (int)s(a->p->hiddenData); }
HCALL(InitNewState, TA_GetInitNewStateFuncPtr)
HCALL(CallFuncState, TA_GetCallFuncStateFuncPtr)
HCALL(FreeState, TA_GetFreeStateFuncPtr)
static int hBatch(Ho *a, int p, int s, int e, int *b, int *n) { TA_BatchStateFunc q; if (!p) return TA_CallFuncBatchState(a->p, s, e, b, n); return TA_GetCallFuncBatchStateFuncPtr(infoOf(a), &q) ? 9999 : (int)q(a->p->hiddenData, s, e, b, n); }
static int hSave(Ho *a, int p, FILE *f) { TA_StateIOFunc q; if (!p) return TA_SaveState(a->p, f); return TA_GetSaveStateFuncPtr(infoOf(a), &q) ? 9999 : (int)q(a->p->hiddenData, f); }
static int hLoad(Ho *a, int p, FILE *f) { TA_StateIOFunc q; if (!p) return TA_LoadState(a->p, f); return TA_GetLoadStateFuncPtr(infoOf(a), &q) ? 9999 : (int)q(a->p->hiddenData, f); }
static int abstract_step(const char *c) {
  int rc;
  if (!strcmp(c, "AP")) { int a = nexti(); char *n = next(); int h0 = live; const TA_FuncHandle *h = NULL; rc = TA_GetFuncHandle(n, &h); if (rc == 0) rc = LIB(TA_ParamHolderAlloc(h, &A[a].p)); A[a].f = NULL; for (int i = 0; i < NFN; i++) if (!strcmp(FN[i].name, n)) A[a].f = &FN[i];
    for (int k = 0; k < 3; k++) { if (!A[a].out[k]) A[a].out[k] = malloc(8 * CAP); for (int i = 0; i < CAP; i++) ((double *)A[a].out[k])[i] = pat(0); }
    ev("Holder"); ki("a", a); ks("f", n); ki("rc", rc); ki("blk", live - h0); done(); }
  else if (!strcmp(c, "AF")) { int a = nexti(); rc = LIB(TA_ParamHolderFree(A[a].p)); if (rc == 0) A[a].p = NULL; ev("HolderFree"); ki("a", a); ki("rc", rc); ki("heap", live); done(); }
  else if (!strcmp(c, "AI")) { int a = nexti(), idx = nexti(); char k = next()[0]; int di = nexti(), off = nexti(), mask = nexti(); rc = setin(&A[a], idx, k, di, off, mask); ev("SetInput"); ki("a", a); ki("i", idx); fprintf(T, ",\"k\":\"%c\"", k); ki("d", di); ki("off", off); ki("mask", mask); ki("rc", rc); done(); }
  else if (!strcmp(c, "AU")) { int a = nexti(), idx = nexti(); char k = next()[0]; int nz = nexti(); void *b = nz ? A[a].out[idx < 3 ? idx : 0] : NULL; if (k == 'i') { rc = LIB(TA_SetOutputParamIntegerPtr(A[a].p, idx, b)); } else { rc = LIB(TA_SetOutputParamRealPtr(A[a].p, idx, b)); } ev("SetOutput"); ki("a", a); ki("i", idx); fprintf(T, ",\"k\":\"%c\"", k); ki("nz", nz); ki("rc", rc); done(); }
  else if (!strcmp(c, "AO")) { int a = nexti(), idx = nexti(); char k = next()[0]; double v = nexto(); if (k == 'i') { rc = LIB(TA_SetOptInputParamInteger(A[a].p, idx, (int)v)); } else { rc = LIB(TA_SetOptInputParamReal(A[a].p, idx, v)); } ev("SetOpt"); ki("a", a); ki("i", idx); fprintf(T, ",\"k\":\"%c\",\"v\":", k); if (k == 'i') fprintf(T, "%d", (int)v); else jd(v); ki("rc", rc); done(); }
  else if (!strcmp(c, "AL")) { int a = nexti(), v = -77; rc = LIB(TA_GetLookback(A[a].p, &v)); ev("HolderLookback"); ki("a", a); ki("rc", rc); ki("lb", v); done(); }
  else if (!strcmp(c, "AC")) { int a = nexti(), s = nexti(), e = nexti(), b = -77, n = -77; Ho *p = &A[a]; for (int k = 0; k < 3; k++) for (int i = 0; i < CAP; i++) ((double *)p->out[k])[i] = pat(0); int h0 = live; rc = LIB(TA_CallFunc(p->p, s, e, &b, &n)); int kept = live - h0; ev("CallHolder"); ki("kept", kept); ki("a", a); ki("s", s); ki("t", e); ki("rc", rc); ki("b", b); ki("n", n); strOut("out", p->f->nout, p->f->ut, p->out, rc == 0 && n > 0 && n < CAP ? n : 0); done(); }
  else if (!strcmp(c, "AN")) { int a = nexti(), p = viaptr(), h0 = live; rc = LIB(hInitNewState(&A[a], p)); ev("HolderOpen"); ki("a", a); ki("rc", rc); ki("blk", live - h0); done(); }
  else if (!strcmp(c, "AS")) { /* AS a ds i n : single feeds; every bar is set as the (only) element of the inputs first */
    int a = nexti(), di = nexti(), i0 = nexti(), n = nexti(), via = viaptr(); Ho *p = &A[a]; const Fn *f = p->f; const TA_FuncHandle *h = handle(f->name); const TA_FuncInfo *fi; TA_GetFuncInfo(h, &fi);
    int *rcs = malloc(sizeof(int) * (n + 1)); void *buf[3]; for (int k = 0; k < f->nout; k++) buf[k] = calloc(n + 1, 8);
    for (int j = 0; j < n; j++) { int r0 = 0; for (unsigned i = 0; i < fi->nbInput; i++) { const TA_InputParameterInfo *q; TA_GetInputParameterInfo(h, i, &q); r0 |= setin(p, i, q->type == TA_Input_Price ? 'p' : 'r', di, i0 + j, 31); }
      rcs[j] = LIB(hCallFuncState(p, via)); if (r0) rcs[j] = 1000 + r0;
      for (int k = 0; k < f->nout; k++) { if (f->ut[k] == 'i') ((int *)buf[k])[j] = rcs[j] ? 0 : ((int *)p->out[k])[0]; else ((double *)buf[k])[j] = rcs[j] ? 0 : ((double *)p->out[k])[0]; } }
    ev("HolderFeed"); ki("a", a); ki("d", di); ki("i", i0); ki("n", n); runs("rcs", rcs, n); strOut("out", f->nout, f->ut, buf, n); done(); for (int k = 0; k < f->nout; k++) free(buf[k]); free(rcs); }
  else if (!strcmp(c, "AQ")) { int a = nexti(); rc = LIB(TA_CallFuncState(A[a].p)); ev("HolderBare"); ki("a", a); ki("rc", rc); done(); } /* one feed, nothing set before: only for calls that are refused */
  else if (!strcmp(c, "AB")) { int a = nexti(), s = nexti(), e = nexti(), via = viaptr(), b = -77, n = -77; Ho *p = &A[a]; rc = LIB(hBatch(p, via, s, e, &b, &n)); ev("HolderChunk"); ki("a", a); ki("s", s); ki("t", e); ki("rc", rc); ki("b", b); ki("n", n); strOut("out", p->f->nout, p->f->ut, p->out, n > 0 && n < CAP && (rc == 0 || rc == 17) ? n : 0); done(); }
  else if (!strcmp(c, "AX")) { int a = nexti(), p = viaptr(), h0 = live; rc = LIB(hFreeState(&A[a], p)); void *st = (void *)1; int r2 = TA_GetParamStatePtr(A[a].p, &st); ev("HolderClose"); ki("a", a); ki("rc", rc); ki("rc2", r2); ki("nn", st != NULL); ki("blk", h0 - live); done(); }
  else if (!strcmp(c, "AV")) { int a = nexti(), k = nexti(), p = viaptr(); Mf *m = file(k); long p0 = m->pos; rc = LIB(hSave(&A[a], p, m->f)); ev("HolderSave"); ki("a", a); ki("k", k); ki("rc", rc); ki("from", p0); ki("pos", m->pos); done(); }
  else if (!strcmp(c, "AW")) { int a = nexti(), k = nexti(), p = viaptr(); Mf *m = file(k); long p0 = m->pos; int h0 = live; rc = LIB(hLoad(&A[a], p, m->f)); ev("HolderLoad"); ki("a", a); ki("k", k); ki("rc", rc); ki("from", p0); ki("pos", m->pos); ki("blk", live - h0); { void *st = NULL; TA_GetParamStatePtr(A[a].p, &st); ki("nn", st != NULL); } done(); }
  else if (!strcmp(c, "AM")) { int a = nexti(), a2 = nexti(); void *st = NULL; rc = LIB(TA_GetParamStatePtr(A[a].p, &st)); int r2 = LIB(TA_SetParamStatePtr(A[a2].p, st)); int r3 = LIB(TA_SetParamStatePtr(A[a].p, NULL)); ev("HolderMove"); ki("a", a); ki("a2", a2); ki("rc", rc); ki("rc2", r2); ki("rc3", r3); ki("nn", st != NULL); done(); }
  /* ---- introspection */
  else if (!strcmp(c, "XF")) dumpinfo(next());
  else if (!strcmp(c, "XA")) { for (int i = 0; i < NFN; i++) dumpinfo(FN[i].name); }
  else if (!strcmp(c, "XN")) { char *n = next(); if (!strcmp(n, "<empty>")) n = ""; const TA_FuncHandle *h = NULL; rc = TA_GetFuncHandle(n, &h); ev("Find"); ks("f", n); ki("rc", rc); ki("nn", h != NULL); done(); }
  else if (!strcmp(c, "XE")) { int cnt = 0; nnames = 0; rc = TA_ForEachFunc(collect, &cnt); ev("ForEach"); ki("rc", rc); ki("cnt", cnt); fputs(",\"names\":[", T); for (int i = 0; i < nnames; i++) { if (i) fputc(',', T); jstr(names[i]); } fputs("]", T); done(); }
  else if (!strcmp(c, "XG")) { TA_StringTable *t = NULL; int h0 = live; rc = LIB(TA_GroupTableAlloc(&t)); ev("Groups"); ki("rc", rc); fputs(",\"names\":[", T); if (t) for (unsigned i = 0; i < t->size; i++) { if (i) fputc(',', T); jstr(t->string[i]); } fputs("]", T); int wrong = t ? LIB(TA_FuncTableFree(t)) : -1; int r2 = LIB(TA_GroupTableFree(t)); ki("wrong", wrong); ki("rc2", r2); ki("leak", live - h0); done(); }
  else if (!strcmp(c, "XT")) { char *g = tok; while (*g == ' ') g++; g[strcspn(g, "\n")] = 0; char *nm = strdup(g); TA_StringTable *t = NULL; int h0 = live; rc = LIB(TA_FuncTableAlloc(nm, &t)); ev("FuncTable"); ks("g", nm); ki("rc", rc); fputs(",\"names\":[", T); if (rc == 0 && t) for (unsigned i = 0; i < t->size; i++) { if (i) fputc(',', T); jstr(t->string[i]); } fputs("]", T); int wrong = -1, r2 = -1; if (rc == 0) { wrong = LIB(TA_GroupTableFree(t)); r2 = LIB(TA_FuncTableFree(t)); } ki("wrong", wrong); ki("rc2", r2); ki("leak", live - h0); done(); free(nm); }
  else if (!strcmp(c, "XZ")) { /* null pointers, and handles and holders that are none, for every call of the abstract interface */
    char *n = next(); const TA_FuncHandle *h = NULL; TA_GetFuncHandle(n, &h); const TA_FuncInfo *fi = NULL; TA_GetFuncInfo(h, &fi); TA_ParamHolder *p = NULL; TA_ParamHolderAlloc(h, &p);
    static char zeros[4096], odd[4096]; memset(odd, 0x5a, sizeof odd); const TA_FuncHandle *xh[3] = {NULL, (const void *)zeros, (const void *)odd}; TA_ParamHolder fake[2] = {{zeros}, {odd}}, hollow = {NULL}; TA_ParamHolder *xp[3] = {NULL, &fake[0], &fake[1]};
    double x[4]; int y[4], b = -77, e = -77, sep = 0, h0 = live; void *q; FILE *mf = file(0)->f; TA_StringTable *t; TA_StateFunc s1; TA_BatchStateFunc s2; TA_StateIOFunc s3; const TA_InputParameterInfo *ii; const TA_OutputParameterInfo *oi; const TA_OptInputParameterInfo *ti; const TA_InputParameterInfo *si; const TA_FuncInfo *f2; TA_ParamHolder *p2; int cnt = 0;
    ev("Nulls"); ks("f", n); fputs(",\"rcs\":[", T);
#define Z(C, A, HOW, ...) fprintf(T, "%s[\"" C "\",\"" A "\",\"%s\",%d]", sep++ ? "," : "", HOW, (int)LIB(__VA_ARGS__))
    Z("GroupTableAlloc", "place", "null", TA_GroupTableAlloc(NULL)); Z("FuncTableAlloc", "place", "null", TA_FuncTableAlloc(fi->group, NULL)); t = (void *)1; Z("FuncTableAlloc", "name", "null", TA_FuncTableAlloc(NULL, &t));
    Z("GroupTableFree", "table", "null", TA_GroupTableFree(NULL)); Z("FuncTableFree", "table", "null", TA_FuncTableFree(NULL)); Z("ParamHolderFree", "table", "null", TA_ParamHolderFree(NULL));
    Z("ForEachFunc", "place", "null", TA_ForEachFunc(NULL, &cnt)); Z("GetFuncHandle", "place", "null", TA_GetFuncHandle(n, NULL)); Z("GetFuncHandle", "name", "null", TA_GetFuncHandle(NULL, &h));
    TA_GetFuncHandle(n, &h);
    Z("GetFuncInfo", "place", "null", TA_GetFuncInfo(h, NULL)); Z("GetInputParameterInfo", "place", "null", TA_GetInputParameterInfo(h, 0, NULL)); Z("GetOutputParameterInfo", "place", "null", TA_GetOutputParameterInfo(h, 0, NULL)); Z("GetOptInputParameterInfo", "place", "null", TA_GetOptInputParameterInfo(h, 0, NULL)); Z("ParamHolderAlloc", "place", "null", TA_ParamHolderAlloc(h, NULL)); Z("GetStructParameterInfo", "place", "null", TA_GetStructParameterInfo(h, 0, NULL)); Z("ParamHolderFree", "holder", "hollow", TA_ParamHolderFree(&hollow));
    for (int k = 0; k < 3; k++) { const char *how = k ? "alien" : "null"; const TA_FuncHandle *u = xh[k]; TA_ParamHolder *v = xp[k];
      Z("GetFuncInfo", "handle", how, TA_GetFuncInfo(u, &f2)); Z("GetInputParameterInfo", "handle", how, TA_GetInputParameterInfo(u, 0, &ii)); Z("GetOutputParameterInfo", "handle", how, TA_GetOutputParameterInfo(u, 0, &oi)); Z("GetOptInputParameterInfo", "handle", how, TA_GetOptInputParameterInfo(u, 0, &ti)); Z("ParamHolderAlloc", "handle", how, TA_ParamHolderAlloc(u, &p2)); Z("GetStructParameterInfo", "handle", how, TA_GetStructParameterInfo(u, 0, &si));
      if (k) Z("ParamHolderFree", "holder", how, TA_ParamHolderFree(v));
      Z("SetInputParamIntegerPtr", "holder", how, TA_SetInputParamIntegerPtr(v, 0, y)); Z("SetInputParamRealPtr", "holder", how, TA_SetInputParamRealPtr(v, 0, x)); Z("SetInputParamPricePtr", "holder", how, TA_SetInputParamPricePtr(v, 0, x, x, x, x, x, x));
      Z("SetOptInputParamInteger", "holder", how, TA_SetOptInputParamInteger(v, 0, 5)); Z("SetOptInputParamReal", "holder", how, TA_SetOptInputParamReal(v, 0, 0.5)); Z("SetOutputParamIntegerPtr", "holder", how, TA_SetOutputParamIntegerPtr(v, 0, y)); Z("SetOutputParamRealPtr", "holder", how, TA_SetOutputParamRealPtr(v, 0, x));
      Z("GetParamStatePtr", "holder", how, TA_GetParamStatePtr(v, &q)); Z("SetParamStatePtr", "holder", how, TA_SetParamStatePtr(v, NULL)); Z("GetLookback", "holder", how, TA_GetLookback(v, &b)); Z("CallFunc", "holder", how, TA_CallFunc(v, 0, 3, &b, &e));
      Z("InitNewState", "holder", how, TA_InitNewState(v)); Z("CallFuncState", "holder", how, TA_CallFuncState(v)); Z("CallFuncBatchState", "holder", how, TA_CallFuncBatchState(v, 0, 3, &b, &e)); Z("FreeState", "holder", how, TA_FreeState(v)); Z("SaveState", "holder", how, TA_SaveState(v, mf)); Z("LoadState", "holder", how, TA_LoadState(v, mf)); }
    Z("SetInputParamRealPtr", "place", "null", TA_SetInputParamRealPtr(p, 0, NULL)); Z("SetInputParamIntegerPtr", "place", "null", TA_SetInputParamIntegerPtr(p, 0, NULL)); Z("SetOutputParamRealPtr", "place", "null", TA_SetOutputParamRealPtr(p, 0, NULL)); Z("SetOutputParamIntegerPtr", "place", "null", TA_SetOutputParamIntegerPtr(p, 0, NULL));
    Z("GetParamStatePtr", "place", "null", TA_GetParamStatePtr(p, NULL)); Z("GetLookback", "place", "null", TA_GetLookback(p, NULL)); Z("CallFunc", "place", "null", TA_CallFunc(p, 0, 3, NULL, &e)); Z("CallFunc", "place", "null", TA_CallFunc(p, 0, 3, &b, NULL)); Z("CallFuncBatchState", "place", "null", TA_CallFuncBatchState(p, 0, 3, NULL, &e)); Z("CallFuncBatchState", "place", "null", TA_CallFuncBatchState(p, 0, 3, &b, NULL));
#define ZP(C, s) Z(#C, "place", "null", TA_##C(fi, NULL)); Z(#C, "info", "null", TA_##C(NULL, &s))
    ZP(GetInitNewStateFuncPtr, s1); ZP(GetCallFuncStateFuncPtr, s1); ZP(GetCallFuncBatchStateFuncPtr, s2); ZP(GetFreeStateFuncPtr, s1); ZP(GetSaveStateFuncPtr, s3); ZP(GetLoadStateFuncPtr, s3);
    fputs("]", T); ki("touched", b != -77 || e != -77 || cnt); ki("leak", live - h0); ki("rc", TA_ParamHolderFree(p)); done(); }
  else if (!strcmp(c, "XR")) { /* the texts of a range of return codes */
    int lo = nexti(), hi = nexti(); for (int k = lo; k <= hi; k++) { TA_RetCodeInfo i = {0, 0}; TA_SetRetCodeInfo((TA_RetCode)k, &i); ev("RetCode"); ki("code", k); ks("name", i.enumStr ? i.enumStr : ""); ki("text", i.infoStr && *i.infoStr); done(); } }
  else if (!strcmp(c, "XV")) { ev("Version"); fputs(",\"v\":[", T); const char *v[] = {TA_GetVersionMajor(), TA_GetVersionMinor(), TA_GetVersionBuild(), TA_GetVersionExtra(), TA_GetVersionDate(), TA_GetVersionTime()}; for (int i = 0; i < 6; i++) { if (i) fputc(',', T); jstr(v[i]); } fputs("],\"all\":", T); jstr(TA_GetVersionString()); done(); }
  else return 0;
  return 1;
}
