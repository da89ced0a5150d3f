/* The describing half of the project's gen_code tool, without the code generation:
 *   gen print   prints the description of every function, as it goes into ta_func_api.xml
 *   gen api     makes ../src/ta_abstract/ta_func_api.c from ../../ta_func_api.xml (run in a scratch tree)
 *   gen fields  prints the state fields of every function as the interface gives them */
#define main gen_code_main
#include "gen_code.c"
#undef main

#ifndef NO_PRINT
#include "print_funcs_xml.h"
static void describe(const TA_FuncInfo *f, void *file) { print_xml((FILE *)file, f); }
#endif

static void fields(const TA_FuncInfo *f, void *file)
{
   unsigned int i;
   const TA_InputParameterInfo *p;
   fprintf((FILE *)file, "%s", f->name);
   for (i = 0; i < f->nbStructParams; i++)
      if (TA_GetStructParameterInfo(f->handle, i, &p) == TA_SUCCESS)
         fprintf((FILE *)file, " %d:%d:%s", (int)p->type, (int)p->flags, p->paramName);
   fprintf((FILE *)file, "\n");
}

int main(int argc, char **argv)
{
   if (argc != 2)
      return 2;
   if (!strcmp(argv[1], "api"))
      return generateFuncAPI_C() == 1 ? 0 : 1;
#ifndef NO_PRINT
   if (!strcmp(argv[1], "print"))
      return TA_ForEachFunc(describe, stdout) == TA_SUCCESS ? 0 : 1;
#endif
   return TA_ForEachFunc(fields, stdout) == TA_SUCCESS ? 0 : 1;
}
