#include <stdio.h>
#include <string.h>
#include "ta_libc.h"
#include "ta_abstract.h"
static void str(const char*s){putchar('"');if(s)for(;*s;s++){if(*s=='"'||*s=='\\')putchar('\\');putchar(*s=='\n'?' ':*s);}putchar('"');}
static int first=1;
static void one(const TA_FuncInfo*f,void*o){
  printf("%s %s |-> [group |-> ",first?"":",\n",f->name);first=0;str(f->group);printf(", camel |-> ");str(f->camelCaseName);printf(", hint |-> ");str(f->hint);printf(", flags |-> %d,\n   ins |-> <<",f->flags);
  for(unsigned i=0;i<f->nbInput;i++){const TA_InputParameterInfo*p;TA_GetInputParameterInfo(f->handle,i,&p);printf("%s[n |-> ",i?", ":"");str(p->paramName);printf(", t |-> %d, f |-> %d]",p->type,p->flags);}
  printf(">>,\n   outs |-> <<");
  for(unsigned i=0;i<f->nbOutput;i++){const TA_OutputParameterInfo*p;TA_GetOutputParameterInfo(f->handle,i,&p);printf("%s[n |-> ",i?", ":"");str(p->paramName);printf(", t |-> %d, f |-> %d]",p->type,p->flags);}
  printf(">>,\n   opts |-> <<");
  for(unsigned i=0;i<f->nbOptInput;i++){const TA_OptInputParameterInfo*p;TA_GetOptInputParameterInfo(f->handle,i,&p);printf("%s[n |-> ",i?",\n            ":"");str(p->paramName);printf(", t |-> %d, f |-> %d, disp |-> ",p->type,p->flags);str(p->displayName);printf(", hint |-> ");str(p->hint);
    if(p->type==TA_OptInput_IntegerRange){const TA_IntegerRange*r=p->dataSet;printf(", min |-> %d, max |-> %d, def |-> %d, sug |-> <<%d, %d, %d>>]",r->min,r->max,(int)p->defaultValue,r->suggested_start,r->suggested_end,r->suggested_increment);}
    else if(p->type==TA_OptInput_IntegerList){const TA_IntegerList*r=p->dataSet;printf(", min |-> %d, max |-> %d, def |-> %d, list |-> <<",r->data[0].value,r->data[r->nbElement-1].value,(int)p->defaultValue);for(unsigned k=0;k<r->nbElement;k++){printf("%s<<%d, ",k?", ":"",r->data[k].value);str(r->data[k].string);printf(">>");}printf(">>]");}
    else if(p->type==TA_OptInput_RealRange){const TA_RealRange*r=p->dataSet;printf(", min |-> \"%.17g\", max |-> \"%.17g\", def |-> \"%.17g\", prec |-> %d, sug |-> <<\"%.17g\", \"%.17g\", \"%.17g\">>]",r->min,r->max,p->defaultValue,r->precision,r->suggested_start,r->suggested_end,r->suggested_increment);}
    else printf("?????");}
  printf(">>]");
}
int main(){TA_Initialize();TA_ForEachFunc(one,0);return 0;}
