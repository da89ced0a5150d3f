#!/usr/bin/env python3
"""One-off generator: reads /repo's public C header and API description and writes
   driver/glue.c (call wrappers for every public function).  The output is committed: checks do
   not run this generator (the public API is the contract the glue is written against)."""
import re,sys,xml.etree.ElementTree as ET
R='/repo/ta-lib-rt'
hdr=open(R+'/c/include/ta_func.h').read()
hdr=re.sub(r'/\*.*?\*/',' ',hdr,flags=re.S)
protos={}
for m in re.finditer(r'TA_LIB_API\s+(TA_RetCode|int)\s+(TA_\w+)\s*\(([^;{]*?)\)\s*;',hdr):
    protos[m.group(2)]=[ ' '.join(a.split()) for a in m.group(3).split(',')]
root=ET.parse(R+'/ta_func_api.xml').getroot()
funcs=[]
for f in root:
    ab=f.findtext('Abbreviation')
    fl=[x.text for x in f.find('Flags')] if f.find('Flags') is not None else []
    opts=[]
    reg=[g for g in f.iter('Function') if g.findtext('Type')=='Regular'][0]
    for o in reg.iter('OptionalInputArgument'):
        t=o.findtext('Type'); r=o.find('Range')
        opts.append(dict(name=o.findtext('Name'),type=t,min=r.findtext('Minimum') if r is not None else None,
              max=r.findtext('Maximum') if r is not None else None,default=o.findtext('DefaultValue')))
    funcs.append(dict(name=ab,group=f.findtext('GroupId'),flags=fl,opts=opts))
out=[];tab=[]
w=out.append
w('/* generated by tools/gen_glue.py from the public header; committed */')
w('#include "glue.h"')
for fi,f in enumerate(funcs):
    n=f['name']; p=protos['TA_'+n]
    ins=[];opts=[];outs=[]
    for a in p[2:]:
        nm=re.search(r'(\w+)(\[\])?$',a).group(1)
        if nm.startswith('optIn'):
            t='r' if a.startswith('double') else ('m' if 'MAType' in a else 'i'); opts.append((nm,t))
        elif nm in('outBegIdx','outNBElement'): pass
        elif nm.startswith('in'): ins.append(nm)
        elif nm.startswith('out'): outs.append((nm,'i' if a.startswith('int') else 'r'))
        else: raise Exception(a)
    assert len(opts)==len(f['opts']),(n,opts,f['opts'])
    f['ins']=ins;f['optl']=opts;f['outs']=outs
    oc=[ {'i':'(int)o[%d]','m':'(TA_MAType)(int)o[%d]','r':'o[%d]'}[t]%k for k,(_,t) in enumerate(opts)]
    ob=[ ('(int*)' if t=='i' else '(double*)')+'out[%d]'%k for k,(_,t) in enumerate(outs)]
    j=lambda *x:', '.join([y for z in x for y in z])
    w(f'static TA_RetCode b_{n}(int s,int e,const double*const*in,const double*o,int*bg,int*nb,void*const*out){{return TA_{n}({j(["s","e"],["in[%d]"%k for k in range(len(ins))],oc,["bg","nb"],ob)});}}')
    w(f'static TA_RetCode s_{n}(int s,int e,const float*const*in,const double*o,int*bg,int*nb,void*const*out){{return TA_S_{n}({j(["s","e"],["in[%d]"%k for k in range(len(ins))],oc,["bg","nb"],ob)});}}')
    w(f'static int l_{n}(const double*o){{return TA_{n}_Lookback({j(oc)});}}')
    w(f'static TA_RetCode i_{n}(void**st,const double*o){{return TA_{n}_StateInit({j(["(struct TA_%s_State**)st"%n],oc)});}}')
    w(f'static TA_RetCode t_{n}(void*st,const double*v,void*const*out){{return TA_{n}_State({j(["(struct TA_%s_State*)st"%n],["v[%d]"%k for k in range(len(ins))],ob)});}}')
    w(f'static TA_RetCode c_{n}(void*st,int s,int e,const double*const*in,int*bg,int*nb,void*const*out){{return TA_{n}_BatchState({j(["(struct TA_%s_State*)st"%n,"s","e"],["in[%d]"%k for k in range(len(ins))],["bg","nb"],ob)});}}')
    w(f'static TA_RetCode f_{n}(void**st){{return TA_{n}_StateFree((struct TA_{n}_State**)st);}}')
    w(f'static TA_RetCode w_{n}(void*st,FILE*f){{return TA_{n}_StateSave((struct TA_{n}_State*)st,f);}}')
    w(f'static TA_RetCode r_{n}(void**st,FILE*f){{return TA_{n}_StateLoad((struct TA_{n}_State**)st,f);}}')
    kinds=''.join({'inOpen':'O','inHigh':'H','inLow':'L','inClose':'C','inVolume':'V','inPeriods':'P'}.get(x,'R') for x in ins)
    f['kinds']=kinds
    tab.append(f'  {{"{n}",{len(ins)},"{kinds}",{len(opts)},"{"".join(t for _,t in opts)}",{len(outs)},"{"".join(t for _,t in outs)}",b_{n},s_{n},l_{n},i_{n},t_{n},c_{n},f_{n},w_{n},r_{n}}},')
w('const Fn FN[]={'); out+=tab; w('};'); w('const int NFN=sizeof(FN)/sizeof(FN[0]);')
open('/verif/driver/glue.c','w').write('\n'.join(out)+'\n')
import json
json.dump(funcs,open('/verif/driver/catalog.json','w'),indent=0)
print(len(funcs))
