COMMON_ASSUMPTIONS=['x86-64 little-endian, LLVM 18 -O1 bitcode of the current tree','allocations above the stated limit fail with bad_alloc']
K=dict(U8=1,I32=2,I64=4,ENUM=8,STR=16,ARR=32,VEC=64,COMP=128,PTR=256,OPQ=512,I16=1024,F64=2048)
def m(s): return sum(K[x] for x in s.split())
FKN='NUM ENUM OPQ ARRN ARRE VECN VECE STR P0 P1 P2 C2 AP2 VC2 PP0 PP1 AC2'.split()
def FK(s): return sum(1<<FKN.index(x) for x in s.split())
# what one run of each harness entry covers; {x} are parameters of the run, masks select kinds
BT={
'roundtrip':'type trees of depth <={depth} over leaf kinds and array(dim<={maxdim})/vector/struct(fields<={maxfields}, optional extra trailing padding)/string; element counts <={maxcount}; every data, padding and (dirty) prior target byte symbolic',
'modes':'type trees of depth <={depth}; the five layout modes; all bytes symbolic','sinks':'type trees of depth <={depth}; all sinks and sources; all bytes symbolic',
'untrusted':'type trees of depth <={depth}; every input of 0..{maxlen} arbitrary bytes; target fresh or (dirty) filled','truncated':'type trees of depth <={depth}; every cut of a valid stream and every extension by up to 11 bytes',
'filefail':'type trees of depth <={depth}; every sequence of complete, short (symbolic length) and failing fwrite calls','huge':'arrays of nine sizes around 2^31, 2^32, 2^33 and 2^63 alone and in structures, inputs and buffers of 0..19 bytes','offsets':'up to 3 fields at symbolic offsets below 2^40, nested once, optionally in an array','bounded':'type trees of depth <={depth}; every buffer size from 0 to the needed size + 2','fdfail':'type trees of depth <={depth}; every sequence of complete, short (symbolic length) and failing writes',
'layout':'type trees of depth <={depth} with symbolic leaf sizes, gaps and tails, one symbolic byte offset probed','accept':'type trees holding pointers and opaques at any place up to depth 2, all accept flags','initlayout':'type trees, symbolic sizes, one symbolic byte offset probed',
'initenum':'enumerations of one to three symbols of arbitrary values, of 1, 2, 4 and 8 bytes, alone, in arrays and in structures','init':'type trees of depth <=2, arbitrary prior bytes','zero':'type trees of depth <=2, element counts <={maxcount}, all bytes symbolic','copy':'type trees of depth <=2, element counts <={maxcount} in source and target','comparebig':'type trees of depth <=2, dimensions and counts up to 300, one arbitrary byte at five places','compare':'pairs of values of type trees of depth <=2, all bytes symbolic',
'vector':'element type number {elem} of 10, all sequences of {ops} operations','mismatch':'element types {elem} of 10 (99: all), values of 14 types, pushed or erased, up to two elements before','string':'all sequences of {ops} operations on a string with symbolic characters',
'compiled':'type trees without containers of depth <=2, all bytes symbolic','visitor':'type trees with vectors of depth <=2, all bytes symbolic','unsupported':'type trees with pointers, opaques and strings at any place',
'visit':'type trees of depth <=2 with pointers','cast':'all integer sizes and signs, all values, eleven C types','getfield':'up to 3 fields, all queries of up to 2 arbitrary bytes',
'enums':'all sequences of {ops} declarations over 3 symbols with symbolic 32-bit values, symbolic initial value, symbolic query','csv':'type trees of depth <={depth}; null=1: NULL pointers (wrap: in structures and arrays)',
'samebasic':'all pairs of basic types of eight categories with symbolic sizes below 256','same':'three structures of {nf}/{nf}/{nf2} fields whose kinds are in k0/k2, symbolic attributes','sizes':'symbolic sizes and offsets below 256, dimensions below 12, up to 3 fields',
'resize':'three field orders, four embeddings, five subsets of resized types; symbolic sizes below 16 (structure: 100), gaps below 4','resizeunknown':'all names of one arbitrary byte',
'remove':'all registries of {n} types of four kinds, all dependency graphs, one alias','names':'all sequences of {ops} out of {kinds} operations over {uni} names','derived':'all sequences of {ops} operations',
'derivedremove':'all sequences of {ops} operations, among them removing aliases','createcontainers':'all sequences of {ops} out of six operations','merge':'all pairs of registries of up to {n} types','minimal':'all registries of up to {n} types, every type requested','minimalauto':'all registries of {n} types, every set of known names','regsame':'all pairs of registries of up to {n} types',
'exporter':'all registries of {n} types, one alias','order':'all pairs of names of up to {len} arbitrary bytes','ordertrans':'all triples of names of up to {len} arbitrary bytes','ranges':'all subsets of {n} names, all prefixes of up to {len} arbitrary bytes',
'build':'two known types followed by up to {len} arbitrary bytes','buildany':'all names of up to {len} arbitrary bytes','buildmods':'up to {mods} out of nine modifiers',
'typenames':'/ followed by up to {len} arbitrary bytes','typenamesany':'up to {len} arbitrary bytes','typenamesfix':'skeletons of names with arguments and modifiers, up to three bytes arbitrary','typenamestpl':'/t< followed by up to {len} arbitrary bytes','namespaces':'up to {len} arbitrary bytes','minpath':'names and namespaces of up to {depth} components of 1-2 letters out of three',
'tlb':'all registries of {n} types out of ten kinds; csize=1: containers of four sizes','tlbtext':'all printable texts of up to {len} characters at place {pos} (0 field, 1 metadata key, 2 metadata value, 3 symbol, 4-8 type names, 9 alias; sid: source id)',
'tlbmutate':'document {doc}, every position, {w} arbitrary ASCII bytes','tlbattr':'document {doc}, every attribute, value replaced or extended by up to {len} arbitrary bytes','tlbelements':'all sequences of {n} out of nine elements','tlborder':'all orders of three fields and all orders of {n} definitions',
'idlnames':'leading underscores in all subsets of the namespaces, type, field, symbol and alias names; sequences of arrays','idlalias':'an alias of six kinds of types, in four namespaces, four sequences, with the name of a sequence or not, three prefixes and suffixes','idlrelative':'an enumeration, a structure and two containers in six namespaces, seen from six namespaces, four prefixes and suffixes','idl':'{n} enumerations and structures (kinds mask) in up to nns namespaces',
'pluginpath':'plugin paths of up to {len} characters over two directory names and the separator, or the compiled-in directory; directories missing, files, or holding up to {files} files of six names; libraries that cannot be loaded or have no entry point','config':'all sequences of {ops} operations over 3 keys, symbolic values','convert':'all texts of up to {len} arbitrary bytes','convertbool':'the four boolean texts with any byte replaced','stdtypes':'all orders of all combinations of the integer keywords','plugins':'all sequences of {ops} operations',
'rbint':'integers of four sizes and two signs, all values','rbintbad':'32 and 64-bit integers, all values out of range, four kinds of other objects','rbfloat':'18 numbers, two sizes','rbdouble':'all 2^64 bit patterns','rbenum':'two symbols with any values, any value or symbol assigned and queried (values of one or ten digits)','rbchars':'arrays of 1-3 characters, texts of up to dimension+2 arbitrary bytes','rbchars_read':'arrays of and pointers to up to 3 arbitrary characters',
'rbarray':'arrays of 1-3 numbers, all 64-bit indexes, ranges of up to 255 elements','rbfields':'four fields, gap or not, all queries of up to 2 arbitrary bytes','rbvector':'all sequences of {ops} operations, all values','rbraw':'eight element types, 0-17 arbitrary bytes',
'rbmem':'all sequences of {ops} operations with up to four values and two buffers, kinds mask (1 array, 2 vector), every collection point; any: every order of finalisation','rbstale':'all sequences of {ops} operations, memory of others that is released and used again','rbzone':'zones of parts of values up to three levels deep, held without the value, all collection orders','rbptr':'NULL pointers, string buffers, pointers to values',
'rbreg':'all sequences of {ops} operations on three names and their derivations, every collection point between operations','rbregs':'two registries, ten groups of operations','rbwhole':'nine types, up to two elements, all contents and padding, every cut of the byte array',
'clrecord':'one record of up to {fields} members of {kinds} kinds of types, all sizes, accesses and offsets (four offsets if few)','clbases':'hierarchies of {classes} classes, with and without a member, all sizes and offsets, all accesses, virtual or not','clenum':'up to {values} enumerators with all values, six underlying types','clseq':'all sequences of {ops} declarations out of 24 to 30 (set {set})',
'clnames':'qualified names of up to {parts} parts with up to {args} template arguments, nested {depth} deep, the first {symbolic} identifiers arbitrary','clstd':'names in the inline namespaces of two standard libraries','clmeta':'records and enumerations with up to three bases or a comment of {blocks} blocks','clopaque':'five kinds of opaques, known or not, all sizes and offsets',
'rbmeta':'all sequences of {ops} operations on three metadata objects','rbnames':'all names of up to {len} arbitrary bytes','rblayout':'13 types, all flags','rbio':'up to two options of five kinds, succeeding and failing importers and exporters',
}
import os as _os
if _os.environ.get('ADHOC'): BT.update({k:k for k in _os.environ['ADHOC'].split()})
class _D(dict):
    def __missing__(self,k): return dict(fields=1,kinds=15,classes=2,values=2,set=0,parts=2,args=2,symbolic=1,blocks=1,depth=2,maxdim=2,maxfields=2,maxcount=2,maxlen=12,ops=3,len=3,n=3).get(k,'default')
def J(h,entry,bounds,cover=(),q=120,t=900,tiers=('quick','thorough'),steps=40000000,alloc=1<<20,samples=6,weight=1,**params):
    if steps>40000000 and alloc==1<<20: alloc=1<<25
    b=BT[entry].format_map(_D(params)); extra=','.join('%s=%s'%(k,hex(v) if v>99 else v) for k,v in params.items())
    return dict(h=h,entry=entry,params=params,time=dict(quick=q,thorough=t),steps=steps,alloc=alloc,samples=samples,weight=weight,cover=list(cover),bounds=b+(' [%s]'%extra if extra else ''),tiers=tiers)
PROPS={

'V01':dict(jobs=[J('value_io.cc','roundtrip','x',cover=['roundtrip'],depth=2,leaf=m('U8 I16 I32 ENUM'),dirty=1),
 J('value_io.cc','roundtrip','x',cover=['roundtrip'],depth=2,leaf=m('U8 I32'),dimset=2,maxcount=1000,narrow=1,dirty=1,minfields=2,steps=400000000),
 J('value_io.cc','roundtrip','x',cover=['roundtrip'],depth=2,leaf=m('U8 I32'),gapset=1,narrow=1,minfields=2,maxcount=1),J('value_io.cc','roundtrip','x',cover=['roundtrip'],depth=1,leaf=m('U8 I32 STR'),gapset=2,top=m('COMP'),minfields=2,maxcount=1)]
 +[J('value_io.cc','roundtrip','x',cover=['roundtrip'],depth=3,top=m(k),leaf=m('U8 I32'),maxcount=1,maxdim=2,maxfields=2,minfields=2,narrow=1,inner=m('ARR VEC COMP STR')) for k in ('COMP','VEC','ARR')]
 +[J('value_io.cc','modes','x',cover=['modes','packed'],depth=2),J('value_io.cc','modes','x',cover=['modes','packed'],depth=3,leaf=m('U8 I32'),inner=m('ARR COMP'),narrow=1,minfields=2,dimset=1),J('value_io.cc','sinks','x',cover=['sinks'],depth=2),J('value_io.cc','sinks','x',cover=['sinks'],depth=2,dimset=2,maxcount=1000,leaf=m('U8 I32'),narrow=1,minfields=2,steps=400000000)]),
'V02':dict(jobs=[J('value_io.cc','untrusted','x',cover=['accepted','rejected'],depth=1,alloc=192,vecsrc=v,dirty=d,maxcount=1) for v in (0,1) for d in (0,1)]
  +[J('value_io.cc','untrusted','x',cover=['accepted','rejected'],depth=2,top=m(k),leaf=m('I32'),inner=m('VEC STR'),maxlen=l,alloc=192) for k,l in (('VEC',19),('COMP',17),('ARR',19))]
  +[J('value_io.cc','truncated','x',cover=['rejected','padded'],depth=2,vecsrc=v) for v in (0,1)]+[J('value_io.cc','huge','x',cover=['load','dump'],alloc=192)]),
'V03':dict(jobs=[J('value_io.cc','bounded','x',cover=['fits','overrun'],depth=2),J('value_io.cc','bounded','x',cover=['fits','overrun'],depth=1,maxcount=1000),J('value_io.cc','fdfail','x',cover=['failed','complete'],depth=2,maxcount=1),J('value_io.cc','filefail','x',cover=['failed','complete'],depth=2,maxcount=1),J('value_io.cc','huge','x',cover=['load','dump'],alloc=192)]),
'V04':dict(jobs=[J('layout.cc','layout','x',cover=['layout'],depth=2,top=tp,merge=mg,rmt=r,leaves=3,bits=1+mg,gbits=1+mg,xbits=6+mg) for mg in (0,1) for r in (0,1) for tp in (1,2,4)]
 +[J('layout.cc','layout','x',cover=['layout'],depth=3,top=2,merge=mg,rmt=r,narrow=1,leaves=1,bits=1,gbits=1,xbits=6) for r in (0,1) for mg in (0,1)]
 +[J('layout.cc','layout','x',cover=['layout'],depth=2,raw=1,leaves=3,bits=2,gbits=2,xbits=7), J('layout.cc','accept','x',cover=['layout','nolayout'])]+[J('layout.cc','initlayout','x',leaves=5,top=tp,cover=['init'],raw=r,bits=1,gbits=1,xbits=6,narrow=1) for r in (0,1) for tp in (1,2,4)]+[J('layout.cc','initlayout','x',leaves=6,top=2,cover=['init'],raw=r,bits=1,gbits=1,xbits=6) for r in (0,1)]),
'V05':dict(jobs=[J('value_ops.cc','init','x',cover=['init'],lay=l) for l in (0,1)]+[J('value_ops.cc','initenum','x',cover=['init']),J('value_ops.cc','init','x',cover=['init'],leaf=m('U8 ENUM STR'),dimset=2,maxcount=1000,steps=400000000,narrow=1,minfields=2),J('value_ops.cc','init','x',cover=['init'],top=m('COMP'),minfields=2,maxcount=1,gapset=2,depth=1),J('value_ops.cc','copy','x',cover=['copy'],top=m('COMP'),minfields=2,maxcount=1,gapset=2,depth=1),J('value_ops.cc','compare','x',cover=['equal','different'],top=m('COMP'),minfields=2,maxcount=1,gapset=2,depth=1)]+[J('value_ops.cc','zero','x',cover=['zero'],maxcount=1),J('value_ops.cc','copy','x',cover=['copy'],maxcount=1),J('value_ops.cc','compare','x',cover=['equal','different'],maxcount=1,leaf=m('I16 ENUM STR PTR')),
 J('value_ops.cc','copy','x',cover=['copy'],depth=2,maxcount=1000,dimset=2,leaf=m('I16'),steps=400000000),J('value_ops.cc','zero','x',cover=['zero'],depth=2,maxcount=1000,dimset=2,leaf=m('I16')),J('value_ops.cc','comparebig','x',cover=['equal','different'],dimset=2,leaf=m('I16 STR'),narrow=1,steps=400000000,alloc=1<<25)]),
'V06':dict(jobs=[J('value_ops.cc','vector','x',cover=['vector','push','erase','set','delete_if','copy','copyback','equal','push own'],elem=e,ops=2) for e in range(14) if e!=11]+[J('value_ops.cc','vector','x',cover=['vector'],elem=11,ops=1,start=1),J('value_ops.cc','mismatch','x',cover=['taken','refused']),J('value_ops.cc','string','x',cover=["string"],ops=4)]),
'V07':dict(jobs=[J('swap.cc','compiled','x',cover=['swap']),J('swap.cc','compiled','x',cover=['swap'],depth=2,dimset=2,narrow=1,minfields=2,leaf=m('U8 I16 I64'),steps=400000000),J('swap.cc','compiled','x',cover=['swap'],depth=2,gapset=1,narrow=1,minfields=2,leaf=m('U8 I16 I64')),J('swap.cc','compiled','x',cover=['swap'],depth=1,gapset=2,top=m('COMP'),minfields=2,leaf=m('U8 I16'),steps=400000000),J('swap.cc','visitor','x',cover=['swap'],maxdim=1),J('swap.cc','visitor','x',cover=['swap'],dimset=2,maxcount=1000,leaf=m('U8 I16 I64'),narrow=1,minfields=2,steps=400000000),J('swap.cc','unsupported','x',cover=['refused','accepted'])]
 +[J('swap.cc','compiled','x',cover=['swap'],depth=3,top=m(k),dimset=1,leaf=m('U8 I16'),minfields=2,narrow=1) for k in ('ARR','COMP')]),
'V08':dict(jobs=[J('value_misc.cc','visit','x',cover=['visit']),J('value_misc.cc','visit','x',cover=['visit'],dimset=2,narrow=1,minfields=2,maxcount=1000,leaf=m('U8 ENUM'),steps=400000000),J('value_misc.cc','visit','x',cover=['visit'],gapset=1,narrow=1,minfields=2,maxcount=1,leaf=m('U8 I64')),J('value_misc.cc','visit','x',cover=['visit'],depth=1,top=m('COMP'),gapset=2,minfields=2,leaf=m('U8 I64')),J('value_misc.cc','visit','x',cover=['visit'],depth=3,leaf=m('I16'),dimset=1,minfields=2,maxcount=1,narrow=1),J('value_misc.cc','offsets','x',cover=['offsets']),J('value_misc.cc','cast','x',cover=['cast']),J('value_misc.cc','getfield','x',cover=['found','notfound'])]),
'V09':dict(jobs=[J('value_misc.cc','enums','x',cover=['enum','conflict','again'],ops=3)]),
'V10':dict(jobs=[J('value_misc.cc','csv','x',cover=['csv'],num=n,leaf=m('U8 I16 I32 ENUM PTR OPQ F64')) for n in (0,1)]+[J('value_misc.cc','csv','x',cover=['csv'],depth=0,full=1,leaf=m(k)) for k in ('U8','I16','ENUM')]+[J('value_misc.cc','csv','x',cover=['csv'],depth=2,dimset=2,leaf=m('U8')),J('value_misc.cc','csv','x',cover=['csv'],depth=3,dimset=1,minfields=2,leaf=m('I32 PTR'))]+[J('value_misc.cc','csv','x',cover=['csv'],null=1,wrap=w,leaf=m('U8 PTR')) for w in (0,1)]),

'T01':dict(jobs=[J('types.cc','samebasic','x',cover=['same','different']),
 J('types.cc','same','refs',cover=['same','different'],k0=FK('NUM P0 P1 P2'),k2=FK('NUM P0 P1'),nf=2,nf2=1,off=0),
 J('types.cc','same','kinds',cover=['same','different'],k0=FK('NUM ENUM OPQ ARRN ARRE VECN VECE STR C2 AP2 VC2 AC2'),k2=FK('NUM P2'),nf=1,nf2=1,off=1),
 J('types.cc','same','two fields',cover=['same','different'],k0=FK('NUM ENUM C2 P2'),k2=FK('NUM'),nf=2,nf2=1,off=1)]),
'T02':dict(jobs=[
 J('types.cc','same','refs',cover=['castable','notcastable'],k0=FK('NUM P0 P1 P2'),k2=FK('NUM P0 P1'),nf=2,nf2=1,off=0,cast=1),
 J('types.cc','same','kinds',cover=['castable','notcastable','castnotsame'],k0=FK('NUM ENUM OPQ ARRN ARRE VECN VECE STR C2 AP2 VC2 AC2'),k2=FK('ENUM P2'),nf=1,nf2=1,off=1,cast=1),
 J('types.cc','same','two fields',cover=['castable','notcastable','castnotsame'],k0=FK('ENUM VECE ARRE C2 AC2'),k2=FK('ENUM'),nf=2,nf2=1,off=0,cast=1)]),
'T03':dict(jobs=[J('types.cc','sizes','x',cover=['sizes'])]),

'T04':dict(jobs=[J('registry.cc','resize','x',cover=['resize','explicit']),J('registry.cc','resizeunknown','x',cover=['known','unknown'])]),
'R02':dict(jobs=[J('registry.cc','remove','x',cover=['remove'],n=4)]),

'R01':dict(jobs=[J('registry.cc','names','x',cover=['names','add','dup','alias','remove','ns'],ops=3,uni=4,kinds=4),J('registry.cc','names','x',cover=['names','remove','ns','removealias','clearaliases'],ops=4,uni=3,kinds=6,nns=3),J('registry.cc','names','x',cover=['names'],ops=4,uni=5,kinds=1,ns=3),J('registry.cc','names','x',cover=['names'],ops=4,uni=3,kinds=3,ns=2)]),
'R10':dict(jobs=[J('registry.cc','derived','x',cover=['derived','alias','build','vector'],ops=4),J('registry.cc','derivedremove','x',cover=['alias','build','vector','remove','derivedremove'],ops=4),J('registry.cc','createcontainers','x',cover=['create','string','created','vector','refused'],ops=5)]),

'R03':dict(jobs=[J('registry.cc','merge','x',cover=['merged','conflict'],n=3,kinds=0x0d,dkinds=0x0d),J('registry.cc','merge','x',cover=['merged','conflict'],n=2,kinds=0x7f,alias=1),J('registry.cc','merge','x',cover=['merged'],n=3,kinds=0x71,dkinds=0x21,attrs=1)]),
'R04':dict(jobs=[J('registry.cc','minimal','x',cover=['minimal'],n=3,attrs=1),J('registry.cc','minimal','x',cover=['minimal'],n=4,kinds=0x0d,attrs=1),J('registry.cc','minimalauto','x',cover=['minimal'],n=3,kinds=0x3d,attrs=1)]),

'R05':dict(jobs=[J('names.cc','order','x',cover=['less','notless'],len=4),J('names.cc','ordertrans','x',cover=['trans'],len=3),J('names.cc','ranges','x',cover=['range','empty'],n=5,len=3)]),
'R07':dict(jobs=[J('names.cc','build','x',cover=['derived','plain','refused','nested'],len=3),J('names.cc','build','x',cover=['derived','nested'],len=4,min=4,prebuilt=1),J('names.cc','buildany','x',cover=['plain','refused'],len=3),J('names.cc','buildmods','x',cover=['derived','refused','nested'],mods=3)]),
'R08':dict(jobs=[J('names.cc','typenames','x',cover=['valid','invalid'],len=4),J('names.cc','typenamesany','x',cover=['valid','invalid'],len=3),J('names.cc','typenamestpl','x',cover=['valid','invalid'],len=3),J('names.cc','typenamestpl','x',cover=['valid','invalid'],len=4,tiers=('thorough',))]+[J('names.cc','typenamesfix','x',cover=['valid','invalid'],lo=l,hi=l+4) for l in (0,4,8)]+[J('names.cc','namespaces','x',cover=['valid','invalid'],len=3)]),
'R09':dict(jobs=[J('names.cc','minpath','x',cover=['absolute','relative','same'],depth=3),J('names.cc','minpath','x',cover=['absolute','relative','same'],depth=4,toklen=1),J('names.cc','minpath','x',cover=['absolute','relative','same'],depth=5,toklen=1,tiers=('thorough',))]),

'L01':dict(jobs=[J('tlb.cc','tlb','x',cover=['tlb'],n=2,maxsize=12,maxoff=12),J('tlb.cc','tlb','x',cover=['tlb'],n=3,kinds=0x3f1),J('tlb.cc','tlb','x',cover=['tlb'],n=1,meta=1,sids=1),J('tlb.cc','tlb','x',cover=['tlb'],n=2,meta=1,kinds=0x1f8),J('tlb.cc','tlb','x',cover=['tlb'],n=2,sids=1,csize=1)]+[J('tlb.cc','tlbtext','x',cover=['text'],pos=p,len=3 if p==2 else 2) for p in range(10)]+[J('tlb.cc','tlbtext','x',cover=['text'],pos=p,len=2,tpl=1) for p in range(4,10)]+[J('tlb.cc','tlbtext','x',cover=['text'],pos=0,len=2,sid=1)]),

'L02':dict(jobs=[J('tlb.cc','tlbmutate','x',cover=['loaded','refused'],doc=d,w=2) for d in range(4)]+[J('tlb.cc','tlbattr','x',cover=['loaded','refused'],doc=d,slash=sl,suffix=1,len=3) for d in range(4) for sl in (0,1)]+[J('tlb.cc','tlbelements','x',cover=['loaded','refused'],n=4),J('tlb.cc','tlborder','x',cover=['order'],n=5)]),

'L03':dict(jobs=[J('registry.cc','exporter','x',cover=['exported','recursive'],n=3,attrs=1),J('registry.cc','exporter','x',cover=['exported'],n=4,kinds=0x55,attrs=1),J('registry.cc','exporter','x',cover=['exported'],n=3,kinds=0x15,attrs=1,sel=1)]),
'R06':dict(jobs=[J('registry.cc','regsame','x',cover=['same','different'],n=2,alias=1),J('registry.cc','regsame','x',cover=['same','different'],n=3,kinds=0x0d,attrs=1),J('registry.cc','regsame','x',cover=['same','different'],n=2,kinds=0x03,attrs=4,alias=1)]),

'L04':dict(jobs=[J('idl.cc','idl','x',cover=['exported','refused'],n=2,kinds=0xff),J('idl.cc','idlalias','x',cover=['exported','refused','clash']),J('idl.cc','idlrelative','x',cover=['relative']),J('idl.cc','idlnames','x',cover=['exported']),J('idl.cc','idlnames','x',blob=1),J('idl.cc','idlnames','x',cover=['exported','refused'],seqarr=1),J('idl.cc','idl','x',cover=['exported'],n=3,kinds=0x0f,nns=3),J('idl.cc','idl','x',cover=['exported','alias'],n=2,kinds=0x0f,nns=3,alias=1),J('idl.cc','idl','x',cover=['exported'],n=2,kinds=0x0f,nns=3,opts=4,nums=7),J('idl.cc','idl','x',cover=['exported'],n=2,kinds=0x0f,twice=1,alias=1,nns=2),J('idl.cc','idl','x',cover=['exported'],n=2,kinds=0x0f,twice=2,alias=1,nns=2),J('idl.cc','idl','x',cover=['exported'],n=2,kinds=0x0f,deep=1,nns=3),J('idl.cc','idl','x',cover=['exported','blob'],n=2,kinds=0x4f,blob=1,nns=2)]),

'C01':dict(jobs=[J('config.cc','config','x',cover=['config'],ops=3),J('config.cc','convert','x',cover=['number','notnumber','bool'],len=3),J('config.cc','convertbool','x',cover=['bool','notbool'])]),
'C02':dict(jobs=[J('config.cc','stdtypes','x',cover=['spelling','order'])]),

'C03':dict(jobs=[J('config.cc','plugins','x',cover=['lookup','gone','exporter','importer','failed'],ops=4)]),

'C04':dict(jobs=[J('config.cc','pluginpath','x',cover=['missing','other','loaded','unloadable','noentry','found'],len=4,files=1),J('config.cc','pluginpath','x',cover=['loaded','found'],len=3,files=2),J('config.cc','pluginpath','x',cover=['loaded','found'],len=5,files=2,tiers=('thorough',))]),

'B01':dict(jobs=[J('rb.cc','rbint','x',cover=['read']),J('rb.cc','rbintbad','x',cover=['big','negative','refused']),J('rb.cc','rbfloat','x',cover=['read']),J('rb.cc','rbdouble','x',cover=['read']),J('rb.cc','rbenum','x',cover=['set','refused']),J('rb.cc','rbchars','x',cover=['fits','long']),J('rb.cc','rbchars_read','x',cover=['array','pointer'])]),
'B02':dict(jobs=[J('rb.cc','rbarray','x',cover=['get','out','range','rangeout','set','each']),J('rb.cc','rbfields','x',cover=['get','set','mismatch','invalid']),J('rb.cc','rbvector','x',cover=['push','set','erase','delete_if','clear','refused'],ops=3),J('rb.cc','rbvector','x',cover=['push','set','erase','delete_if','clear','refused'],ops=4,tiers=('thorough',)),J('rb.cc','rbraw','x',cover=['copied','refused'])]),
'B03':dict(jobs=[J('rb.cc','rbmem','x',cover=['new','child','drop','invalidate','cast','pointer','mark','sweep','noreg','collected'],ops=3),J('rb.cc','rbmem','x',cover=['child','drop','mark','sweep','pointer'],ops=4,kinds=1,any=0),J('rb.cc','rbmem','x',cover=['sweep'],ops=4,tiers=('thorough',)),J('rb.cc','rbstale','x',cover=['wrap','child','drop','stale','reuse','again','dropown','gc'],ops=5),J('rb.cc','rbstale','x',cover=['wrap','drop','stale','again','dropown','dropvector','gc'],ops=4,buffer=1),J('rb.cc','rbstale','x',cover=['stale'],ops=6,buffer=1,any=0,tiers=('thorough',)),J('rb.cc','rbstale','x',cover=['stale'],ops=6,any=0,tiers=('thorough',)),J('rb.cc','rbptr','x',cover=['null','string','pointer']),J('rb.cc','rbzone','x',cover=['invalidate','collected'])]),
'B04':dict(jobs=[J('rb.cc','rbreg','x',cover=['compound','duplicate','build','alias','remove_alias','clear_aliases','remove','reverse_depends','gc','kept'],ops=3),J('rb.cc','rbreg','x',cover=['compound','duplicate'],ops=2,wide=1),J('rb.cc','rbreg','x',cover=['remove'],ops=4,tiers=('thorough',)),J('rb.cc','rbregs','x',cover=['conflict','merge','minimal','minimal2','resize','foreign','bad','container','query'])]),
'B05':dict(jobs=[J('rb.cc','rbwhole','x',cover=['roundtrip','refused','copy','other','mismatch','swap','swap!','zero'])]),
'B06':dict(jobs=[J('rb.cc','rbmeta','x',cover=['add','delete','clear','noreg'],ops=2),J('rb.cc','rbmeta','x',cover=['noreg'],ops=3,tiers=('thorough',)),J('rb.cc','rbnames','x',cover=['names'],len=5),J('rb.cc','rblayout','x',cover=['layout','nolayout','container','init','csv']),J('rb.cc','rbio','x',cover=['export','nested','import','failed','xml','standard'])]),
'I01':dict(jobs=[J('cl.cc','clrecord','x',cover=['imported','unsupported','unaligned','anonymous'],fields=1,kinds=15),J('cl.cc','clrecord','x',cover=['imported','unsupported','unaligned'],fields=1,kinds=15,names=1,spaced=1),J('cl.cc','clrecord','x',cover=['imported','unsupported','unaligned'],fields=2,kinds=2,few=1),J('cl.cc','clrecord','x',cover=['imported','unsupported'],fields=3,kinds=1,few=1,tiers=('thorough',)),J('cl.cc','clrecord','x',cover=['imported','unsupported'],fields=2,kinds=15,few=1,t=900,tiers=('thorough',)),J('cl.cc','clrecord','x',cover=['imported','unsupported'],fields=2,kinds=15,t=1200,tiers=('thorough',)),J('cl.cc','clbases','x',cover=['imported','unsupported','inherited','duplicate','virtual']),J('cl.cc','clbases','x',cover=['imported','unsupported','inherited','duplicate','virtual'],classes=3),J('cl.cc','clbases','x',cover=['inherited'],classes=3,deep=1,t=1500,tiers=('thorough',)),J('cl.cc','clenum','x',cover=['imported','unsupported'],values=2),J('cl.cc','clenum','x',cover=['imported','unsupported'],values=3,tiers=('thorough',))]
 +[J('cl.cc','clseq','x',cover=['imported']+(['unsupported'] if s==2 else []),set=s,ops=3) for s in (0,1,2)]+[J('cl.cc','clseq','x',cover=['imported'],set=s,ops=4,t=1500,tiers=('thorough',)) for s in (0,2)]),
'I02':dict(jobs=[J('cl.cc','clnames','x',depth=1,args=1),J('cl.cc','clnames','x',depth=1,parts=1,symbolic=2),J('cl.cc','clnames','x',parts=1,symbolic=0,depth=2,args=1),J('cl.cc','clnames','x',depth=1,args=2,tiers=('thorough',),t=1500),J('cl.cc','clnames','x',depth=1,args=3,parts=1,symbolic=0,exact=1),J('cl.cc','clnames','x',parts=3,depth=0,symbolic=3),J('cl.cc','clstd','x')]),
'I03':dict(jobs=[J('cl.cc','clmeta','x',cover=['doc','bases']),J('cl.cc','clmeta','x',cover=['doc'],blocks=2,tiers=('thorough',)),J('cl.cc','clopaque','x',cover=['opaque','typedef','unknown','doc'])]),
}
