#include "common.h"
// T01/T02: type equality and castability against a greatest-fixpoint reference over a pool of structures that refer to each other
enum { F_NUM,F_ENUM,F_OPQ,F_ARRN,F_ARRE,F_VECN,F_VECE,F_STR,F_P0,F_P1,F_P2,F_C2,F_AP2,F_VC2,F_PP0,F_PP1,F_AC2,F_NKINDS };
struct FSpec { unsigned kind; uint64_t off; const char*name; uint64_t nsize,ncat,dim; int32_t ev[2]; unsigned en; unsigned opq; uint8_t vec; Type const*t; };
struct CSpec { Compound*c; uint64_t size; std::vector<FSpec> f; };
struct Pool {
  Types T; CSpec c[3];
  Numeric* num(FSpec&s){ s.nsize=sym_range("nsize",1,2); s.ncat=sym_range("ncat",Numeric::SInt,Numeric::Float); return T.own(new Numeric("/n",s.nsize,(Numeric::NumericCategory)s.ncat)); }
  Enum* en(FSpec&s){ s.en=1+sym_choice("nsym",2); Enum*e=T.own(new Enum(T.uname("E"))); static const char*nm[]={"X","Y"}; for(unsigned i=0;i<s.en;i++){ s.ev[i]=(int32_t)sym_u8("ev"); e->add(nm[i],s.ev[i]); } return e; }
  Type const& mk(FSpec&s){
    switch(s.kind){
      case F_NUM: return *num(s);
      case F_ENUM: return *en(s);
      case F_OPQ: s.opq=sym_choice("opq",2); s.nsize=sym_range("nsize",1,2); return *T.own(new OpaqueType(s.opq?"/OpA":"/OpB",s.nsize));
      case F_ARRN:{ Numeric*n=num(s); s.dim=sym_range("dim",0,2); return *T.own(new Array(*n,__sym_concretize(s.dim))); }
      case F_ARRE:{ Enum*e=en(s); s.dim=1; return *T.arr(*e,1); }
      case F_VECN:{ FSpec d; Numeric*n=num(s); s.vec=0; return *T.vec(*n); }
      case F_VECE:{ Enum*e=en(s); return *T.vec(*e); }
      case F_STR: return *T.str();
      case F_P0: return *T.ptr(*c[0].c); case F_P1: return *T.ptr(*c[1].c); case F_P2: return *T.ptr(*c[2].c);
      case F_C2: return *c[2].c; case F_AC2: return *T.arr(*c[2].c,1);
      case F_AP2: return *T.arr(*T.ptr(*c[2].c),1);
      case F_VC2: return *T.vec(*c[2].c);
      case F_PP0: return *T.ptr(*T.ptr(*c[0].c)); case F_PP1: return *T.ptr(*T.ptr(*c[1].c));
    }
    return *T.u8();
  }
  void build(uint64_t k0,uint64_t k2,unsigned nf,unsigned nf2,bool symoff){
    for(int i=0;i<3;i++){ c[i].c=T.comp(); }
    static const char*nm[]={"a","b","c"};
    for(int i=2;i>=0;i--){
      uint64_t km= i==2?k2:k0; unsigned ks[F_NKINDS],n=0; for(unsigned b=0;b<F_NKINDS;b++) if(km>>b&1) ks[n++]=b;
      unsigned cnt= i==2?nf2:nf; if(i==2) c[2].c->setSize(8);
      for(unsigned k=0;k<cnt;k++){ FSpec s; memset(&s,0,sizeof s); s.kind=ks[sym_choice("kind",n)]; s.name=nm[k]; if(symoff&&k==0&&i<2) s.name=nm[sym_choice("fname",2)*2]; s.off=symoff?sym_range("off",0,2)+8*k:8*k; s.t=&mk(s); c[i].c->addField(s.name,*s.t,s.off); c[i].f.push_back(s); }
      c[i].size= symoff? 64+sym_range("size",0,1) : 64; c[i].c->setSize(c[i].size);
    }
  }
  // are the leaves/references at this field the same? e: equality assumptions, k: castability assumptions
  typedef bool M[3][3];
  bool fld(FSpec const&a,FSpec const&b,bool eq,M const&e,M const&k,int){
    if(&*a.t==&*b.t) return true;
    unsigned x=a.kind,y=b.kind;
    // normalise references: (wrapper, target)
    int wx=wrap(x),wy=wrap(y); if(wx!=wy) return false;
    bool num= (a.nsize==b.nsize)&(a.ncat==b.ncat);
    switch(wx){
      case 0: return num;
      case 1: return enu(a,b,eq);
      case 2: return (a.opq==b.opq)&(a.nsize==b.nsize);
      case 3: return (a.dim==b.dim)&num;
      case 4: return enu(a,b,true);
      case 5: return num;
      case 6: return enu(a,b,true);
      case 7: return true;
      case 8: case 9: return (eq?e:k)[tgt(x)][tgt(y)];  // pointers, structures by value
      case 10: case 11: case 12: return e[tgt(x)][tgt(y)]; // elements of arrays and containers have to be equal
      case 13: return (eq?e:k)[tgt(x)][tgt(y)];
    }
    return false;
  }
  static bool enu(FSpec const&a,FSpec const&b,bool eq){ if(eq?a.en!=b.en:a.en>b.en) return false; bool r=true; for(unsigned i=0;i<a.en;i++) r&=a.ev[i]==b.ev[i]; return r; }
  static int wrap(unsigned k){ switch(k){ case F_P0: case F_P1: case F_P2: return 8; case F_C2: return 9; case F_AP2: return 10; case F_VC2: return 11; case F_AC2: return 12; case F_PP0: case F_PP1: return 13; default: return k; } }
  static int tgt(unsigned k){ switch(k){ case F_P0: case F_PP0: return 0; case F_P1: case F_PP1: return 1; default: return 2; } }
  void fix(M&e,M&k){
    for(int i=0;i<3;i++) for(int j=0;j<3;j++) e[i][j]=k[i][j]=true;
    for(int it=0;it<10;it++){ M e2,k2; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ bool r=true,q=true; if(i!=j){ r=c[i].size==c[j].size; if(c[i].f.size()!=c[j].f.size()) r=q=false; else for(size_t f=0;f<c[i].f.size();f++){ FSpec const&x=c[i].f[f],&y=c[j].f[f]; bool h=(x.off==y.off)&(strcmp(x.name,y.name)==0); r&=h; r&=fld(x,y,true,e,k,0); q&=h; q&=fld(x,y,false,e,k,0); } } e2[i][j]=r; k2[i][j]=q; } memcpy(e,e2,sizeof e); memcpy(k,k2,sizeof k); }
  }
};
HARNESS(same){
  Pool P; uint64_t k0=__sym_param("k0",0x3f),k2=__sym_param("k2",1); P.build(k0,k2,(unsigned)__sym_param("nf",2),(unsigned)__sym_param("nf2",1),__sym_param("off",1)!=0);
  Pool::M e,k; P.fix(e,k); bool cast=__sym_param("cast",0)!=0; Type const&a=*P.c[0].c,&b=*P.c[1].c,&d=*P.c[2].c;
  if(!cast){
    bool s=a.isSame(b); CHECK(s==e[0][1],"two types are the same exactly if they have the same definition"); CHECK(b.isSame(a)==e[1][0],"sameness is symmetric"); CHECK(a.isSame(a),"a type is the same as itself"); CHECK(a.isSame(d)==e[0][2],"two types are the same exactly if they have the same definition"); 
    if(s) COVER("same"); else COVER("different"); __sym_observe(s);
  } else {
    bool s=a.canCastTo(b); CHECK(s==k[0][1],"a type can be cast to another exactly if their definitions are compatible"); CHECK(b.canCastTo(a)==k[1][0],"a type can be cast to another exactly if their definitions are compatible"); CHECK(a.canCastTo(a),"a type can be cast to itself"); CHECK(!a.isSame(b)||s,"a type can be cast to one that is the same");
    if(s) COVER("castable"); else COVER("notcastable"); if(s&&!e[0][1]) COVER("castnotsame"); __sym_observe(s);
  }
}
// another kind of container, with the same size
struct OtherVector : public Vector { OtherVector(Type const&t):Vector(t){} static Container const& factory(Registry&r,std::list<Type const*> const&on){ throw std::runtime_error("not used"); } ContainerFactory getFactory() const { return factory; } };
// T01: basic types against each other: category by category, symbolic attributes
HARNESS(samebasic){
  Types T; Type const*t[2]; int cat[2]; uint64_t sz[2],x[2]; Numeric*n8=T.u8(),*n16=T.u16();
  for(int i=0;i<2;i++){ cat[i]=sym_choice("cat",9); sz[i]=0; x[i]=0;
    switch(cat[i]){
      case 0: sz[i]=sym_range("size",0,255); x[i]=sym_range("ncat",Numeric::SInt,Numeric::Float); t[i]=T.num(i?"/m":"/n",sz[i],(Numeric::NumericCategory)x[i]); break;
      case 1:{ x[i]=sym_u32("ev"); Enum*e=T.own(new Enum(T.uname("E"))); e->add("X",(int)x[i]); t[i]=e; sz[i]=4; break; }
      case 2: sz[i]=sym_range("size",0,255); x[i]=sym_choice("oname",2); t[i]=T.own(new OpaqueType(x[i]?"/Oa":"/Ob",sz[i])); break;
      case 3: x[i]=sym_choice("elem",2); sz[i]=8; t[i]=T.ptr(x[i]?*n8:*n16); break;
      case 4:{ unsigned el=sym_choice("elem",2); uint64_t d=sym_choice("dim",4); x[i]=el*16+d; sz[i]=d*(el?1:2); t[i]=T.arr(el?*n8:*n16,d); break; }
      case 5: x[i]=sym_choice("elem",2); sz[i]=24; t[i]=T.vec(x[i]?*n8:*n16); break;
      case 8: x[i]=sym_choice("elem",2); sz[i]=24; t[i]=T.own(new OtherVector(x[i]?*n8:*n16)); break;
      case 6: sz[i]=32; t[i]=T.str(); break;
      case 7:{ Compound*c=T.comp(); if(sym_bool("empty")){ c->setSize(sz[i]=sym_range("size",0,255)); } else { x[i]=1; c->addField("f",*n8,0); sz[i]=1; } t[i]=c; break; }
    } }
  bool want= (cat[0]==cat[1])&&((sz[0]==sz[1])&(x[0]==x[1])); bool s=t[0]->isSame(*t[1]); CHECK(s==want,"two types are the same exactly if they have the same definition"); CHECK(t[1]->isSame(*t[0])==want,"sameness is symmetric");
  bool c=t[0]->canCastTo(*t[1]); bool wc= cat[0]==cat[1]&&((x[0]==x[1])&((sz[0]==sz[1])|(cat[0]==7))); CHECK(c==wc,"a type can be cast to another exactly if their definitions are compatible");
  if(s) COVER("same"); else COVER("different"); __sym_observe(s*2+c);
}
// T03: sizes, names, dependencies and trailing padding of composed types
HARNESS(sizes){
  Types T; uint64_t s1=sym_range("s1",1,255),s2=sym_range("s2",1,255); Numeric*a=T.num("/a",s1,Numeric::UInt),*b=T.num("/ns/b",s2,Numeric::SInt);
  uint64_t d=sym_choice("dim",12); Array*ar=T.arr(*a,d); CHECK(ar->getSize()==d*s1,"an array has the size of its elements"); CHECK(ar->getDimension()==d&&&ar->getIndirection()==a,"an array knows its element type and dimension"); { char nm[16]; snprintf(nm,16,"/a[%d]",(int)d); CHECK(ar->getName()==nm,"an array is named after its element type"); }
  Array*ar2=T.arr(*ar,3); CHECK(ar2->getSize()==3*d*s1,"an array has the size of its elements");
  Pointer*p=T.ptr(*b); CHECK(p->getSize()==sizeof(void*)&&p->getName()=="/ns/b*","pointers have pointer size"); CHECK(b->getBasename()=="b"&&b->getNamespace()=="/ns/","a type name is made of its namespace and its base name");
  Enum*e=T.en(1,2); CHECK(e->getSize()==4,"enumerations have the size of an integer");
  Compound*c=T.comp(); CHECK(c->getSize()==0,"an empty structure has no size"); unsigned n=sym_choice("n",4); uint64_t mx=0; Type const*ft[3]={a,b,ar}; uint64_t fs[3]={s1,s2,d*s1}; uint64_t of[3]; static const char*nm[]={"x","y","z"}; std::set<Type const*> deps; unsigned perm=sym_choice("rot",3);
  for(unsigned i=0;i<n;i++){ unsigned k=(i+perm)%3; of[i]=sym_range("off",0,255); Field const&f=c->addField(nm[i],*ft[k],of[i]); CHECK(f.getOffset()==of[i]&&f.getName()==nm[i]&&&f.getType()==ft[k],"a field is what was added"); uint64_t en=of[i]+fs[k]; mx=__sym_ite(en>mx,en,mx); deps.insert(ft[k]); }
  CHECK(c->getSize()==mx,"a structure extends to the end of its last field"); CHECK(c->getTrailingPadding()==0,"a structure has no padding of its own"); CHECK(c->dependsOn()==deps,"a structure depends on the types of its fields");
  uint64_t pad=sym_range("pad",0,255); c->setSize(mx+pad); CHECK(c->getTrailingPadding()==pad,"trailing padding is what follows the last field"); CHECK(c->getSize()==mx+pad,"the size can be set");
  unsigned q=0; for(Compound::FieldList::const_iterator i=c->getFields().begin();i!=c->getFields().end();++i,++q) CHECK(i->getName()==nm[q]&&i->getOffset()==of[q],"fields are kept in order"); CHECK(q==n,"all fields are kept");
  std::set<Type const*> dp; dp.insert(b); CHECK(p->dependsOn()==dp,"a pointer depends on its target"); CHECK(a->dependsOn().empty()&&e->dependsOn().empty(),"basic types depend on nothing");
  if(n>1){ c->normalizeFieldOrder(); uint64_t last=0; q=0; for(Compound::FieldList::const_iterator i=c->getFields().begin();i!=c->getFields().end();++i,++q){ CHECK(i->getOffset()>=last,"normalised fields are in increasing offset order"); last=i->getOffset(); } CHECK(q==n,"normalising keeps all fields"); }
  COVER("sizes"); __sym_observe(c->getSize());
}
