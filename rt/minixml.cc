// Model of the libxml2 entry points used by lang/tlb/import.cc (bitcode side only; the replay uses the real libxml2).
// Non-validating parser for the XML subset without DTDs: elements, attributes, character data, comments, PIs, CDATA,
// the predefined entities and character references, with the well-formedness constraints libxml2 enforces.
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
namespace {
// all memory of the current document (there is never more than one)
void** g_pool=0;
void* palloc(size_t n){ void**h=(void**)malloc(16+n); h[0]=g_pool; g_pool=h; return h+2; }
void pfree(){ while(g_pool){ void**h=g_pool; g_pool=(void**)h[0]; free(h); } }
struct Attr { std::string name, value; };
struct P { const unsigned char*s; size_t n,i; bool err; int depth;
  P(const char*b,size_t l):s((const unsigned char*)b),n(l),i(0),err(false),depth(0){}
  int c(){ return i<n?s[i]:-1; } bool lit(const char*t){ size_t k=strlen(t); if(n-i<k) return false; for(size_t j=0;j<k;j++) if(s[i+j]!=(unsigned char)t[j]) return false; i+=k; return true; }
  static bool ws(int x){ return x==' '||x=='\t'||x=='\n'||x=='\r'; }
  void skip(){ while(ws(c())) i++; }
  static bool nstart(int x){ return (x>='a'&&x<='z')||(x>='A'&&x<='Z')||x=='_'||x==':'||x>=0x80; }
  static bool nchar(int x){ return nstart(x)||(x>='0'&&x<='9')||x=='-'||x=='.'; }
  std::string name(){ std::string r; if(!nstart(c())){ err=true; return r; } while(i<n&&nchar(c())) r+=(char)s[i++]; return r; }
  // one character of data (validates UTF-8 and the Char production)
  bool chr(std::string&o){ int x=c(); if(x<0){ err=true; return false; } if(x<0x20&&x!='\t'&&x!='\n'&&x!='\r'){ err=true; return false; }
    if(x<0x80){ o+=(char)x; i++; return true; }
    int k= (x&0xE0)==0xC0?1:(x&0xF0)==0xE0?2:(x&0xF8)==0xF0?3:0; if(!k||x==0xC0||x==0xC1||x>0xF4){ err=true; return false; } if(i+k>=n+0u&&i+k>n-1){ err=true; return false; }
    unsigned v= k==1?x&0x1F:k==2?x&0x0F:x&7; for(int j=1;j<=k;j++){ int y=s[i+j]; if((y&0xC0)!=0x80){ err=true; return false; } v=v<<6|(y&0x3F); }
    if((k==2&&v<0x800)||(k==3&&v<0x10000)||(v>=0xD800&&v<0xE000)||v==0xFFFE||v==0xFFFF||v>0x10FFFF){ err=true; return false; }
    for(int j=0;j<=k;j++) o+=(char)s[i+j]; i+=k+1; return true; }
  void utf8(std::string&o,unsigned v){ if(v<0x80) o+=(char)v; else if(v<0x800){ o+=(char)(0xC0|v>>6); o+=(char)(0x80|(v&63)); } else if(v<0x10000){ o+=(char)(0xE0|v>>12); o+=(char)(0x80|(v>>6&63)); o+=(char)(0x80|(v&63)); } else { o+=(char)(0xF0|v>>18); o+=(char)(0x80|(v>>12&63)); o+=(char)(0x80|(v>>6&63)); o+=(char)(0x80|(v&63)); } }
  bool ref(std::string&o){ // after '&'
    if(lit("lt;")){ o+='<'; return true; } if(lit("gt;")){ o+='>'; return true; } if(lit("amp;")){ o+='&'; return true; } if(lit("quot;")){ o+='"'; return true; } if(lit("apos;")){ o+='\''; return true; }
    if(lit("#")){ unsigned v=0; bool any=false; bool hex=lit("x"); for(;;){ int x=c(); int d; if(x>='0'&&x<='9') d=x-'0'; else if(hex&&((x|32)>='a'&&(x|32)<='f')) d=(x|32)-'a'+10; else break; any=true; v=v*(hex?16:10)+d; if(v>0x10FFFF) v=0x110000; i++; } if(!any||!lit(";")){ err=true; return false; }
      if((v<0x20&&v!=9&&v!=10&&v!=13)||(v>=0xD800&&v<0xE000)||v==0xFFFE||v==0xFFFF||v>0x10FFFF){ err=true; return false; } utf8(o,v); return true; }
    err=true; return false; }
  bool comment(){ if(!lit("<!--")) return false; std::string d; while(!err){ if(lit("-->")) return true; if(n-i>=2&&s[i]=='-'&&s[i+1]=='-'){ err=true; return true; } chr(d); } return true; }
  bool pi(){ if(!lit("<?")) return false; std::string nm=name(); if(err) return true; if(nm.size()==3&&(nm[0]|32)=='x'&&(nm[1]|32)=='m'&&(nm[2]|32)=='l'){ err=true; return true; } if(lit("?>")) return true; if(!ws(c())){ err=true; return true; } std::string d; while(!err){ if(lit("?>")) return true; chr(d); } return true; }
  void misc(){ for(;;){ skip(); if(err||i>=n) return; if(comment()) continue; if(n-i>=2&&s[i]=='<'&&s[i+1]=='?'){ pi(); continue; } return; } }
  static xmlChar* dup(const std::string&x){ xmlChar*r=(xmlChar*)palloc(x.size()+1); memcpy(r,x.data(),x.size()); r[x.size()]=0; return r; }
  static xmlNode* mk(xmlElementType t,const std::string&nm){ xmlNode*x=(xmlNode*)palloc(sizeof(xmlNode)); memset(x,0,sizeof *x); x->type=t; x->name=dup(nm); return x; }
  static void app(xmlNode*p,xmlNode*c){ c->parent=p; if(!p->children){ p->children=p->last=c; } else { c->prev=p->last; p->last->next=c; p->last=c; } }
  xmlNode* element(){ if(!lit("<")){ err=true; return 0; } if(++depth>200){ err=true; return 0; } std::string nm=name(); if(err) return 0; xmlNode*e=mk(XML_ELEMENT_NODE,nm); xmlAttr*lastA=0;
    for(;;){ bool sp=ws(c()); skip(); if(lit("/>")){ depth--; return e; } if(lit(">")) break; if(!sp){ err=true; return e; }
      std::string an=name(); if(err) return e; skip(); if(!lit("=")){ err=true; return e; } skip(); int q=c(); if(q!='"'&&q!='\''){ err=true; return e; } i++; std::string v;
      while(!err&&c()!=q){ int x=c(); if(x=='<'){ err=true; } else if(x=='&'){ i++; ref(v); } else if(ws(x)){ if(x=='\r'&&i+1<n&&s[i+1]=='\n') i++; v+=' '; i++; } else chr(v); } if(err) return e; i++;
      for(xmlAttr*a=e->properties;a;a=a->next) if(!strcmp((const char*)a->name,an.c_str())){ err=true; return e; }
      xmlAttr*a=(xmlAttr*)palloc(sizeof(xmlAttr)); memset(a,0,sizeof *a); a->type=XML_ATTRIBUTE_NODE; a->name=dup(an); a->children=(xmlNode*)dup(v); if(lastA) lastA->next=a; else e->properties=a; lastA=a; }
    std::string text; auto flush=[&]{ if(!text.empty()){ xmlNode*t=mk(XML_TEXT_NODE,"text"); t->content=dup(text); app(e,t); text.clear(); } };
    while(!err){ int x=c(); if(x<0){ err=true; break; }
      if(x=='<'){ if(lit("</")){ flush(); std::string en=name(); skip(); if(err||en!=nm||!lit(">")) err=true; depth--; return e; }
        if(lit("<![CDATA[")){ flush(); std::string d; while(!err&&!lit("]]>")) { if(c()=='\r'){ i++; if(c()!='\n') d+='\n'; } else chr(d); } if(err) break; { xmlNode*t=mk(XML_CDATA_SECTION_NODE,"cdata"); t->content=dup(d); app(e,t);} continue; }
        if(n-i>=4&&s[i+1]=='!'){ flush(); if(!comment()) { err=true; break; } if(!err) app(e,mk(XML_COMMENT_NODE,"comment")); continue; }
        if(n-i>=2&&s[i+1]=='?'){ flush(); size_t st=i; pi(); if(!err){ P q((const char*)s,n); q.i=st+2; app(e,mk(XML_PI_NODE,q.name())); } continue; }
        flush(); xmlNode*ch=element(); if(ch) app(e,ch); continue; }
      if(x=='&'){ i++; ref(text); continue; }
      if(x==']'&&n-i>=3&&s[i+1]==']'&&s[i+2]=='>'){ err=true; break; }
      if(x=='\r'){ i++; if(c()!='\n') text+='\n'; continue; }
      chr(text); }
    return e; } };
}
extern "C" {
xmlDocPtr xmlParseMemory(const char*b,int l){ if(!b||l<4) return 0; P p(b,l);
  if(p.lit("<?xml")){ if(!P::ws(p.c())) return 0; std::string d; while(!p.err&&!p.lit("?>")) p.chr(d); }
  if(p.err){ pfree(); return 0; } p.misc(); xmlNode*r=p.err?0:p.element(); if(!p.err){ p.misc(); if(p.i<p.n) p.err=true; } if(p.err||!r){ pfree(); return 0; }
  xmlDocPtr d=(xmlDocPtr)palloc(sizeof(xmlDoc)); memset(d,0,sizeof *d); d->children=r; return d; }
xmlNodePtr xmlDocGetRootElement(const xmlDoc*d){ return d?d->children:0; }
void xmlFreeDoc(xmlDocPtr d){ if(d) pfree(); }
static void my_xmlFree(void*p){ free(p); }
xmlFreeFunc xmlFree = my_xmlFree;
xmlNodePtr xmlFirstElementChild(xmlNodePtr p){ if(!p) return 0; xmlNodePtr c=p->children; while(c&&c->type!=XML_ELEMENT_NODE) c=c->next; return c; }
xmlNodePtr xmlNextElementSibling(xmlNodePtr c){ if(!c) return 0; c=c->next; while(c&&c->type!=XML_ELEMENT_NODE) c=c->next; return c; }
xmlChar* xmlGetProp(const xmlNode*n,const xmlChar*nm){ if(!n||n->type!=XML_ELEMENT_NODE) return 0; for(xmlAttr*a=n->properties;a;a=a->next) if(!strcmp((const char*)a->name,(const char*)nm)) return (xmlChar*)strdup((const char*)a->children); return 0; }
int xmlStrcmp(const xmlChar*a,const xmlChar*b){ if(a==b) return 0; if(!a) return -1; if(!b) return 1; return strcmp((const char*)a,(const char*)b); }
}
