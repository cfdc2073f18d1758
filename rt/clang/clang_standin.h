// Stand-in for the part of clang's AST that the clang importer (tools/typelib-clang-tlb-importer) reads. The nodes are made by the
// harness; names are printed as clang prints them (checked against clang 18, see DESIGN.md). The interface is that of clang 3.4, which
// the importer is written for, plus the ranges of later versions.
#ifndef VERIF_CLANG_STANDIN
#define VERIF_CLANG_STANDIN
#include <string>
#include <vector>
#include <map>
#include <ostream>
#include <stdint.h>
#include <limits.h>
#include <stdlib.h>
#include "sym.h"
#define CLANG_NEEDS(c,what) __sym_check((uint64_t)(bool)(c),"clang crashes: " what)
namespace llvm {
class StringRef { std::string s; public: StringRef(){} StringRef(const char*p):s(p){} StringRef(std::string const&p):s(p){} std::string str() const { return s; } operator std::string() const { return s; } bool empty() const { return s.empty(); } size_t size() const { return s.size(); } const char*data() const { return s.data(); } bool startswith(StringRef o) const { return s.compare(0,o.s.size(),o.s)==0; } bool operator==(StringRef o) const { return s==o.s; } bool operator!=(StringRef o) const { return s!=o.s; } };
class APInt { protected: uint64_t v; unsigned bits; public: APInt(unsigned b=64,uint64_t v=0):v(b==64?v:v&((1ull<<b)-1)),bits(b){} int64_t getSExtValue() const { return (int64_t)(v<<(64-bits))>>(64-bits); } uint64_t getZExtValue() const { return v; } uint64_t getLimitedValue(uint64_t l=~0ull) const { return v<l?v:l; } unsigned getBitWidth() const { return bits; } bool isNegative() const { return getSExtValue()<0; } };
class APSInt: public APInt { bool u; public: APSInt(unsigned b=64,uint64_t v=0,bool u=false):APInt(b,v),u(u){} bool isUnsigned() const { return u; } bool isSigned() const { return !u; } int64_t getExtValue() const { return u?(int64_t)getZExtValue():getSExtValue(); } };
template<class T> class ArrayRef { T const*b; size_t n; public: typedef T const*const_iterator; typedef const_iterator iterator; ArrayRef():b(0),n(0){} ArrayRef(std::vector<T> const&v):b(v.data()),n(v.size()){} const_iterator begin() const { return b; } const_iterator end() const { return b+n; } T const*data() const { return b; } size_t size() const { return n; } bool empty() const { return !n; } T const& operator[](size_t i) const { return b[i]; } T const& front() const { return b[0]; } T const& back() const { return b[n-1]; } };
template<class I> class iterator_range { I b,e; public: iterator_range(I b,I e):b(b),e(e){} I begin() const { return b; } I end() const { return e; } bool empty() const { return b==e; } };
template<class T,class U> inline bool isa(U const*u){ return T::classof(u); }
template<class T,class U> inline T const* dyn_cast(U const*u){ return T::classof(u)?static_cast<T const*>(u):0; } template<class T,class U> inline T* dyn_cast(U*u){ return T::classof(u)?static_cast<T*>(u):0; }
template<class T,class U> inline T const* dyn_cast_or_null(U const*u){ return u?dyn_cast<T>(u):0; } template<class T,class U> inline T* dyn_cast_or_null(U*u){ return u?dyn_cast<T>(u):0; }
template<class T,class U> inline T const* cast(U const*u){ CLANG_NEEDS(T::classof(u),"bad cast"); return static_cast<T const*>(u); } template<class T,class U> inline T* cast(U*u){ CLANG_NEEDS(T::classof(u),"bad cast"); return static_cast<T*>(u); }
}
namespace clang {
using llvm::isa; using llvm::cast; using llvm::dyn_cast; using llvm::dyn_cast_or_null; using llvm::StringRef; using llvm::ArrayRef;
enum AccessSpecifier { AS_public, AS_protected, AS_private, AS_none };
class LangOptions {};
struct PrintingPolicy { bool SuppressTagKeyword,SuppressScope,Bool; explicit PrintingPolicy(LangOptions const&):SuppressTagKeyword(false),SuppressScope(false),Bool(false){} };
class CharUnits { int64_t q; public: CharUnits(int64_t q=0):q(q){} int64_t getQuantity() const { return q; } bool isZero() const { return q==0; } bool isPositive() const { return q>0; } static CharUnits fromQuantity(int64_t q){ return CharUnits(q); } static CharUnits Zero(){ return CharUnits(0); } CharUnits operator+(CharUnits o) const { return CharUnits(q+o.q); } CharUnits operator-(CharUnits o) const { return CharUnits(q-o.q); } CharUnits&operator+=(CharUnits o){ q+=o.q; return *this; } bool operator==(CharUnits o) const { return q==o.q; } bool operator!=(CharUnits o) const { return q!=o.q; } bool operator<(CharUnits o) const { return q<o.q; } bool operator>(CharUnits o) const { return q>o.q; } bool operator<=(CharUnits o) const { return q<=o.q; } bool operator>=(CharUnits o) const { return q>=o.q; } };
class ASTContext; class Type; class Decl; class NamedDecl; class TypeDecl; class TypedefNameDecl; class TagDecl; class EnumDecl; class RecordDecl; class CXXRecordDecl; class FieldDecl; class EnumConstantDecl; class PrintingNames;
// ---- types
class QualType { const Type*t; unsigned q; public:
  enum { Const=1, Volatile=4 };
  QualType():t(0),q(0){} QualType(const Type*t,unsigned q):t(t),q(q){}
  const Type*getTypePtr() const { return t; } const Type*getTypePtrOrNull() const { return t; } const Type*operator->() const { return t; } const Type&operator*() const { return *t; } bool isNull() const { return !t; } unsigned getLocalFastQualifiers() const { return q; }
  bool isLocalConstQualified() const { return q&Const; } bool isConstQualified() const { return getCanonicalType().q&Const; } bool isVolatileQualified() const { return getCanonicalType().q&Volatile; } bool hasLocalQualifiers() const { return q; }
  QualType getLocalUnqualifiedType() const { return QualType(t,0); } inline QualType getUnqualifiedType() const; inline QualType getCanonicalType() const; QualType withConst() const { return QualType(t,q|Const); } QualType withFastQualifiers(unsigned x) const { return QualType(t,q|x); } bool isCanonical() const { QualType c=getCanonicalType(); return c.t==t&&c.q==q; }
  inline std::string getAsString() const; inline std::string getAsString(PrintingPolicy const&p) const; bool operator==(QualType o) const { return t==o.t&&q==o.q; } bool operator!=(QualType o) const { return !(*this==o); } };
class Type { public: enum TypeClass { Builtin, Pointer, LValueReference, RValueReference, ConstantArray, IncompleteArray, FunctionProto, Record, Enum, Typedef, Elaborated, TemplateSpecialization };
  ASTContext*ctx; TypeClass cls; Type(ASTContext*c,TypeClass k):ctx(c),cls(k){} virtual ~Type(){}
  TypeClass getTypeClass() const { return cls; } const char*getTypeClassName() const { static const char*const n[]={"Builtin","Pointer","LValueReference","RValueReference","ConstantArray","IncompleteArray","FunctionProto","Record","Enum","Typedef","Elaborated","TemplateSpecialization"}; return n[cls]; }
  QualType getCanonicalTypeInternal() const { return QualType(this,0).getCanonicalType(); } const Type*canon() const { return getCanonicalTypeInternal().getTypePtr(); } TypeClass cc() const { return canon()->cls; }
  bool isReferenceType() const { return cc()==LValueReference||cc()==RValueReference; } bool isLValueReferenceType() const { return cc()==LValueReference; } bool isRValueReferenceType() const { return cc()==RValueReference; } bool isPointerType() const { return cc()==Pointer; } bool isAnyPointerType() const { return cc()==Pointer; } bool isBuiltinType() const { return cc()==Builtin; } bool isArrayType() const { return cc()==ConstantArray||cc()==IncompleteArray; } bool isConstantArrayType() const { return cc()==ConstantArray; } bool isFunctionType() const { return cc()==FunctionProto; } bool isRecordType() const { return cc()==Record; } bool isEnumeralType() const { return cc()==Enum; }
  inline bool isVoidType() const; inline bool isBooleanType() const; inline bool isFloatingType() const; inline bool isUnionType() const; inline bool isDependentType() const; inline const CXXRecordDecl*getAsCXXRecordDecl() const; template<class T> inline const T*getAs() const; template<class T> const T*castAs() const { return getAs<T>(); } inline QualType desugar() const; inline QualType getPointeeType() const; static bool classof(const Type*){ return true; } };
class BuiltinType: public Type { public: enum Kind { Void, Bool, Char_U, UChar, WChar_U, Char16, Char32, UShort, UInt, ULong, ULongLong, UInt128, Char_S, SChar, WChar_S, Short, Int, Long, LongLong, Int128, Half, Float, Double, LongDouble, NullPtr };
  Kind k; std::string name; BuiltinType(ASTContext*c,Kind k,const char*n):Type(c,Builtin),k(k),name(n){} Kind getKind() const { return k; } bool isInteger() const { return k>=Bool&&k<=Int128; } bool isSignedInteger() const { return k>=Char_S&&k<=Int128; } bool isUnsignedInteger() const { return k>=Bool&&k<=UInt128; } bool isFloatingPoint() const { return k>=Half&&k<=LongDouble; } std::string getNameAsCString(PrintingPolicy const&) const { return name; } static bool classof(const Type*t){ return t->cls==Builtin; } };
class PointerType: public Type { public: QualType p; PointerType(ASTContext*c,QualType p):Type(c,Pointer),p(p){} QualType getPointeeType() const { return p; } static bool classof(const Type*t){ return t->cls==Pointer; } };
class ReferenceType: public Type { public: QualType p; ReferenceType(ASTContext*c,QualType p,bool r):Type(c,r?RValueReference:LValueReference),p(p){} QualType getPointeeType() const { return p; } static bool classof(const Type*t){ return t->cls==LValueReference||t->cls==RValueReference; } };
class ArrayType: public Type { public: QualType e; ArrayType(ASTContext*c,TypeClass k,QualType e):Type(c,k),e(e){} QualType getElementType() const { return e; } static bool classof(const Type*t){ return t->cls==ConstantArray||t->cls==IncompleteArray; } };
class ConstantArrayType: public ArrayType { public: uint64_t n; ConstantArrayType(ASTContext*c,QualType e,uint64_t n):ArrayType(c,ConstantArray,e),n(n){} llvm::APInt getSize() const { return llvm::APInt(64,n); } bool isSugared() const { return false; } QualType desugar() const { return QualType(this,0); } static bool classof(const Type*t){ return t->cls==ConstantArray; } };
class IncompleteArrayType: public ArrayType { public: IncompleteArrayType(ASTContext*c,QualType e):ArrayType(c,IncompleteArray,e){} static bool classof(const Type*t){ return t->cls==IncompleteArray; } };
class FunctionProtoType: public Type { public: QualType r; std::vector<QualType> a; FunctionProtoType(ASTContext*c,QualType r):Type(c,FunctionProto),r(r){} QualType getReturnType() const { return r; } static bool classof(const Type*t){ return t->cls==FunctionProto; } };
class TagType: public Type { public: TagDecl*d; TagType(ASTContext*c,TypeClass k,TagDecl*d):Type(c,k),d(d){} inline TagDecl*getDecl() const; static bool classof(const Type*t){ return t->cls==Record||t->cls==Enum; } };
class RecordType: public TagType { public: RecordType(ASTContext*c,TagDecl*d):TagType(c,Record,d){} inline RecordDecl*getDecl() const; static bool classof(const Type*t){ return t->cls==Record; } };
class EnumType: public TagType { public: EnumType(ASTContext*c,TagDecl*d):TagType(c,Enum,d){} inline EnumDecl*getDecl() const; static bool classof(const Type*t){ return t->cls==Enum; } };
class TypedefType: public Type { public: TypedefNameDecl*d; TypedefType(ASTContext*c,TypedefNameDecl*d):Type(c,Typedef),d(d){} TypedefNameDecl*getDecl() const { return d; } inline QualType desugar() const; static bool classof(const Type*t){ return t->cls==Typedef; } };
class ElaboratedType: public Type { public: QualType n; ElaboratedType(ASTContext*c,QualType n):Type(c,Elaborated),n(n){} QualType getNamedType() const { return n; } QualType desugar() const { return n; } static bool classof(const Type*t){ return t->cls==Elaborated; } };
class TemplateSpecializationType: public Type { public: QualType n; TemplateSpecializationType(ASTContext*c,QualType n):Type(c,TemplateSpecialization),n(n){} QualType desugar() const { return n; } static bool classof(const Type*t){ return t->cls==TemplateSpecialization; } };
// ---- declarations
struct FileOf { std::string dir,name; };
class SourceLocation { public: const FileOf*f; unsigned line; SourceLocation(const FileOf*f=0,unsigned l=0):f(f),line(l){} bool isValid() const { return f; } bool isInvalid() const { return !f; } };
class IdentifierInfo { public: std::string n; StringRef getName() const { return n; } };
class DeclarationName { public: std::string n; DeclarationName(std::string const&n):n(n){} std::string getAsString() const { return n; } bool isEmpty() const { return n.empty(); } };
class DeclContext;
class Decl { public: enum Kind { Namespace, Function, Typedef, TypeAlias, Enum, Record, CXXRecord, ClassTemplateSpecialization, Field, EnumConstant };
  ASTContext*ctx; Kind kind; NamedDecl*parent; AccessSpecifier access; SourceLocation loc; bool invalid,hidden; Decl(ASTContext*c,Kind k,NamedDecl*p):ctx(c),kind(k),parent(p),access(AS_none),invalid(false),hidden(false){} virtual ~Decl(){}
  Kind getKind() const { return kind; } const char*getDeclKindName() const { static const char*const n[]={"Namespace","Function","Typedef","TypeAlias","Enum","Record","CXXRecord","ClassTemplateSpecialization","Field","EnumConstant"}; return n[kind]; }
  ASTContext&getASTContext() const { return *ctx; } AccessSpecifier getAccess() const { return access; } bool isInvalidDecl() const { return invalid; } bool isHidden() const { return hidden; } SourceLocation getLocation() const { return loc; } SourceLocation getLocStart() const { return loc; } SourceLocation getBeginLoc() const { return loc; }
  inline bool isInAnonymousNamespace() const; inline const Decl*getParentFunctionOrMethod() const; static bool classof(const Decl*){ return true; } };
class NamedDecl: public Decl { public: IdentifierInfo id; bool inl; NamedDecl(ASTContext*c,Kind k,NamedDecl*p,const char*n):Decl(c,k,p),inl(false){ id.n=n; }
  const IdentifierInfo*getIdentifier() const { return id.n.empty()?0:&id; } StringRef getName() const { return id.n; } std::string getNameAsString() const { return id.n; } DeclarationName getDeclName() const { return DeclarationName(id.n); } inline std::string getQualifiedNameAsString() const; const NamedDecl*getUnderlyingDecl() const { return this; } bool isInAnonymousNamespace() const { return Decl::isInAnonymousNamespace(); } static bool classof(const Decl*){ return true; } };
class NamespaceDecl: public NamedDecl { public: NamespaceDecl(ASTContext*c,NamedDecl*p,const char*n):NamedDecl(c,Namespace,p,n){} bool isAnonymousNamespace() const { return id.n.empty(); } static bool classof(const Decl*d){ return d->kind==Namespace; } };
class FunctionDecl: public NamedDecl { public: FunctionDecl(ASTContext*c,NamedDecl*p,const char*n):NamedDecl(c,Function,p,n){} static bool classof(const Decl*d){ return d->kind==Function; } };
class TypeDecl: public NamedDecl { public: const Type*type; TypeDecl(ASTContext*c,Kind k,NamedDecl*p,const char*n):NamedDecl(c,k,p,n),type(0){} const Type*getTypeForDecl() const { return type; } static bool classof(const Decl*d){ return d->kind>=Typedef&&d->kind<=ClassTemplateSpecialization; } };
class TypedefNameDecl: public TypeDecl { public: QualType u; TypedefNameDecl(ASTContext*c,Kind k,NamedDecl*p,const char*n,QualType u):TypeDecl(c,k,p,n),u(u){} QualType getUnderlyingType() const { return u; } const TypedefNameDecl*getCanonicalDecl() const { return this; } TypedefNameDecl*getCanonicalDecl(){ return this; } static bool classof(const Decl*d){ return d->kind==Typedef||d->kind==TypeAlias; } };
class TypedefDecl: public TypedefNameDecl { public: TypedefDecl(ASTContext*c,NamedDecl*p,const char*n,QualType u):TypedefNameDecl(c,Typedef,p,n,u){} static bool classof(const Decl*d){ return d->kind==Typedef; } };
class TypeAliasDecl: public TypedefNameDecl { public: TypeAliasDecl(ASTContext*c,NamedDecl*p,const char*n,QualType u):TypedefNameDecl(c,TypeAlias,p,n,u){} static bool classof(const Decl*d){ return d->kind==TypeAlias; } };
class TagDecl: public TypeDecl { public: const char*tag; TypedefNameDecl*tdanon; TagDecl(ASTContext*c,Kind k,NamedDecl*p,const char*n,const char*tag):TypeDecl(c,k,p,n),tag(tag),tdanon(0){} const char*getKindName() const { return tag; } TypedefNameDecl*getTypedefNameForAnonDecl() const { return tdanon; } bool isUnion() const { return *tag=='u'; } bool isStruct() const { return *tag=='s'; } bool isClass() const { return *tag=='c'; } bool isDependentType() const { return dependent; } bool dependent=false; static bool classof(const Decl*d){ return d->kind>=Enum&&d->kind<=ClassTemplateSpecialization; } };
class EnumConstantDecl: public NamedDecl { public: llvm::APSInt v; EnumConstantDecl(ASTContext*c,NamedDecl*p,const char*n,llvm::APSInt v):NamedDecl(c,EnumConstant,p,n),v(v){} llvm::APSInt const& getInitVal() const { return v; } static bool classof(const Decl*d){ return d->kind==EnumConstant; } };
// like clang's, these iterators give the node for * and ->
template<class T> class NodeIter { T*const*p; public: typedef T*value_type; NodeIter(T*const*p=0):p(p){} T*operator*() const { return *p; } T*operator->() const { return *p; } NodeIter&operator++(){ ++p; return *this; } NodeIter operator++(int){ NodeIter r(*this); ++p; return r; } bool operator==(NodeIter o) const { return p==o.p; } bool operator!=(NodeIter o) const { return p!=o.p; } };
class EnumDecl: public TagDecl { public: std::vector<EnumConstantDecl*> vals; QualType integer; bool scoped; EnumDecl(ASTContext*c,NamedDecl*p,const char*n):TagDecl(c,Enum,p,n,"enum"),scoped(false){} typedef NodeIter<EnumConstantDecl> enumerator_iterator; enumerator_iterator enumerator_begin() const { return enumerator_iterator(vals.data()); } enumerator_iterator enumerator_end() const { return enumerator_iterator(vals.data()+vals.size()); } llvm::iterator_range<enumerator_iterator> enumerators() const { return llvm::iterator_range<enumerator_iterator>(enumerator_begin(),enumerator_end()); } QualType getIntegerType() const { return integer; } bool isScoped() const { return scoped; } static bool classof(const Decl*d){ return d->kind==Enum; } };
class FieldDecl: public NamedDecl { public: QualType t; unsigned idx; bool anon,bitf; FieldDecl(ASTContext*c,NamedDecl*p,const char*n,QualType t,unsigned i):NamedDecl(c,Field,p,n),t(t),idx(i),anon(false),bitf(false){} QualType getType() const { return t; } unsigned getFieldIndex() const { return idx; } bool isAnonymousStructOrUnion() const { return anon; } bool isBitField() const { return bitf; } inline const RecordDecl*getParent() const; static bool classof(const Decl*d){ return d->kind==Field; } };
class RecordDecl: public TagDecl { public: std::vector<FieldDecl*> flds; RecordDecl*def; RecordDecl(ASTContext*c,Kind k,NamedDecl*p,const char*n,const char*tag):TagDecl(c,k,p,n,tag),def(0){} typedef NodeIter<FieldDecl> field_iterator; field_iterator field_begin() const { return field_iterator(flds.data()); } field_iterator field_end() const { return field_iterator(flds.data()+flds.size()); } bool field_empty() const { return flds.empty(); } llvm::iterator_range<field_iterator> fields() const { return llvm::iterator_range<field_iterator>(field_begin(),field_end()); } bool isAnonymousStructOrUnion() const { return false; } RecordDecl*getDefinition() const { return def; } bool isCompleteDefinition() const { return def==this; } static bool classof(const Decl*d){ return d->kind>=Record&&d->kind<=ClassTemplateSpecialization; } };
class CXXBaseSpecifier { public: QualType t; AccessSpecifier a; bool v; QualType getType() const { return t; } AccessSpecifier getAccessSpecifier() const { return a; } bool isVirtual() const { return v; } };
class CXXRecordDecl: public RecordDecl { public: std::vector<CXXBaseSpecifier> bs; bool poly,abstr,injected; CXXRecordDecl(ASTContext*c,NamedDecl*p,const char*n,const char*tag,Kind k=CXXRecord):RecordDecl(c,k,p,n,tag),poly(false),abstr(false),injected(false){}
  CXXRecordDecl const&d() const { CLANG_NEEDS(def,"a question about an undefined class"); return *static_cast<CXXRecordDecl*>(def); } CXXRecordDecl*getDefinition() const { return static_cast<CXXRecordDecl*>(def); } bool hasDefinition() const { return def; } bool isInjectedClassName() const { return injected; } bool isPolymorphic() const { return d().poly; } bool isAbstract() const { return d().abstr; } bool isEmpty() const { return d().flds.empty()&&d().bs.empty()&&!d().poly; }
  typedef CXXBaseSpecifier const*base_class_const_iterator; typedef CXXBaseSpecifier*base_class_iterator; base_class_const_iterator bases_begin() const { return d().bs.data(); } base_class_const_iterator bases_end() const { return d().bs.data()+d().bs.size(); } llvm::iterator_range<base_class_const_iterator> bases() const { return llvm::iterator_range<base_class_const_iterator>(bases_begin(),bases_end()); } unsigned getNumBases() const { return (unsigned)d().bs.size(); } unsigned getNumVBases() const { unsigned n=0; std::vector<CXXBaseSpecifier> const&b=d().bs; for(size_t i=0;i<b.size();i++) n+=b[i].v+(b[i].t->getAsCXXRecordDecl()?b[i].t->getAsCXXRecordDecl()->getNumVBases():0); return n; } static bool classof(const Decl*d){ return d->kind>=CXXRecord&&d->kind<=ClassTemplateSpecialization; } };
class TemplateArgument { public: enum ArgKind { Null, Type, Integral }; ArgKind k; QualType t; int64_t v; TemplateArgument(QualType t):k(Type),t(t),v(0){} TemplateArgument(int64_t v):k(Integral),v(v){} ArgKind getKind() const { return k; } QualType getAsType() const { return k==Type?t:QualType(); } llvm::APSInt getAsIntegral() const { CLANG_NEEDS(k==Integral,"a template argument is not a number"); return llvm::APSInt(64,v); } };
class TemplateArgumentList { public: std::vector<TemplateArgument> a; unsigned size() const { return (unsigned)a.size(); } TemplateArgument const& get(unsigned i) const { return a[i]; } TemplateArgument const& operator[](unsigned i) const { return a[i]; } ArrayRef<TemplateArgument> asArray() const { return a; } };
class ClassTemplateSpecializationDecl: public CXXRecordDecl { public: TemplateArgumentList args; ClassTemplateSpecializationDecl(ASTContext*c,NamedDecl*p,const char*n,const char*tag):CXXRecordDecl(c,p,n,tag,ClassTemplateSpecialization){} TemplateArgumentList const& getTemplateArgs() const { return args; } static bool classof(const Decl*d){ return d->kind==ClassTemplateSpecialization; } };
class ASTRecordLayout { public: uint64_t size,nv,al; bool hasnv; ASTRecordLayout():size(0),nv(0),al(1),hasnv(false){} CharUnits getNonVirtualSize() const { return CharUnits((int64_t)(hasnv?nv:size)); } CharUnits getDataSize() const { return getNonVirtualSize(); } CharUnits getAlignment() const { return CharUnits((int64_t)al); } CharUnits getNonVirtualAlignment() const { return getAlignment(); } std::vector<uint64_t> offs; std::map<const CXXRecordDecl*,uint64_t> base; CharUnits getSize() const { return CharUnits((int64_t)size); } uint64_t getFieldOffset(unsigned i) const { return offs.at(i); } unsigned getFieldCount() const { return (unsigned)offs.size(); } CharUnits getBaseClassOffset(const CXXRecordDecl*d) const { std::map<const CXXRecordDecl*,uint64_t>::const_iterator i=base.find(d); CLANG_NEEDS(i!=base.end(),"the offset of a class that is no base"); return CharUnits((int64_t)i->second); } CharUnits getVBaseClassOffset(const CXXRecordDecl*d) const { return getBaseClassOffset(d); } };
// ---- comments
class SourceManager;
namespace comments {
class Comment { public: enum CommentKind { NoCommentKind, FullCommentKind, TextCommentKind, InlineCommandCommentKind, ParagraphCommentKind, BlockCommandCommentKind, ParamCommandCommentKind, VerbatimBlockCommentKind, VerbatimLineCommentKind }; CommentKind k; std::vector<Comment*> ch; SourceLocation loc; Comment(CommentKind k):k(k){} virtual ~Comment(){} CommentKind getCommentKind() const { return k; } const char*getCommentKindName() const { return "Comment"; } struct L { std::string printToString(SourceManager const&) const { return "?"; } }; L getLocation() const { return L(); } typedef Comment*const*child_iterator; child_iterator child_begin() const { return ch.data(); } child_iterator child_end() const { return ch.data()+ch.size(); } unsigned child_count() const { return (unsigned)ch.size(); } static bool classof(const Comment*){ return true; } };
class TextComment: public Comment { public: std::string t; TextComment(std::string const&t):Comment(TextCommentKind),t(t){} StringRef getText() const { return t; } bool isWhitespace() const { return t.find_first_not_of(" \t\n\v\f\r")==std::string::npos; } static bool classof(const Comment*c){ return c->k==TextCommentKind; } };
class InlineCommandComment: public Comment { public: InlineCommandComment():Comment(InlineCommandCommentKind){} static bool classof(const Comment*c){ return c->k==InlineCommandCommentKind; } };
class BlockContentComment: public Comment { public: BlockContentComment(CommentKind k):Comment(k){} static bool classof(const Comment*c){ return c->k>=ParagraphCommentKind; } };
class ParagraphComment: public BlockContentComment { public: ParagraphComment():BlockContentComment(ParagraphCommentKind){} bool isWhitespace() const { for(size_t i=0;i<ch.size();i++){ if(ch[i]->k!=TextCommentKind||!static_cast<TextComment*>(ch[i])->isWhitespace()) return false; } return true; } static bool classof(const Comment*c){ return c->k==ParagraphCommentKind; } };
class BlockCommandComment: public BlockContentComment { public: ParagraphComment*p; BlockCommandComment(CommentKind k=BlockCommandCommentKind):BlockContentComment(k),p(0){} ParagraphComment*getParagraph() const { return p; } static bool classof(const Comment*c){ return c->k>=BlockCommandCommentKind; } };
class VerbatimLineComment: public BlockCommandComment { public: std::string t; VerbatimLineComment(std::string const&t):BlockCommandComment(VerbatimLineCommentKind),t(t){} StringRef getText() const { return t; } static bool classof(const Comment*c){ return c->k==VerbatimLineCommentKind; } };
class FullComment: public Comment { public: std::vector<BlockContentComment*> b; FullComment():Comment(FullCommentKind){} ArrayRef<BlockContentComment*> getBlocks() const { return b; } static bool classof(const Comment*c){ return c->k==FullCommentKind; } };
}
// ---- files
class DirectoryEntry { public: std::string n; StringRef getName() const { return n; } };
class FileEntry { public: DirectoryEntry d; std::string n; const DirectoryEntry*getDir() const { return &d; } const char*getName() const { return n.c_str(); } };
class FileID { public: const FileOf*f; bool isInvalid() const { return !f; } bool isValid() const { return f; } };
class FileManager { public: StringRef getCanonicalName(const DirectoryEntry*d){ return d->n; } };
class SourceManager { public: mutable FileManager fm; std::map<const FileOf*,FileEntry> files; const FileOf*mainf; SourceManager():mainf(0){} SourceLocation getExpansionLoc(SourceLocation l) const { return l; } SourceLocation getSpellingLoc(SourceLocation l) const { return l; } FileID getFileID(SourceLocation l) const { FileID f; f.f=l.f; return f; } const FileEntry*getFileEntryForID(FileID f) const { std::map<const FileOf*,FileEntry>::const_iterator i=files.find(f.f); return i==files.end()?0:&i->second; } FileManager&getFileManager() const { return fm; } unsigned getExpansionLineNumber(SourceLocation l) const { return l.line; } unsigned getSpellingLineNumber(SourceLocation l) const { return l.line; } bool isInMainFile(SourceLocation l) const { return l.f==mainf; } };
class ASTContext { public: std::vector<Type*> types; std::vector<Decl*> decls; std::vector<comments::Comment*> comms; std::map<const Type*,uint64_t> bits; std::map<const CXXRecordDecl*,ASTRecordLayout> lay; std::map<const Decl*,comments::FullComment*> docs; SourceManager sm; bool spaced; ASTContext():spaced(false){} ~ASTContext(){ for(size_t i=0;i<types.size();i++) delete types[i]; for(size_t i=0;i<decls.size();i++) delete decls[i]; for(size_t i=0;i<comms.size();i++) delete comms[i]; }
  template<class T> T*own(T*t){ return t; } Type*reg(Type*t){ types.push_back(t); return t; } template<class T> T*mk(T*t){ types.push_back(t); return t; } template<class T> T*mkd(T*t){ decls.push_back(t); return t; } template<class T> T*mkc(T*t){ comms.push_back(t); return t; }
  QualType getConstantArray(QualType e,uint64_t n){ for(size_t i=0;i<types.size();i++) if(types[i]->cls==Type::ConstantArray){ ConstantArrayType*a=static_cast<ConstantArrayType*>(types[i]); if(a->e==e&&a->n==n) return QualType(a,0); } return QualType(mk(new ConstantArrayType(this,e,n)),0); }
  uint64_t getTypeSize(const Type*t) const { t=t->canon(); if(t->cls==Type::ConstantArray){ const ConstantArrayType*a=static_cast<const ConstantArrayType*>(t); return getTypeSize(a->e.getTypePtr())*a->n; } if(t->cls==Type::Record){ const CXXRecordDecl*d=t->getAsCXXRecordDecl(); return getASTRecordLayout(d).size*8; } std::map<const Type*,uint64_t>::const_iterator i=bits.find(t); return i==bits.end()?64:i->second; } uint64_t getTypeSize(QualType t) const { return getTypeSize(t.getTypePtr()); } CharUnits getTypeSizeInChars(const Type*t) const { return CharUnits((int64_t)(getTypeSize(t)/8)); } CharUnits getTypeSizeInChars(QualType t) const { return getTypeSizeInChars(t.getTypePtr()); } uint64_t getCharWidth() const { return 8; }
  ASTRecordLayout const& getASTRecordLayout(const RecordDecl*d) const { CLANG_NEEDS(d&&d->getDefinition(),"the layout of an undefined class"); std::map<const CXXRecordDecl*,ASTRecordLayout>::const_iterator i=lay.find(static_cast<const CXXRecordDecl*>(d->getDefinition())); CLANG_NEEDS(i!=lay.end(),"the layout of an undefined class"); return i->second; }
  QualType getTypeDeclType(const TypeDecl*d) const { if(d->kind==Decl::Typedef||d->kind==Decl::TypeAlias) return getTypedefType(static_cast<const TypedefNameDecl*>(d)); return QualType(d->type,0); } QualType getTypedefType(const TypedefNameDecl*d) const { for(size_t i=0;i<types.size();i++) if(types[i]->cls==Type::Typedef&&static_cast<TypedefType*>(types[i])->d==d) return QualType(types[i],0); ASTContext*s=const_cast<ASTContext*>(this); return QualType(s->mk(new TypedefType(s,const_cast<TypedefNameDecl*>(d))),0); } QualType getRecordType(const RecordDecl*d) const { return QualType(d->type,0); } QualType getCanonicalType(QualType t) const { return t.getCanonicalType(); }
  SourceManager&getSourceManager(){ return sm; } SourceManager const& getSourceManager() const { return sm; } comments::FullComment*getCommentForDecl(const Decl*d,const void*) const { std::map<const Decl*,comments::FullComment*>::const_iterator i=docs.find(d); return i==docs.end()?0:i->second; } };
// ---- what needs complete classes
inline TagDecl*TagType::getDecl() const { if(d->kind!=Decl::Enum){ RecordDecl*r=static_cast<RecordDecl*>(d); if(r->def) return r->def; } return d; } inline RecordDecl*RecordType::getDecl() const { return static_cast<RecordDecl*>(TagType::getDecl()); } inline EnumDecl*EnumType::getDecl() const { return static_cast<EnumDecl*>(d); } inline QualType TypedefType::desugar() const { return d->u; } inline const RecordDecl*FieldDecl::getParent() const { return static_cast<const RecordDecl*>(static_cast<const Decl*>(parent)); }
inline QualType QualType::getCanonicalType() const { if(!t) return *this; QualType r; switch(t->cls){ case Type::Typedef: r=static_cast<const TypedefType*>(t)->d->u; break; case Type::Elaborated: r=static_cast<const ElaboratedType*>(t)->n; break; case Type::TemplateSpecialization: r=static_cast<const TemplateSpecializationType*>(t)->n; break;
  case Type::ConstantArray:{ const ConstantArrayType*a=static_cast<const ConstantArrayType*>(t); QualType e=QualType(a->e.t,a->e.q|q).getCanonicalType(); if(e==a->e) return QualType(t,0); return t->ctx->getConstantArray(e,a->n); }
  case Type::Pointer:{ const PointerType*a=static_cast<const PointerType*>(t); QualType e=a->p.getCanonicalType(); if(e==a->p) return *this; return QualType(t->ctx->mk(new PointerType(t->ctx,e)),q); } case Type::LValueReference: case Type::RValueReference:{ const ReferenceType*a=static_cast<const ReferenceType*>(t); QualType e=a->p.getCanonicalType(); if(e==a->p) return *this; return QualType(t->ctx->mk(new ReferenceType(t->ctx,e,t->cls==Type::RValueReference)),q); }
  default: return *this; } return QualType(r.t,r.q|q).getCanonicalType(); }
inline QualType QualType::getUnqualifiedType() const { QualType c=getCanonicalType(); if(c.q==q) return QualType(t,0); return QualType(c.t,0); }
inline const CXXRecordDecl*Type::getAsCXXRecordDecl() const { const Type*c=canon(); return c->cls==Record?static_cast<const CXXRecordDecl*>(static_cast<const RecordType*>(c)->getDecl()):0; }
inline bool Type::isVoidType() const { const Type*c=canon(); return c->cls==Builtin&&static_cast<const BuiltinType*>(c)->k==BuiltinType::Void; } inline bool Type::isBooleanType() const { const Type*c=canon(); return c->cls==Builtin&&static_cast<const BuiltinType*>(c)->k==BuiltinType::Bool; } inline bool Type::isFloatingType() const { const Type*c=canon(); return c->cls==Builtin&&static_cast<const BuiltinType*>(c)->isFloatingPoint(); } inline bool Type::isUnionType() const { const CXXRecordDecl*r=getAsCXXRecordDecl(); return r&&r->isUnion(); } inline bool Type::isDependentType() const { return false; } inline QualType Type::getPointeeType() const { const Type*c=canon(); return c->cls==Pointer?static_cast<const PointerType*>(c)->p:c->cls==LValueReference||c->cls==RValueReference?static_cast<const ReferenceType*>(c)->p:QualType(); }
inline QualType Type::desugar() const { switch(cls){ case Typedef: return static_cast<const TypedefType*>(this)->d->u; case Elaborated: return static_cast<const ElaboratedType*>(this)->n; case TemplateSpecialization: return static_cast<const TemplateSpecializationType*>(this)->n; default: return QualType(this,0); } }
template<class T> inline const T*Type::getAs() const { const Type*t=this; for(;;){ if(T::classof(t)) return static_cast<const T*>(t); QualType n=t->desugar(); if(n.getTypePtr()==t) return 0; t=n.getTypePtr(); } }
inline bool Decl::isInAnonymousNamespace() const { for(const NamedDecl*p=parent;p;p=p->parent) if(p->kind==Namespace&&p->id.n.empty()) return true; return false; }
inline const Decl*Decl::getParentFunctionOrMethod() const { for(const NamedDecl*p=parent;p;p=p->parent){ if(p->kind==Function) return p; if(p->kind==Namespace) return 0; } return 0; }
// names as clang prints them
class PrintingNames { public:
  static std::string num(uint64_t v){ std::string s; do { s.insert(s.begin(),(char)('0'+v%10)); v/=10; } while(v); return s; }
  static std::string args(const ClassTemplateSpecializationDecl*d,PrintingPolicy const&p){ std::string s="<"; for(size_t i=0;i<d->args.a.size();i++){ TemplateArgument const&a=d->args.a[i]; std::string x=a.k==TemplateArgument::Type?type(a.t,p,""):(a.v<0?"-"+num(0-(uint64_t)a.v):num((uint64_t)a.v)); if(i) s+=", "; s+=x; } if(s[s.size()-1]=='>') s+=' '; return s+">"; }
  static std::string own(const NamedDecl*d,PrintingPolicy const&p,bool targs){ std::string s; if(d->id.n.empty()){ if(d->kind==Decl::Namespace) return "(anonymous namespace)"; if(TagDecl::classof(d)){ const TagDecl*t=static_cast<const TagDecl*>(static_cast<const TypeDecl*>(d)); if(t->tdanon) return t->tdanon->id.n; return std::string("(anonymous ")+t->tag+" at "+(d->loc.f?d->loc.f->dir+"/"+d->loc.f->name:std::string("?"))+":"+num(d->loc.line)+":1)"; } } s=d->id.n; if(targs&&d->kind==Decl::ClassTemplateSpecialization) s+=args(static_cast<const ClassTemplateSpecializationDecl*>(static_cast<const CXXRecordDecl*>(static_cast<const RecordDecl*>(static_cast<const TagDecl*>(static_cast<const TypeDecl*>(d))))),p); return s; }
  static std::string scope(const NamedDecl*d,PrintingPolicy const&p){ if(!d) return ""; std::string s=scope(d->parent,p); if(d->kind==Decl::Function) return s; return s+own(d,p,true)+"::"; }
  static std::string quals(unsigned q){ std::string s; if(q&QualType::Const) s+="const "; if(q&QualType::Volatile) s+="volatile "; return s; }
  static std::string leaf(unsigned q,std::string const&n,std::string const&in){ return quals(q)+n+(in.empty()?"":" "+in); }
  static std::string type(QualType q,PrintingPolicy const&p,std::string const&in){ const Type*t=q.getTypePtr(); unsigned k=q.getLocalFastQualifiers(); switch(t->cls){
    case Type::Builtin: return leaf(k,static_cast<const BuiltinType*>(t)->name,in);
    case Type::Record: case Type::Enum:{ TagDecl*d=static_cast<const TagType*>(t)->d; return leaf(k,(p.SuppressTagKeyword||d->id.n.empty()?std::string():std::string(d->tag)+" ")+scope(d->parent,p)+own(d,p,true),in); }
    case Type::Typedef:{ TypedefNameDecl*d=static_cast<const TypedefType*>(t)->d; return leaf(k,scope(d->parent,p)+own(d,p,true),in); }
    case Type::Elaborated: { QualType n=static_cast<const ElaboratedType*>(t)->n; return type(QualType(n.getTypePtr(),n.getLocalFastQualifiers()|k),p,in); } case Type::TemplateSpecialization: { QualType n=static_cast<const TemplateSpecializationType*>(t)->n; return type(QualType(n.getTypePtr(),n.getLocalFastQualifiers()|k),p,in); }
    case Type::Pointer: case Type::LValueReference: case Type::RValueReference:{ QualType n=t->cls==Type::Pointer?static_cast<const PointerType*>(t)->p:static_cast<const ReferenceType*>(t)->p; std::string s=t->cls==Type::Pointer?"*":t->cls==Type::LValueReference?"&":"&&"; if(k&QualType::Const) s+="const"; s+=in; if(n->isArrayType()||n->isFunctionType()) s="("+s+")"; return type(n,p,s); }
    case Type::ConstantArray:{ const ConstantArrayType*a=static_cast<const ConstantArrayType*>(t); return type(QualType(a->e.getTypePtr(),a->e.getLocalFastQualifiers()|k),p,in+(in.empty()?std::string("\1"):std::string())+"["+num(a->n)+"]"); }
    case Type::IncompleteArray: return type(static_cast<const IncompleteArrayType*>(t)->e,p,in+(in.empty()?std::string("\1"):std::string())+"[]");
    case Type::FunctionProto:{ const FunctionProtoType*f=static_cast<const FunctionProtoType*>(t); std::string s=in+"("; for(size_t i=0;i<f->a.size();i++){ if(i) s+=", "; s+=type(f->a[i],p,""); } return type(f->r,p,s+")"); } }
    return ""; }
  // "int [4]" up to clang 15, "int[4]" later
  static std::string fix(std::string s,bool spaced){ size_t i; while((i=s.find(" \1"))!=std::string::npos) s.replace(i,2,spaced?" ":""); return s; }
  static std::string qualified(const NamedDecl*d){ LangOptions o; PrintingPolicy p(o); p.SuppressTagKeyword=true; return fix(scope(d->parent,p)+own(d,p,false),d->ctx->spaced); } };
inline std::string QualType::getAsString(PrintingPolicy const&p) const { return PrintingNames::fix(PrintingNames::type(*this,p,""),t->ctx->spaced); } inline std::string QualType::getAsString() const { LangOptions o; PrintingPolicy p(o); return getAsString(p); } inline std::string NamedDecl::getQualifiedNameAsString() const { return PrintingNames::qualified(this); }
}
#endif
