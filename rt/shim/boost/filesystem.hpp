// Stand-in for boost::filesystem, whose implementation exists as machine code only: the part that listing directories needs, over a
// file system that the harness defines (rt/sym.h: sym_fs_kind, sym_fs_entry). Semantics follow boost 1.83.
#ifndef VERIF_BOOST_FILESYSTEM
#define VERIF_BOOST_FILESYSTEM
#include <string>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#include "sym.h"
namespace boost { namespace filesystem {
class path { std::string s; public:
  typedef char value_type; typedef std::string string_type;
  path(){} path(const char*p):s(p){} path(std::string const&p):s(p){} template<class I> path(I b,I e):s(b,e){}
  std::string const& native() const { return s; } const char*c_str() const { return s.c_str(); } operator std::string() const { return s; }
  std::string const string() const { return s; } std::string generic_string() const { return s; } bool empty() const { return s.empty(); } std::size_t size() const { return s.size(); } void clear(){ s.clear(); }
  path filename() const { std::size_t i=s.rfind('/'); return i==std::string::npos?*this:path(s.substr(i+1)); } bool has_filename() const { return !filename().empty(); }
  path extension() const { std::string f=filename().s; if(f=="."||f=="..") return path(); std::size_t i=f.rfind('.'); return i==std::string::npos?path():path(f.substr(i)); } bool has_extension() const { return !extension().empty(); }
  path stem() const { std::string f=filename().s; if(f=="."||f=="..") return path(f); return path(f.substr(0,f.rfind('.'))); }
  path parent_path() const { std::size_t i=s.rfind('/'); return i==std::string::npos?path():path(s.substr(0,i?i:1)); }
  bool is_absolute() const { return !s.empty()&&s[0]=='/'; } bool is_relative() const { return !is_absolute(); }
  path& operator/=(path const&o){ if(!s.empty()&&!o.s.empty()&&s[s.size()-1]!='/'&&o.s[0]!='/') s+='/'; s+=o.s; return *this; }
  path& operator+=(path const&o){ s+=o.s; return *this; } path& append(path const&o){ return *this/=o; } path& concat(path const&o){ return *this+=o; }
  int compare(path const&o) const { return s.compare(o.s); } };
inline path operator/(path a,path const&b){ a/=b; return a; }
inline bool operator==(path const&a,path const&b){ return a.compare(b)==0; } inline bool operator!=(path const&a,path const&b){ return a.compare(b)!=0; } inline bool operator<(path const&a,path const&b){ return a.compare(b)<0; }
inline bool operator==(path const&a,const char*b){ return a.native()==b; } inline bool operator==(path const&a,std::string const&b){ return a.native()==b; } inline bool operator!=(path const&a,const char*b){ return a.native()!=b; } inline bool operator!=(path const&a,std::string const&b){ return a.native()!=b; } inline bool operator==(const char*b,path const&a){ return a.native()==b; } inline bool operator!=(const char*b,path const&a){ return a.native()!=b; }
inline std::ostream& operator<<(std::ostream&o,path const&p){ return o<<'"'<<p.native()<<'"'; }
class filesystem_error: public boost::system::system_error { path p; public: filesystem_error(std::string const&w,boost::system::error_code c):system_error(c,w){} filesystem_error(std::string const&w,path const&p,boost::system::error_code c):system_error(c,w),p(p){} ~filesystem_error() throw(){} path const& path1() const { return p; } };
enum file_type { status_error, file_not_found, regular_file, directory_file, symlink_file, type_unknown };
class file_status { file_type t; public: file_status(file_type t=status_error):t(t){} file_type type() const { return t; } };
inline bool exists(file_status s){ return s.type()!=status_error&&s.type()!=file_not_found; } inline bool is_directory(file_status s){ return s.type()==directory_file; } inline bool is_regular_file(file_status s){ return s.type()==regular_file; }
inline file_status status(path const&p){ int k=sym_fs_kind?sym_fs_kind(p.c_str()):0; return file_status(k==2?directory_file:k==1?regular_file:file_not_found); }
inline file_status status(path const&p,boost::system::error_code&ec){ ec.clear(); return status(p); } inline file_status symlink_status(path const&p){ return status(p); }
inline bool exists(path const&p){ return exists(status(p)); } inline bool is_directory(path const&p){ return is_directory(status(p)); } inline bool is_regular_file(path const&p){ return is_regular_file(status(p)); }
inline bool exists(path const&p,boost::system::error_code&ec){ return exists(status(p,ec)); } inline bool is_directory(path const&p,boost::system::error_code&ec){ return is_directory(status(p,ec)); } inline bool is_regular_file(path const&p,boost::system::error_code&ec){ return is_regular_file(status(p,ec)); }
inline bool is_symlink(path const&){ return false; } inline bool is_other(path const&){ return false; } inline bool is_empty(path const&p){ return is_directory(p)&&(!sym_fs_entry||!sym_fs_entry(p.c_str(),0)); }
inline std::string extension(path const&p){ return p.extension().native(); }
class directory_entry { class path p; public: directory_entry(){} explicit directory_entry(class path const&p):p(p){} class path const& path() const { return p; } operator class path const&() const { return p; } file_status status() const { return boost::filesystem::status(p); } bool exists() const { return boost::filesystem::exists(p); } bool is_directory() const { return boost::filesystem::is_directory(p); } bool is_regular_file() const { return boost::filesystem::is_regular_file(p); } };
class directory_iterator { path d; unsigned i; bool end; directory_entry e;
  void load(){ const char*n=sym_fs_entry?sym_fs_entry(d.c_str(),i):0; if(n) e=directory_entry(d/path(n)); else end=true; }
  bool open(path const&p,boost::system::error_code&ec){ d=p; int k=sym_fs_kind?sym_fs_kind(p.c_str()):0; if(k!=2){ end=true; ec.assign(k?20:2,boost::system::generic_category()); return false; } ec.clear(); load(); return true; }
 public: typedef directory_entry value_type; typedef directory_entry const& reference; typedef directory_entry const* pointer; typedef std::ptrdiff_t difference_type; typedef std::input_iterator_tag iterator_category;
  directory_iterator():i(0),end(true){} explicit directory_iterator(path const&p):i(0),end(false){ boost::system::error_code ec; if(!open(p,ec)) throw filesystem_error("boost::filesystem::directory_iterator::construct",p,ec); } directory_iterator(path const&p,boost::system::error_code&ec):i(0),end(false){ open(p,ec); }
  reference operator*() const { return e; } pointer operator->() const { return &e; } directory_iterator& operator++(){ i++; load(); return *this; } directory_iterator& increment(boost::system::error_code&ec){ ec.clear(); return ++*this; }
  bool operator==(directory_iterator const&o) const { return end==o.end&&(end||(d==o.d&&i==o.i)); } bool operator!=(directory_iterator const&o) const { return !(*this==o); } };
inline directory_iterator const& begin(directory_iterator const&i){ return i; } inline directory_iterator end(directory_iterator const&){ return directory_iterator(); }
inline directory_iterator range_begin(directory_iterator const&i){ return i; } inline directory_iterator range_end(directory_iterator const&){ return directory_iterator(); }
} }
#endif
