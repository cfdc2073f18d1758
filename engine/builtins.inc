enum Builtin { B_INT=1,B_ASSUME,B_CHECK,B_OBS,B_COVER,B_LIVE,B_CONC,B_PARAM,B_MALLOC,B_FREE,B_OBJSIZE,B_UNWIND,B_RESUME,B_FUEL,B_EXIT,B_PRINT,B_ITE,B_MEMCPY,B_MEMMOVE,B_MEMSET,B_MEMCMP,B_BCMP,B_STRLEN,B_MEMCHR,B_DYNCAST,B_ABORT,B_TERMINATE,B_ASSERTFAIL,B_ATEXIT,B_READABLE,B_STRCMP,B_PUREVIRT,B_WITNESS,B_TYPENAME,B_ISSYM,B_FMTD,B_STRTOD };
static std::map<string,int> g_builtins={
 {"__sym_int",B_INT},{"__sym_assume",B_ASSUME},{"__sym_check",B_CHECK},{"__sym_observe",B_OBS},{"__sym_cover",B_COVER},{"__sym_live",B_LIVE},{"__sym_concretize",B_CONC},{"__sym_param",B_PARAM},
 {"__sym_malloc",B_MALLOC},{"__sym_free",B_FREE},{"__sym_objsize",B_OBJSIZE},{"__sym_unwind",B_UNWIND},{"_Unwind_Resume",B_UNWIND},{"__sym_fuel",B_FUEL},{"__sym_stop",B_EXIT},{"__sym_print",B_PRINT},{"__sym_ite",B_ITE},
 {"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"memcmp",B_MEMCMP},{"bcmp",B_BCMP},{"strlen",B_STRLEN},{"memchr",B_MEMCHR},{"__dynamic_cast",B_DYNCAST},{"abort",B_ABORT},{"_ZSt9terminatev",B_TERMINATE},{"__clang_call_terminate",B_TERMINATE},{"__assert_fail",B_ASSERTFAIL},{"__cxa_atexit",B_ATEXIT},{"__sym_readable",B_READABLE},{"strcmp",B_STRCMP},{"__cxa_pure_virtual",B_PUREVIRT},{"__sym_witness",B_WITNESS},{"__sym_issym",B_ISSYM},{"__sym_fmtd",B_FMTD},{"__sym_strtod",B_STRTOD}};
