extern const char *CXY_BUILTINS_SOURCE;
extern unsigned long CXY_BUILTINS_SOURCE_SIZE;
extern unsigned long CXY_BUILTINS_SOURCE_MTIME;
