#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
void vm_assert_fail(void);
#define assert(x) ((x)?(void)0:vm_assert_fail())
#endif
