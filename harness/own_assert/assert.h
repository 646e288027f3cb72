// Stands in for the system's assert.h (C32): a failed assertion is reported to the harness.
#undef assert
#if defined(NDEBUG)
#  define assert(e) ((void)0)
#else
namespace vfa { void hit(const char* expr); }
#  define assert(e) ((e) ? (void)0 : ::vfa::hit(#e))
#endif
