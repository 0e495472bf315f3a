// Assertions, as the build sets them
#ifdef NDEBUG
#define EXPECT_ON false
#else
#define EXPECT_ON true
#endif
#define C30_NS c30_default
#define C30_NAME "default"
#include "C30_body.inc"
