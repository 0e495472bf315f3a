// Assertions, enabled by NAZARA_ENABLE_ASSERTS
#define NAZARA_ENABLE_ASSERTS
#define EXPECT_ON true
#define C30_NS c30_enabled
#define C30_NAME "enabled"
#include "C30_body.inc"
