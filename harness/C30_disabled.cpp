// Assertions, disabled by NAZARA_NO_ASSERT
#define NAZARA_NO_ASSERT
#define NAZARA_ENABLE_ASSERTS
#define EXPECT_ON false
#define C30_NS c30_disabled
#define C30_NAME "disabled"
#include "C30_body.inc"
