/* Force-included (-include) into every compile by env.sh. The sources were written for
 * protobuf 2.x and boost 1.5x; the sandbox has protobuf 3.21 and boost 1.83 from apt. */
#ifndef VP_COMPAT_H
#define VP_COMPAT_H
#ifdef __cplusplus
/* Closure was declared by <google/protobuf/stubs/common.h> in protobuf 2.x. */
#include <google/protobuf/stubs/callback.h>
/* Gone from protobuf. */
#define GOOGLE_ATTRIBUTE_DEPRECATED
/* Took a second argument (a warning threshold) in protobuf 2.x. */
#define SetTotalBytesLimit(limit, ...) SetTotalBytesLimit(limit)
/* asio's socket/acceptor native() is now native_handle(). Function-like on purpose. */
#define native() native_handle()
#endif
#endif
