// Precompiled for the sources of the code under test (only library headers: no header of /repo).
#include "compat.h"
#ifdef __cplusplus
#include <algorithm>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <google/protobuf/message.h>
#include <google/protobuf/service.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/io/zero_copy_stream.h>
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <boost/version.hpp>
#endif
