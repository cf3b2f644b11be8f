#pragma once
#include <sycl/sycl.hpp>
namespace cl { namespace sycl = ::sycl; }
