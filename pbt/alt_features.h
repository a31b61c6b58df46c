// The other choices of the build options: no std::variant, concepts or std::span, no std::exception_ptr, no locks.
#pragma once
#define THREAD_TLS_USE_PTHREAD 1
#include <libcopp/utils/config/libcopp_build_features.h>
#undef LIBCOPP_MACRO_ENABLE_STD_VARIANT
#undef LIBCOPP_MACRO_ENABLE_CONCEPTS
#undef LIBCOPP_MACRO_ENABLE_STD_SPAN
#define LIBCOPP_MACRO_ENABLE_STD_SPAN 0
#undef LIBCOPP_DISABLE_ATOMIC_LOCK
#define LIBCOPP_DISABLE_ATOMIC_LOCK 1
#undef LIBCOPP_LOCK_DISABLE_MT
#define LIBCOPP_LOCK_DISABLE_MT 1
#undef LIBCOPP_LOCK_DISABLE_THIS_MT
#define LIBCOPP_LOCK_DISABLE_THIS_MT 1
#undef LIBCOPP_MACRO_ENABLE_EXCEPTION
#define LIBCOPP_MACRO_ENABLE_EXCEPTION 0
#undef LIBCOPP_MACRO_NOEXCEPT
#define LIBCOPP_MACRO_NOEXCEPT
#undef LIBCOPP_MACRO_ENABLE_NOEXCEPT
#undef LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
#define LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR 0
#undef LIBCOPP_MACRO_ENABLE_RTTI
#define LIBCOPP_MACRO_ENABLE_RTTI 0
#ifdef VP_NO_MANAGER  // of the harness: it uses no task managers
#  undef LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
#endif
