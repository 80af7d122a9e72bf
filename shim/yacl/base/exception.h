// contract shim: YACL_ENFORCE(c, ...) = "throws unless c" (message arguments dropped)
#pragma once
#include "vf.h"
#define YACL_ENFORCE(c, ...) do { if (!(c)) ::vf::thrown(); } while (0)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_ENFORCE((a) == (b))
#define YACL_ENFORCE_NE(a, b, ...) YACL_ENFORCE((a) != (b))
#define YACL_ENFORCE_GT(a, b, ...) YACL_ENFORCE((a) > (b))
#define YACL_ENFORCE_GE(a, b, ...) YACL_ENFORCE((a) >= (b))
#define YACL_ENFORCE_LT(a, b, ...) YACL_ENFORCE((a) < (b))
#define YACL_ENFORCE_LE(a, b, ...) YACL_ENFORCE((a) <= (b))
#define YACL_THROW(...) ::vf::thrown()
#define YACL_THROW_WITH_STACK(...) ::vf::thrown()
#define YACL_THROW_LOGIC_ERROR(...) ::vf::thrown()
#define YACL_THROW_INVALID_FORMAT(...) ::vf::thrown()
#define YACL_THROW_IO_ERROR(...) ::vf::thrown()
#define YACL_THROW_NETWORK_ERROR(...) ::vf::thrown()
#define YACL_WARN_IF(...) (void)0
