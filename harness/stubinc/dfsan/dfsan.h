// Found before the project's own header when dfsan_custom.cpp is built for the
// sanitized drivers: everything is taken from there except where the labels of a
// byte are kept, because the sanitizer needs the addresses the project uses.
#pragma once
#define shadow_for project_shadow_for
#include PT_DFSAN_H
#undef shadow_for
extern "C" uint32_t *ptvm_shadow_for(void *);
namespace __dfsan {
inline dfsan_label *shadow_for(void *p) { return ptvm_shadow_for(p); }
inline const dfsan_label *shadow_for(const void *p) {
  return ptvm_shadow_for(const_cast<void *>(p));
}
} // namespace __dfsan
