// Pre-included before every /repo header: the real memdebug.hh is parsed under
// another name and its documented hooks are redirected to the scheduler.
#pragma once
#include <stddef.h>
#include "config.h"
#undef HAVE_MEMDEBUG
#define memdebug repo_memdebug
#define memdebug_size repo_memdebug_size
#include "memdebug.hh"
#undef memdebug
#undef memdebug_size
extern "C" {
void* vsmd_make(void* p, size_t sz, unsigned tag);
void* vsmd_free(void* p, size_t sz, unsigned tag);
void vsmd_retire(void* p, size_t sz, unsigned tag);
void* vsmd_free_after_rcu(void* p, unsigned tag);
}
enum { memdebug_size = 0 };
struct memdebug {
    static inline void* make(void* ptr, size_t sz, memtag tag) { return vsmd_make(ptr, sz, tag & memtag_pool_mask); }
    static inline void set_landmark(void*, const char*, int) {}
    static inline void* check_free(void* ptr, size_t sz, memtag tag) { return vsmd_free(ptr, sz, tag & memtag_pool_mask); }
    static inline void check_rcu(void* ptr, size_t sz, memtag tag) { vsmd_retire(ptr, sz, tag & memtag_pool_mask); }
    static inline void* check_free_after_rcu(void* ptr, memtag tag) { return vsmd_free_after_rcu(ptr, tag & memtag_pool_mask); }
    static inline bool check_use(const void*, memtag) { return true; }
    static inline void assert_use(const void*, memtag) {}
};
