// Replaces arm_mte.h (through its include guard): the tagging instructions as calls into the harness.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vp_mte_irg(void *p, uint64_t exclude);
void vp_mte_tag_clear(void *tagged, size_t len);
#ifdef __cplusplus
}
#endif
static inline void *arm_mte_create_random_tag(void *p, uint64_t exclude) { return vp_mte_irg(p, exclude); }
static inline void arm_mte_tag_and_clear_mem(void *tagged, size_t len) { vp_mte_tag_clear(tagged, len); }
