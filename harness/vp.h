/* Harness interface: symbolic inputs, assumptions, assertions and the modelled environment. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
void	 vp_symbolic(void *, size_t, const char *name);
int64_t	 vp_i64(const char *name);
uint32_t vp_u32(const char *name);
uint8_t	 vp_u8(const char *name);
int	 vp_range(const char *name, int lo, int hi);
void	 vp_assume(int);
void	 vp_assert_(int, const char *id);
void	 vp_fail(const char *id);
void	 vp_reach(const char *id);
void	 vp_log(const char *);
void	 vp_end(void) __attribute__((noreturn));
int64_t	 vp_param(const char *name, int64_t def);
char	*vp_sparam(const char *name);
char	*vp_slurp(const char *file, size_t *n);
void	 vp_dump(const char *file, const void *, size_t);
int64_t	 vp_conc(int64_t);
size_t	 vp_live(void);
/* environment */
FILE	*vp_in(const char *name, const void *buf, size_t n);	/* readable stream over these bytes */
FILE	*vp_out(void);						/* write-only stream */
char	*vp_out_buf(FILE *, size_t *);				/* what was written so far (NUL-terminated) */
void	 vp_read_fault(FILE *, int64_t k);			/* k-th byte read reports an error */
void	 vp_alloc_fault(int64_t k);				/* k-th allocation from now on fails; -1: none */
void	 vp_write_fault(FILE *, int64_t k);			/* k-th write call on this stream fails; -1: none */
int	 vp_fault_fired(void);
void	 vp_file(const char *path, const void *buf, size_t n);	/* make fopen(path) succeed with this content */
/* an assertion's condition as a side-effect free expression */
#define vp_assert(c, id) vp_assert_((c) ? 1 : 0, id)
#endif
