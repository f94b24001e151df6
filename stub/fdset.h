/* an fd_set holds 1024 descriptors: beyond that FD_SET() writes past it */
#include <sys/select.h>
#ifdef __cplusplus
extern "C"
#endif
long verif_fdelt(long d);
#undef __FD_ELT
#define __FD_ELT(d) verif_fdelt(d)
