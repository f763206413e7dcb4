// Blocking primitives for instrumented code, used by the symbolic run and by the native replay.
#include "sx.h"
#include <errno.h>
#include <pthread.h>
#define W(m) ((volatile int *)(m))
int sx_p_pthread_mutex_init(void *m, void *a) { (void)a; *W(m) = 0; return 0; }
int sx_p_pthread_mutex_lock(void *m) { for (;;) { sx_sched_point(m, 4, 3); if (*W(m) == 0) { *W(m) = 1; return 0; } sx_yield(); } }
int sx_p_pthread_mutex_trylock(void *m) { sx_sched_point(m, 4, 3); if (*W(m) == 0) { *W(m) = 1; return 0; } return EBUSY; }
int sx_p_pthread_mutex_unlock(void *m) { sx_sched_point(m, 4, 3); sx_assert(*W(m) == 1, "mutex unlocked while not locked"); *W(m) = 0; return 0; }
int sx_p_pthread_rwlock_init(void *m, void *a) { (void)a; *W(m) = 0; return 0; }
int sx_p_pthread_rwlock_rdlock(void *m) { for (;;) { sx_sched_point(m, 4, 3); if (*W(m) >= 0) { (*W(m))++; return 0; } sx_yield(); } }
int sx_p_pthread_rwlock_tryrdlock(void *m) { sx_sched_point(m, 4, 3); if (*W(m) >= 0) { (*W(m))++; return 0; } return EBUSY; }
int sx_p_pthread_rwlock_wrlock(void *m) { for (;;) { sx_sched_point(m, 4, 3); if (*W(m) == 0) { *W(m) = -1; return 0; } sx_yield(); } }
int sx_p_pthread_rwlock_trywrlock(void *m) { sx_sched_point(m, 4, 3); if (*W(m) == 0) { *W(m) = -1; return 0; } return EBUSY; }
int sx_p_pthread_rwlock_unlock(void *m) { sx_sched_point(m, 4, 3); sx_assert(*W(m) != 0, "rwlock unlocked while not locked"); if (*W(m) < 0) *W(m) = 0; else (*W(m))--; return 0; }
int sx_p_pthread_spin_init(void *m, int a) { (void)a; *W(m) = 0; return 0; }
int sx_p_pthread_spin_lock(void *m) { return sx_p_pthread_mutex_lock(m); }
int sx_p_pthread_spin_trylock(void *m) { return sx_p_pthread_mutex_trylock(m); }
int sx_p_pthread_spin_unlock(void *m) { return sx_p_pthread_mutex_unlock(m); }
