/* Link-time shim around the daemon (ld --wrap): virtual clock, scratch home
   directory and schedule noise.  No source of the daemon is touched.

   DNSF_CTL names a 4096-byte file mapped by the test-bed and the daemon:
     int64  [0]  clock offset in nanoseconds, added to every wall-clock read
     int64  [1]  schedule-noise level: maximal delay in microseconds before a
                 lock acquisition or socket call (0: off)
     int64  [2]  fault mask: 1 = send() on connections the daemon opened takes a part or asks
                                 to try again,
                             2 = recv() gives a part of what there is
     int64  [3]  crash point: the n-th call of time() from now kills the process
                 (0: off)
     int64  [4]  crash point: the n-th store into a mapped file from now kills the
                 process (0: off); needs the build that traces stores
     int64  [5]  counts the stores into mapped files
     int64  [6]  counts close() of descriptors that are not open
     int64  [7]  set to 1 to ask for the number of allocated heap bytes, which comes in
     int64  [8]
     int64  [9]  counts the descriptors closed
     int64 [10]  the port the daemon listens on
     int64 [11]  counts the faults injected into send() and recv()
     int64 [12]  crash point: the n-th opening, closing, renaming or removing of a file from now kills
                 the process before it happens (0: off)
     int64 [13]  counts these file operations
   DNSF_HOME replaces the home directory the daemon derives its data folder from.
*/
#define _GNU_SOURCE
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <pwd.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <netinet/in.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static _Atomic int64_t *Ctl;
static _Atomic int64_t Dummy[16];

static void __attribute__((constructor)) shim_init(void)
{
    const char *p = getenv("DNSF_CTL");
    Ctl = Dummy;
    signal(SIGXFSZ, SIG_IGN);    /* a file size limit stands for a full disk */
    if( p != NULL )
    {
        int fd = open(p, O_RDWR);
        if( fd >= 0 )
        {
            void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if( m != MAP_FAILED )
            {
                Ctl = (_Atomic int64_t *)m;
            }
            close(fd);
        }
    }
}

static int64_t ctl(int i)
{
    return Ctl == NULL ? 0 : atomic_load_explicit(&Ctl[i], memory_order_relaxed);
}

static int64_t real_ns(clockid_t c)
{
    struct timespec t;
    extern int __real_clock_gettime(clockid_t, struct timespec *);
    __real_clock_gettime(c, &t);
    return (int64_t)t.tv_sec * 1000000000LL + t.tv_nsec;
}

static int64_t virt_mono(void)
{
    return real_ns(CLOCK_MONOTONIC) + ctl(0);
}

/* ---- crash points in a mapped file ---- */
static char *MapLow, *MapHigh;

void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    extern void *__real_mmap(void *, size_t, int, int, int, off_t);
    void *m = __real_mmap(a, n, prot, flags, fd, o);
    if( m != MAP_FAILED && fd >= 0 && (flags & MAP_SHARED) )
    {
        MapLow = (char *)m;
        MapHigh = (char *)m + n;
    }
    return m;
}

static void stored(void *p)
{
    if( (char *)p >= MapLow && (char *)p < MapHigh )
    {
        atomic_fetch_add(&Ctl[5], 1);
        if( ctl(4) > 0 && atomic_fetch_sub(&Ctl[4], 1) == 1 )
        {
            kill(getpid(), SIGKILL);
        }
    }
}

void __sanitizer_cov_trace_pc(void) {}
void __sanitizer_cov_store1(void *p) { stored(p); }
void __sanitizer_cov_store2(void *p) { stored(p); }
void __sanitizer_cov_store4(void *p) { stored(p); }
void __sanitizer_cov_store8(void *p) { stored(p); }
void __sanitizer_cov_store16(void *p) { stored(p); }

/* ---- heap ---- */
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static void heap(void)
{
    if( ctl(7) == 1 )
    {
        struct mallinfo2 m;
        if( __sanitizer_get_current_allocated_bytes != NULL )
        {
            atomic_store(&Ctl[8], (int64_t)__sanitizer_get_current_allocated_bytes());
        } else {
            m = mallinfo2();
            atomic_store(&Ctl[8], (int64_t)(m.uordblks + m.hblkhd));
        }
        atomic_store(&Ctl[7], 0);
    }
}

/* ---- descriptors ---- */
int __wrap_close(int fd)
{
    extern int __real_close(int);
    int r = __real_close(fd);
    if( r != 0 && errno == EBADF && fd >= 0 )
    {
        void *bt[12];
        if( atomic_fetch_add(&Ctl[6], 1) < 3 )
        {
            fprintf(stderr, "BAD-CLOSE %d\n", fd);
            backtrace_symbols_fd(bt, backtrace(bt, 12), 2);
        }
    } else {
        atomic_fetch_add(&Ctl[9], 1);
    }
    return r;
}

/* ---- crash points at file operations ---- */
static void fileop(void)
{
    atomic_fetch_add(&Ctl[13], 1);
    if( ctl(12) > 0 && atomic_fetch_sub(&Ctl[12], 1) == 1 )
    {
        kill(getpid(), SIGKILL);
    }
}

FILE *__wrap_fopen(const char *p, const char *m)
{
    extern FILE *__real_fopen(const char *, const char *);
    fileop();
    return __real_fopen(p, m);
}
int __wrap_fclose(FILE *f)
{
    extern int __real_fclose(FILE *);
    fileop();
    return __real_fclose(f);
}
int __wrap_rename(const char *a, const char *b)
{
    extern int __real_rename(const char *, const char *);
    fileop();
    return __real_rename(a, b);
}
int __wrap_remove(const char *p)
{
    extern int __real_remove(const char *);
    fileop();
    return __real_remove(p);
}
int __wrap_unlink(const char *p)
{
    extern int __real_unlink(const char *);
    fileop();
    return __real_unlink(p);
}

/* ---- clock ---- */
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
    extern int __real_clock_gettime(clockid_t, struct timespec *);
    int r = __real_clock_gettime(c, t);
    if( r == 0 && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID )
    {
        int64_t v = (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec + ctl(0);
        t->tv_sec = v / 1000000000LL;
        t->tv_nsec = v % 1000000000LL;
    }
    return r;
}

time_t __wrap_time(time_t *o)
{
    if( ctl(3) > 0 && atomic_fetch_sub(&Ctl[3], 1) == 1 )
    {
        kill(getpid(), SIGKILL);
    }
    time_t r = (real_ns(CLOCK_REALTIME) + ctl(0)) / 1000000000LL;
    if( o != NULL )
    {
        *o = r;
    }
    return r;
}

int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    int64_t v = real_ns(CLOCK_REALTIME) + ctl(0);
    (void)tz;
    tv->tv_sec = v / 1000000000LL;
    tv->tv_usec = (v % 1000000000LL) / 1000;
    return 0;
}

/* ---- sleeping ---- */
/* A thread that sleeps again right after it woke goes on from the time it should have woken at:
   SLEEP(10000) is a thousand short sleeps, and all of them must end when the clock jumps past them. */
static void virt_sleep(int64_t ns)
{
    static __thread int64_t Planned, Woken;
    extern int __real_nanosleep(const struct timespec *, struct timespec *);
    int64_t now = virt_mono(), end = now + ns, left;
    if( Woken != 0 && real_ns(CLOCK_MONOTONIC) - Woken < 10000000 && Planned < now )
    {
        end = (now - Planned > 30000000000LL ? now - 30000000000LL : Planned) + ns;
    }
    while( (left = end - virt_mono()) > 0 )
    {
        struct timespec s = {0, left > 20000000 ? 20000000 : left};
        __real_nanosleep(&s, NULL);
    }
    Planned = end;
    Woken = real_ns(CLOCK_MONOTONIC);
}

int __wrap_usleep(useconds_t u) { virt_sleep((int64_t)u * 1000); return 0; }
unsigned int __wrap_sleep(unsigned int s) { virt_sleep((int64_t)s * 1000000000LL); return 0; }
int __wrap_nanosleep(const struct timespec *r, struct timespec *m)
{
    (void)m;
    virt_sleep((int64_t)r->tv_sec * 1000000000LL + r->tv_nsec);
    return 0;
}

/* ---- schedule noise ---- */
static void noise(void)
{
    static _Atomic uint64_t Seed = 88172645463325252ULL;
    int64_t lvl = ctl(1);
    if( lvl > 0 )
    {
        static __thread uint64_t x;
        extern int __real_nanosleep(const struct timespec *, struct timespec *);
        if( x == 0 )
        {
            x = atomic_fetch_add(&Seed, 0x9E3779B97F4A7C15ULL) ^ (uint64_t)real_ns(CLOCK_MONOTONIC);
            x |= 1;
        }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        if( (x & 7) == 0 )
        {
            struct timespec s = {0, (long)((x >> 8) % (uint64_t)lvl) * 1000};
            __real_nanosleep(&s, NULL);
        }
    }
}

int __wrap_pthread_spin_lock(pthread_spinlock_t *l)
{
    extern int __real_pthread_spin_lock(pthread_spinlock_t *);
    noise();
    return __real_pthread_spin_lock(l);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *l)
{
    extern int __real_pthread_mutex_lock(pthread_mutex_t *);
    noise();
    return __real_pthread_mutex_lock(l);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    extern int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
    noise();
    return __real_pthread_rwlock_rdlock(l);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    extern int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
    noise();
    return __real_pthread_rwlock_wrlock(l);
}
/* MemorySanitizer: nothing uninitialised leaves the process, and what a message did not
 * fill of its buffer counts as never written.  Structures the daemon sends to its own
 * sockets may have unused fields. */
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#endif
#endif
#ifdef MSAN
#include <sanitizer/msan_interface.h>
static void leaves(int s, const void *b, size_t n, const struct sockaddr *a)
{
    struct sockaddr_storage me;
    socklen_t ml = sizeof(me);
    if( a != NULL && getsockname(s, (struct sockaddr *)&me, &ml) == 0 && me.ss_family == a->sa_family &&
        ((struct sockaddr_in *)&me)->sin_port == ((struct sockaddr_in *)a)->sin_port )
    {
        return;
    }
    __msan_check_mem_is_initialized(b, n);
}
static void filled(void *b, ssize_t r, size_t n)
{
    if( r >= 0 && (size_t)r < n )
    {
        __msan_poison((char *)b + r, n - r);
    }
}
#else
#define leaves(s, b, n, a)
#define filled(b, r, n)
#endif
ssize_t __wrap_sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l)
{
    extern ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
    noise();
    leaves(s, b, n, a);
    return __real_sendto(s, b, n, f, a, l);
}
ssize_t __wrap_recvfrom(int s, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l)
{
    extern ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
    ssize_t r = __real_recvfrom(s, b, n, f, a, l);
    filled(b, r, n);
    noise();
    return r;
}

/* ---- partial transfers, as a full or nearly empty socket buffer gives ---- */
static _Atomic uint64_t Seed2;
static uint64_t chance(void)
{
    static __thread uint64_t x;
    if( x == 0 )
    {
        x = (atomic_fetch_add(&Seed2, 0x9E3779B97F4A7C15ULL) ^ (uint64_t)real_ns(CLOCK_MONOTONIC)) | 1;
    }
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return x >> 11;
}

ssize_t __wrap_send(int s, const void *b, size_t n, int f)
{
    extern ssize_t __real_send(int, const void *, size_t, int);
    leaves(s, b, n, NULL);
    if( (ctl(2) & 1) && n > 1 )
    {
        struct sockaddr_storage a;
        socklen_t l = sizeof(a);
        int port = -1;
        if( getsockname(s, (struct sockaddr *)&a, &l) == 0 )
        {
            port = ntohs(a.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&a)->sin6_port : ((struct sockaddr_in *)&a)->sin_port);
        }
        if( port != -1 && port != ctl(10) )
        {
            uint64_t r = chance() % 8;
            if( r == 0 )
            {
                atomic_fetch_add(&Ctl[11], 1);
                errno = EAGAIN;
                return -1;
            }
            if( r < 5 )
            {
                atomic_fetch_add(&Ctl[11], 1);
                return __real_send(s, b, 1 + chance() % (n - 1), f);
            }
        }
    }
    return __real_send(s, b, n, f);
}

ssize_t __wrap_recv(int s, void *b, size_t n, int f)
{
    extern ssize_t __real_recv(int, void *, size_t, int);
    if( (ctl(2) & 2) && n > 1 && !(f & MSG_PEEK) && chance() % 2 )
    {
        atomic_fetch_add(&Ctl[11], 1);
        n = 1 + chance() % (n - 1);
    }
    ssize_t r = __real_recv(s, b, n, f);
    if( !(f & MSG_PEEK) )
    {
        filled(b, r, n);
    }
    return r;
}

/* ---- select in virtual time ---- */
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    extern int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
    fd_set r0, w0, e0;
    int64_t end = 0;
    int bytes = n > 0 ? ((n + 63) / 64) * 8 : 0;

    if( r ) memcpy(&r0, r, bytes);
    if( w ) memcpy(&w0, w, bytes);
    if( e ) memcpy(&e0, e, bytes);
    if( tv != NULL )
    {
        if( tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000 )
        {
            errno = EINVAL;
            return -1;
        }
        end = virt_mono() + (int64_t)tv->tv_sec * 1000000000LL + (int64_t)tv->tv_usec * 1000;
    }

    for( ;; )
    {
        struct timeval slice = {0, 20000};
        int s;
        int64_t left = 0;

        if( tv != NULL )
        {
            left = end - virt_mono();
            if( left < 0 ) left = 0;
            if( left < 20000000 ) slice.tv_usec = (left + 999) / 1000;
        } else {
            slice.tv_usec = 200000;
        }
        heap();
        s = __real_select(n, r, w, e, &slice);
        if( s == 0 && (tv == NULL || end - virt_mono() > 0) )
        {
            if( r ) memcpy(r, &r0, bytes);
            if( w ) memcpy(w, &w0, bytes);
            if( e ) memcpy(e, &e0, bytes);
            continue;
        }
        if( tv != NULL )
        {
            left = end - virt_mono();
            if( left < 0 || s == 0 ) left = 0;
            tv->tv_sec = left / 1000000000LL;
            tv->tv_usec = (left % 1000000000LL) / 1000;
        }
        return s;
    }
}

/* ---- home directory ---- */
struct passwd *__wrap_getpwuid(uid_t u)
{
    extern struct passwd *__real_getpwuid(uid_t);
    static struct passwd p;
    char *h = getenv("DNSF_HOME");
    if( h == NULL )
    {
        return __real_getpwuid(u);
    }
    memset(&p, 0, sizeof(p));
    p.pw_name = "dnsf";
    p.pw_dir = h;
    p.pw_uid = u;
    return &p;
}
