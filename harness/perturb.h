// Schedule perturbation (delays at function entries of the library) and kernel I/O fragmentation. Include after vh.h.
#ifndef VH_PERTURB_H_
#define VH_PERTURB_H_
#include <time.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>

namespace vh
{
struct Pert
{
	volatile unsigned yield_mask;   // one entry in (mask + 1) yields; 0: off
	volatile unsigned sleep_mask;   // one entry in (mask + 1) sleeps up to 100 us; 0: off
	volatile unsigned focus;        // the functions whose address hashes into 1/64 with this salt sleep up to 1 ms, one time in four; 0: off
	volatile unsigned short_read;   // one read in n is cut short; 0: off
	std::atomic<u64> delays;
};
inline Pert& pert() {static Pert p; return p;}
VH_NOINSTR inline unsigned prnd()
{
	static __thread unsigned x; 
	if (!x) {x = (unsigned) mix(syscall(SYS_gettid) * 7919ULL + g().case_seed) | 1;}
	x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x;
}
VH_NOINSTR inline void pnap(unsigned us) {struct timespec t = {0, (long) us * 1000}; nanosleep(&t, NULL);}
inline void pert_off() {Pert& p = pert(); p.yield_mask = p.sleep_mask = p.focus = p.short_read = 0;}
inline std::string pert_random(Rng& r)
{
	Pert& p = pert(); pert_off();
	switch (r.below(5))
	{
	case 0: break;
	case 1: p.yield_mask = (1u << r.range(5, 9)) - 1; break;
	case 2: p.sleep_mask = (1u << r.range(8, 12)) - 1; break;
	case 3: p.focus = (unsigned) r.next() | 1; break;
	default: p.focus = (unsigned) r.next() | 1; p.yield_mask = (1u << r.range(6, 10)) - 1;
	}
	if (r.chance(1, 2)) p.short_read = (unsigned) r.range(1, 8);
	return fmt("perturb(yield %x sleep %x focus %x short %u)", p.yield_mask, p.sleep_mask, p.focus, p.short_read);
}
}

#ifdef VH_PERTURB
extern "C" VH_NOINSTR void __cyg_profile_func_enter(void* fn, void*)
{
	vh::Pert& p = vh::pert(); unsigned r;
	if (!(p.yield_mask | p.sleep_mask | p.focus)) return;
	r = vh::prnd();
	if (p.focus)
	{
		unsigned h = ((unsigned) (size_t) fn ^ p.focus) * 2654435761u;
		if (0 == (h >> 26) && 0 == (r & 3)) {p.delays.fetch_add(1, std::memory_order_relaxed); vh::pnap((r >> 8) % ((h & 7) ? 150 : 1000)); return;}
	}
	if (p.yield_mask && 0 == (r & p.yield_mask)) {p.delays.fetch_add(1, std::memory_order_relaxed); sched_yield();}
	if (p.sleep_mask && 0 == (r >> 5 & p.sleep_mask)) {p.delays.fetch_add(1, std::memory_order_relaxed); vh::pnap((r >> 20) % 100);}
}
extern "C" VH_NOINSTR void __cyg_profile_func_exit(void*, void*) {}
#endif

#ifdef VH_WRAP_RECV // link with --wrap=recv,recvmsg
extern "C" ssize_t __real_recv(int, void*, size_t, int);
extern "C" ssize_t __real_recvmsg(int, struct msghdr*, int);
extern "C" VH_NOINSTR ssize_t __wrap_recv(int fd, void* b, size_t n, int f)
{
	unsigned s = vh::pert().short_read;
	if (s && n > 1 && 0 == vh::prnd() % s) n = 1 + vh::prnd() % (vh::prnd() % 2 ? n : (n < 8 ? n : 8));
	return __real_recv(fd, b, n, f);
}
extern "C" VH_NOINSTR ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f)
{
	unsigned s = vh::pert().short_read;
	if (s && m->msg_iovlen > 0 && NULL == m->msg_name && 0 == vh::prnd() % s)
	{
		struct msghdr c = *m; struct iovec v = m->msg_iov[0]; if (v.iov_len > 1) v.iov_len = 1 + vh::prnd() % v.iov_len;
		c.msg_iov = &v; c.msg_iovlen = 1; ssize_t r = __real_recvmsg(fd, &c, f); m->msg_flags = c.msg_flags; return r;
	}
	return __real_recvmsg(fd, m, f);
}
#endif
#endif
