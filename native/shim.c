/* The wall clock and the kernel's random source as the simulator's choice.
   Loaded with LD_PRELOAD into the fresh interpreters of property C11. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int on = 0;
static int64_t now_ns = 0, step_ns = 0;
static uint64_t rng = 0;
static int rng_on = 0;

long long vsim_clock_reads = 0, vsim_random_reads = 0;

void vsim_clock(int64_t start_ns, int64_t step)
{
	now_ns = start_ns;
	step_ns = step;
	on = 1;
}

void vsim_random(uint64_t seed)
{
	rng = seed;
	rng_on = 1;
}

static int64_t tick(void)
{
	vsim_clock_reads++;
	now_ns += step_ns;
	return now_ns;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		int64_t t = tick();
		ts->tv_sec = t / 1000000000;
		ts->tv_nsec = t % 1000000000;
		return 0;
	}
	return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
	struct timespec ts;
	(void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

time_t time(time_t *p)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (p)
		*p = ts.tv_sec;
	return ts.tv_sec;
}

static uint64_t next(void)
{
	uint64_t z = (rng += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

ssize_t getrandom(void *buf, size_t n, unsigned int flags)
{
	unsigned char *b = buf;
	if (!rng_on)
		return syscall(SYS_getrandom, buf, n, flags);
	vsim_random_reads++;
	for (size_t i = 0; i < n; i++)
		b[i] = (unsigned char)next();
	return n;
}
