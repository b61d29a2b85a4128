// helpers of the demonstrations
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <atomic>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <time.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#define ST_ASIO_CUSTOM_LOG
inline std::string& last_log() {static thread_local std::string s; return s;}
class unified_out
{
public:
#ifdef DEMO_LOG
#define LOGF(N) static void N##_out(const char* fmt, ...) {va_list ap; va_start(ap, fmt); char b[8192]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap); last_log() += b;}
#else
#define LOGF(N) static void N##_out(const char* fmt, ...) {}
#endif
	LOGF(fatal) LOGF(error) LOGF(warning) LOGF(info) LOGF(debug)
};
static double now() {timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9;}
static void fail(const char* fmt, ...) {va_list ap; va_start(ap, fmt); printf("FAILED: "); vprintf(fmt, ap); printf("\n"); fflush(stdout); _exit(1);}
static void done() {printf("ok\n"); fflush(stdout); _exit(0);}
template<typename F> static bool wait_for(F f, double s) {double e = now() + s; while (!f()) {if (now() > e) return false; usleep(500);} return true;}
static unsigned short free_port()
{
	int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	for (int i = 0; i < 1000; ++i) {unsigned short p = 20000 + (getpid() * 7 + i * 13) % 9000; a.sin_port = htons(p); if (0 == bind(fd, (sockaddr*) &a, sizeof a)) {close(fd); return p;}}
	fail("no port"); return 0;
}
static int raw_connect(unsigned short port)
{
	int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (connect(fd, (sockaddr*) &a, sizeof a)) {close(fd); return -1;} return fd;
}
