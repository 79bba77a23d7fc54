// Scripted peers over real loopback sockets. Everything runs in the one thread of the worker: after every event the
// explorer waits until the kernel has delivered it and the event loop has handled it, so that schedules are exact.
#ifndef NET_H
#define NET_H
#include <arpa/inet.h>
#include <fcntl.h>
#include <linux/sockios.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include "qtlib.h"

inline double netNow() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

inline void spin(int rounds = 3) { for (int i = 0; i < rounds; ++i) { QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); QCoreApplication::processEvents(); } }

// Processes events until cond holds. False when it does not within the limit (a hang).
template <typename F> bool until(F cond, double seconds = 5)
{
	const double end = netNow() + seconds;
	for (int i = 0;; ++i)
	{
		if (cond()) return true;
		QCoreApplication::processEvents(); if (cond()) return true;
		if (netNow() > end) return false;
		if (i > 20) { struct timespec t = { 0, 200000 }; nanosleep(&t, 0); if (i % 16 == 0) QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); }
	}
}

// What is allocated at the moment (0 without AddressSanitizer).
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline long long liveBytes() { return __sanitizer_get_current_allocated_bytes ? (long long)__sanitizer_get_current_allocated_bytes() : 0; }

struct Peer // One end of a connection, as a raw non-blocking socket.
{
	int fd; std::string in; bool eof, reset; size_t taken;
	explicit Peer(int f = -1) : fd(f), eof(false), reset(false), taken(0) { if (fd >= 0) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); } }
	~Peer() { hardClose(); }
	Peer(const Peer&) = delete; Peer& operator=(const Peer&) = delete;
	void read(size_t max = (size_t)-1)
	{
		char b[65536];
		while (fd >= 0 && !eof && !reset && max > 0) { ssize_t n = ::recv(fd, b, std::min(sizeof b, max), 0); if (n > 0) { in.append(b, n); max -= n; } else if (n == 0) eof = true; else { if (errno != EAGAIN && errno != EINTR) reset = true; break; } }
	}
	bool ended() { read(); return fd < 0 || eof || reset; }
	size_t send(const std::string& s, size_t from = 0) { ssize_t n = fd >= 0 && from < s.size() ? ::send(fd, s.data() + from, s.size() - from, MSG_NOSIGNAL) : 0; if (n < 0) { if (errno != EAGAIN) reset = true; return 0; } return n; }
	bool arrived() const { int q = 0; if (fd < 0 || ioctl(fd, SIOCOUTQ, &q) != 0) return true; return q == 0; } // Everything sent is in the other end's kernel.
	bool give(const std::string& s, double seconds = 10) // Sends all of it, and lets the other end handle it.
	{
		// The loopback interface delivers within the system call; not waiting for the acknowledgement, which can be delayed, only a moment for a busy kernel.
		size_t at = 0; double sent = 0;
		if (!until([&]() { at += send(s, at); if (at >= s.size() && sent == 0) sent = netNow(); return (at >= s.size() && (arrived() || netNow() - sent > 0.0007)) || reset; }, seconds)) return false;
		spin(); return true;
	}
	void fin() // As in give(): delivered within the call, normally; its acknowledgement can be delayed.
	{
		if (fd < 0) return;
		shutdown(fd, SHUT_WR); const double at = netNow();
		until([&]() { struct tcp_info i; socklen_t n = sizeof i; return getsockopt(fd, IPPROTO_TCP, TCP_INFO, &i, &n) != 0 || i.tcpi_state != TCP_FIN_WAIT1 || netNow() - at > 0.0007; }, 1); spin();
	}
	void hardClose() { if (fd >= 0) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); fd = -1; } } // Reset: leaves no TIME_WAIT.
	void rst() { hardClose(); spin(4); }
};

inline int nextLoopback() { static int n = (getpid() * 131) & 0x3fff; return n = (n + 1) & 0xffff; } // Addresses are rotated, so that ports never run out.

struct Listener
{
	int fd, port; std::string ip;
	Listener() : fd(-1), port(0) { open(); }
	~Listener() { close(); }
	void open(int atPort = 0)
	{
		if (ip.empty()) { char b[32]; const int n = nextLoopback(); snprintf(b, sizeof b, "127.%d.%d.%d", 1 + (getpid() & 63), n >> 8, 1 + (n & 0xff) % 254); ip = b; }
		fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(atPort); inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
		if (bind(fd, (struct sockaddr*)&a, sizeof a) != 0 || listen(fd, 200) != 0) { perror("listen"); _exit(77); }
		socklen_t n = sizeof a; getsockname(fd, (struct sockaddr*)&a, &n); port = ntohs(a.sin_port);
		fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
	}
	void close() { if (fd >= 0) { ::close(fd); fd = -1; } }
	Peer* accept(double seconds = 5) { int c = -1; until([&]() { c = ::accept4(fd, 0, 0, SOCK_CLOEXEC); return c >= 0; }, seconds); return c >= 0 ? new Peer(c) : 0; }
	bool pending() { struct pollfd p = { fd, POLLIN, 0 }; return ::poll(&p, 1, 0) > 0; }
	std::string base() const { return "http://" + ip + ":" + ref::num(port); }
};

inline Peer* connectTo(const std::string& ip, int port)
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
	if (connect(fd, (struct sockaddr*)&a, sizeof a) != 0) { ::close(fd); return 0; }
	return new Peer(fd);
}
#endif
