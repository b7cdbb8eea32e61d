// A plain TCP peer on the loopback, for the demonstrations.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <thread>
#include <vector>
namespace net
{
using bytes = std::vector<uint8_t>;
inline sockaddr_in addr(int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); return a; }
struct Listener
{
    int fd, port;
    Listener() { fd = socket(AF_INET, SOCK_STREAM, 0); auto a = addr(0); bind(fd, (sockaddr*)&a, sizeof a); listen(fd, 16); socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); port = ntohs(a.sin_port); }
    ~Listener() { close(fd); }
    int accept_one(int ms = 5000) { pollfd p{fd, POLLIN, 0}; if(poll(&p, 1, ms) <= 0) return -1; return accept(fd, nullptr, nullptr); }
};
inline int free_port() { Listener l; return l.port; }
inline int dial(int port) { int fd = socket(AF_INET, SOCK_STREAM, 0); auto a = addr(port); if(connect(fd, (sockaddr*)&a, sizeof a)) { close(fd); return -1; } return fd; }
inline bool put(int fd, const bytes& b) { return send(fd, b.data(), b.size(), MSG_NOSIGNAL) == (ssize_t)b.size(); }
// Exactly one frame, or fewer bytes if it doesn't come in time or the peer closes.
inline bytes frame(int fd, int ms = 3000)
{
    bytes r; size_t want = 6;
    while(r.size() < want)
    {
        pollfd p{fd, POLLIN, 0};
        if(poll(&p, 1, ms) <= 0) return r;
        uint8_t buf[600]; ssize_t n = recv(fd, buf, want - r.size(), 0);
        if(n <= 0) return r;
        r.insert(r.end(), buf, buf + n);
        if(r.size() == 6) want = 6 + r[4] * 256 + r[5];
    }
    return r;
}
// True if the peer closes the connection within the time.
inline bool closed(int fd, int ms = 2000)
{
    for(;;) { pollfd p{fd, POLLIN, 0}; if(poll(&p, 1, ms) <= 0) return false; uint8_t b[64]; if(recv(fd, b, sizeof b, 0) <= 0) return true; }
}
inline bytes adu(int tid, int unit, const bytes& pdu) { bytes r{(uint8_t)(tid >> 8), (uint8_t)tid, 0, 0, (uint8_t)((pdu.size() + 1) >> 8), (uint8_t)(pdu.size() + 1), (uint8_t)unit}; r.insert(r.end(), pdu.begin(), pdu.end()); return r; }
inline void sleep_ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
template <class F> bool eventually(F f, int ms = 5000) { for(int i = 0; i < ms / 5; ++i) { if(f()) return true; sleep_ms(5); } return f(); }
}
