#pragma once
#include "internal.h"
#include <memory>
#include <unordered_map>
#include <sys/types.h>
struct pollfd;
namespace sim {
struct inode { std::string path; int memfd = -1; int opens = 0; bool linked = true; };
struct sock;
struct desc {
    enum { FILE_, DIR_, SOCK, DEV } kind = FILE_;
    std::shared_ptr<inode> in;
    std::shared_ptr<sock> s;
    std::string path;
    int64_t off = 0;
    int flags = 0;
};
std::unordered_map<int, desc>& fds();
desc* find_fd(int fd);
int alloc_fd();                    // a fresh descriptor number (dup of /dev/null)
void drop_fd(int fd);
void net_close(sock* s, int fd);
ssize_t net_recv(sock* s, void* b, size_t n, int flags, void* addr, unsigned* alen);
ssize_t net_send(sock* s, const void* b, size_t n, int flags, const void* addr, unsigned alen);
int net_poll(struct pollfd* p, unsigned long n, int to);
int dev_close(int fd, const std::string& path);
}
