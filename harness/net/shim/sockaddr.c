/*
 * Translates the socket addresses that net2 0.2.35 passes to bind(2) and
 * connect(2).
 *
 * The repository's lock file pins a version of net2 (through tokio 0.2 and mio
 * 0.6) that passes a pointer to std's SocketAddrV4 as if that were a
 * `struct sockaddr_in`. Since Rust 1.64 it isn't: it's the four bytes of the
 * address followed by the port, so with the toolchain here every bind and
 * connect of tokio 0.2 fails with EINVAL. Nothing else passes an address of six
 * bytes, so that is what is recognised, and everything else is passed on as it
 * is.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/socket.h>

typedef int (*call)(int, const struct sockaddr *, socklen_t);

static int forward(const char *name, int fd, const struct sockaddr *addr, socklen_t len)
{
    call real = (call)dlsym(RTLD_NEXT, name);

    if (len == 6) {
        struct sockaddr_in in;
        unsigned short port;

        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET;
        memcpy(&in.sin_addr, addr, 4);
        memcpy(&port, (const char *)addr + 4, 2);
        in.sin_port = htons(port);

        return real(fd, (const struct sockaddr *)&in, sizeof in);
    }

    return real(fd, addr, len);
}

int bind(int fd, const struct sockaddr *addr, socklen_t len)
{
    return forward("bind", fd, addr, len);
}

int connect(int fd, const struct sockaddr *addr, socklen_t len)
{
    return forward("connect", fd, addr, len);
}
