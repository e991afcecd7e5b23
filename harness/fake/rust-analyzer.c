/* A stand-in for the language server: hands its three standard streams to the harness
   over a Unix socket and lives until the harness tells it to exit (or somebody kills it). */
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "--version")) return 0;
    const char *path = getenv("FAKE_RA_SOCK");
    int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_un a = { .sun_family = AF_UNIX };
    strncpy(a.sun_path, path ? path : "", sizeof a.sun_path - 1);
    if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a)) return 3;
    int fds[3] = {0, 1, 2};
    char c[CMSG_SPACE(sizeof fds)]; memset(c, 0, sizeof c);
    struct iovec io = { .iov_base = "F", .iov_len = 1 };
    struct msghdr m = { .msg_iov = &io, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c };
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof fds);
    memcpy(CMSG_DATA(h), fds, sizeof fds);
    if (sendmsg(s, &m, 0) < 0) return 4;
    close(0); close(1); close(2);
    char x;
    if (read(s, &x, 1) < 0) return 1;
    return 0;
}
