/* $SHELL stand-in: reports argv, environment and standard-fd kinds to the
 * harness, then waits for one byte telling it how to end. */
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
extern char **environ;
static int wr(int fd, const void *b, size_t n) {
  const char *p = b;
  while (n) { ssize_t r = write(fd, p, n); if (r <= 0) return -1; p += r; n -= (size_t)r; }
  return 0;
}
static int ws(int fd, const char *s) { uint32_t n = (uint32_t)strlen(s); return wr(fd, &n, 4) || wr(fd, s, n); }
int main(int argc, char **argv) {
  const char *p = getenv("PZ_REC");
  if (!p) return 97;
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  strncpy(a.sun_path, p, sizeof a.sun_path - 1);
  if (connect(fd, (struct sockaddr *)&a, sizeof a)) return 98;
  uint32_t pid = (uint32_t)getpid(), ac = (uint32_t)argc, ec = 0;
  while (environ[ec]) ec++;
  wr(fd, &pid, 4);
  wr(fd, &ac, 4);
  for (uint32_t i = 0; i < ac; i++) ws(fd, argv[i]);
  wr(fd, &ec, 4);
  for (uint32_t i = 0; i < ec; i++) ws(fd, environ[i]);
  unsigned char c[2];
  if (read(fd, c, 1) != 1) return 96;
  if (c[0] == 255) { /* die from a signal */
    raise(SIGKILL);
  }
  if (c[0] == 254) { /* write a lot of output first */
    static char buf[4096];
    memset(buf, 'x', sizeof buf);
    for (int i = 0; i < 64; i++) if (wr(1, buf, sizeof buf) || wr(2, buf, sizeof buf)) break;
    return 0;
  }
  return c[0];
}
