/* Stand-in for the include-what-you-use program, run by the real iwyu_tool.py.
   It records how it was called and then behaves as the explorer tells it to.

   $FAKE_CTL/log       appended: one record per event
   $FAKE_CTL/out.<id>  bytes to print, if present (before waiting)
   $FAKE_CTL/go.<id>   FIFO; if present, wait for a line "<code> <bytes>":
                       code >= 0 exit status, < 0 die by that signal;
                       print <bytes> bytes of filler first.
   The id is the value of the argument -DID=<id>.  */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>

static void emit(int fd, const char *s, size_t n) {
  while (n) {
    ssize_t r = write(fd, s, n);
    if (r <= 0) _exit(98);
    s += r;
    n -= r;
  }
}

int main(int argc, char **argv) {
  static char rec[1 << 16], path[4096], buf[1 << 16];
  const char *ctl = getenv("FAKE_CTL");
  const char *id = "?";
  char cwd[4096];
  int i, fd;
  size_t n = 0;
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  if (!ctl || !getcwd(cwd, sizeof cwd)) return 97;
  for (i = 1; i < argc; i++)
    if (!strncmp(argv[i], "-DID=", 5)) id = argv[i] + 5;
  n += sprintf(rec + n, "START%c%s%c%d%c%s", 0, id, 0, (int)getpid(), 0, cwd) ;
  rec[n++] = 0;
  for (i = 0; i < argc; i++) {
    size_t l = strlen(argv[i]);
    if (n + l + 8 > sizeof rec) return 96;
    memcpy(rec + n, argv[i], l);
    n += l;
    rec[n++] = 0;
  }
  rec[n++] = 1; /* record end: "\1\n" */
  rec[n++] = '\n';
  snprintf(path, sizeof path, "%s/log", ctl);
  fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0 || write(fd, rec, n) != (ssize_t)n) return 95;
  close(fd);

  snprintf(path, sizeof path, "%s/out.%s", ctl, id);
  fd = open(path, O_RDONLY);
  if (fd >= 0) {
    ssize_t r;
    while ((r = read(fd, buf, sizeof buf)) > 0) emit(1, buf, r);
    close(fd);
  }
  snprintf(path, sizeof path, "%s/go.%s", ctl, id);
  fd = open(path, O_RDONLY);
  if (fd >= 0) {
    int code = 0, bytes = 0;
    ssize_t r = 0;
    n = snprintf(buf, sizeof buf, "<%s stdout>\n", id);
    emit(1, buf, n);
    n = snprintf(buf, sizeof buf, "<%s stderr>\n", id);
    emit(2, buf, n);
    n = 0;
    while (n < sizeof buf - 1 && (r = read(fd, buf + n, 1)) == 1)
      if (buf[n++] == '\n') break;
    buf[n] = 0;
    if (sscanf(buf, "%d %d", &code, &bytes) != 2) return 94;
    n = snprintf(rec, sizeof rec, "<%s resumed>\n", id);
    emit(1, rec, n);
    memset(buf, 'x', sizeof buf);
    while (bytes > 0) {
      int k = bytes > 61 ? 61 : bytes;
      buf[k - 1] = '\n';
      emit(bytes % 2 ? 1 : 2, buf, k);
      buf[k - 1] = 'x';
      bytes -= k;
    }
    n = snprintf(rec, sizeof rec, "<%s end>\n", id);
    emit(2, rec, n);
    if (code < 0) {
      signal(-code, SIG_DFL);
      kill(getpid(), -code);
      pause();
    }
    return code;
  }
  return 0;
}
