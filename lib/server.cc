// Fork server around the real include-what-you-use main().
//
// The objects of include-what-you-use are linked in with the symbol `main`
// renamed to `iwyu_real_main`; nothing else about them changes.  Every job is
// run in a freshly forked child of this process, which has done nothing but
// start up, so a job sees exactly the process state a plain exec would give it
// (lib/iwyu.py replays a sample of jobs through the plainly linked binary and
// compares the bytes, to keep that claim honest).
//
// Protocol: on stdin, one job = u32 length, then that many bytes holding
// NUL-terminated strings: cwd, output file, argv[0], argv[1], ...
// On stdout, per job: i32 wait status, or -1 for a timeout.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <string>
#include <vector>

extern "C" int iwyu_real_main(int argc, char **argv);

static bool ReadAll(int fd, void *buf, size_t n) {
  char *p = (char *)buf;
  while (n) {
    ssize_t r = read(fd, p, n);
    if (r == 0) return false;
    if (r < 0) {
      if (errno == EINTR) continue;
      return false;
    }
    p += r;
    n -= r;
  }
  return true;
}

int main(int argc, char **argv) {
  int timeout = argc > 1 ? atoi(argv[1]) : 60;
  sigset_t chld;
  sigemptyset(&chld);
  sigaddset(&chld, SIGCHLD);
  sigprocmask(SIG_BLOCK, &chld, nullptr);
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    uint32_t len;
    if (!ReadAll(0, &len, sizeof len)) return 0;
    std::string buf(len, 0);
    if (!ReadAll(0, &buf[0], len)) return 0;
    std::vector<char *> strs;
    for (size_t i = 0; i < buf.size(); i += strlen(&buf[i]) + 1)
      strs.push_back(&buf[i]);
    pid_t pid = fork();
    if (pid == 0) {
      sigprocmask(SIG_UNBLOCK, &chld, nullptr);
      signal(SIGPIPE, SIG_DFL);
      if (chdir(strs[0]) != 0) _exit(99);
      int out = open(strs[1], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
      int in = open("/dev/null", O_RDONLY);
      if (out < 0 || in < 0) _exit(99);
      dup2(in, 0);
      dup2(out, 1);
      dup2(out, 2);
      close(in);
      close(out);
      struct rlimit core = {0, 0};
      setrlimit(RLIMIT_CORE, &core);
      std::vector<char *> av(strs.begin() + 2, strs.end());
      int ac = (int)av.size();
      av.push_back(nullptr);
      exit(iwyu_real_main(ac, av.data()));
    }
    int32_t status = -1;
    struct timespec ts = {1, 0};
    for (int waited = 0;; ) {
      int st;
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) {
        status = st;
        break;
      }
      if (sigtimedwait(&chld, nullptr, &ts) < 0 && errno == EAGAIN &&
          ++waited >= timeout) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        break;
      }
    }
    if (write(1, &status, sizeof status) != sizeof status) return 0;
  }
}
