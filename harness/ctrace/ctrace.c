/* ctrace MODE N PREFIX COUNTFILE CMD... - runs CMD and counts the system calls
   (of all its threads) that change something below a path starting with PREFIX.
   MODE kill: at the N-th one (before it takes effect) everything is killed.
   MODE errno number: the N-th one fails with that error instead of happening.
   N = 0: only count.  COUNTFILE gets the count and a line per call.
   CT_ONLY: the only kind of call, or part of the path, to count.
   CT_NOT: the same, not to count.   CT_ALSO: a second PREFIX.
   CT_READS: count the calls that read instead of those that change.
   CT_WHILE: all calls from the N-th on fail while this file exists
   (with CT_ONCE: only the N-th one, if it exists).                           */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static const int reads[] = { SYS_openat, SYS_open, SYS_read, SYS_pread64, SYS_getdents64 };
#define NR ((int)(sizeof reads / sizeof *reads))
static const int calls[] = { SYS_openat, SYS_mkdirat, SYS_unlinkat, SYS_renameat, SYS_renameat2, SYS_write, SYS_pwrite64,
  SYS_ftruncate, SYS_truncate, SYS_symlinkat, SYS_linkat, SYS_fchmodat, SYS_copy_file_range, SYS_sendfile,
  SYS_open, SYS_creat, SYS_mkdir, SYS_rmdir, SYS_unlink, SYS_rename, SYS_writev };
#define NC ((int)(sizeof calls / sizeof *calls))

static void child(char **argv) {
  struct sock_filter f[NC + NR + 4];
  int n = 0, rd = getenv("CT_READS") != NULL;
  const int *l = rd ? reads : calls;
  int k = rd ? NR : NC;
  f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < k; i++)
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, l[i], k - i, 0);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  struct sock_fprog p = { n, f };
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || ptrace(PTRACE_TRACEME, 0, 0, 0)) { perror("HARNESS-ERROR: ptrace"); _exit(97); }
  raise(SIGSTOP);
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { perror("HARNESS-ERROR: seccomp"); _exit(97); }
  execvp(argv[0], argv);
  perror("HARNESS-ERROR: exec");
  _exit(97);
}

static void text(pid_t t, unsigned long a, char *buf, int n) {
  struct iovec l = { buf, n - 1 }, r = { (void *)a, n - 1 };
  ssize_t k = process_vm_readv(t, &l, 1, &r, 1, 0);
  if (k < 0) { /* may end at a page boundary */
    r.iov_len = 4096 - (a & 4095);
    if (r.iov_len > (size_t)n - 1) r.iov_len = n - 1;
    l.iov_len = r.iov_len;
    k = process_vm_readv(t, &l, 1, &r, 1, 0);
  }
  buf[k < 0 ? 0 : k] = 0;
}

static void fdpath(pid_t t, int fd, char *buf, int n) {
  char p[64];
  if (fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", t); else snprintf(p, sizeof p, "/proc/%d/fd/%d", t, fd);
  ssize_t k = readlink(p, buf, n - 1);
  buf[k < 0 ? 0 : k] = 0;
}

static void at(pid_t t, int fd, unsigned long a, char *buf, int n) {
  char s[4096];
  text(t, a, s, sizeof s);
  if (s[0] == '/') { snprintf(buf, n, "%s", s); return; }
  char d[4096];
  fdpath(t, fd, d, sizeof d);
  snprintf(buf, n, "%s/%s", d, s);
}

int main(int argc, char **argv) {
  if (argc < 6) return 98;
  int mode = strcmp(argv[1], "kill") ? atoi(argv[1]) : -1;
  long N = atol(argv[2]), count = 0;
  const char *prefix = argv[3];
  size_t pl = strlen(prefix);
  const char *only = getenv("CT_ONLY"), *not = getenv("CT_NOT"), *also = getenv("CT_ALSO"), *during = getenv("CT_WHILE");
  int rd = getenv("CT_READS") != NULL, once = getenv("CT_ONCE") != NULL;
  FILE *log = fopen(argv[4], "w");
  pid_t c = fork();
  if (c == 0) child(argv + 5);
  int st, rc = 0, killed = 0;
  waitpid(c, &st, 0);
  if (ptrace(PTRACE_SETOPTIONS, c, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_EXITKILL)) { perror("HARNESS-ERROR: setoptions"); return 97; }
  ptrace(PTRACE_CONT, c, 0, 0);
  for (;;) {
    pid_t t = waitpid(-1, &st, __WALL);
    if (t < 0) { if (errno == EINTR) continue; break; }
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (t == c) { rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
      continue;
    }
    int sig = 0, ev = st >> 16;
    if (ev == PTRACE_EVENT_SECCOMP && !killed) {
      struct user_regs_struct r;
      ptrace(PTRACE_GETREGS, t, 0, &r);
      char p[8300] = "";
      const char *name = "";
      if (rd) switch (r.orig_rax) {
      case SYS_openat: if (!(r.rdx & O_CREAT)) { at(t, r.rdi, r.rsi, p, sizeof p); name = "open"; } break;
      case SYS_open: if (!(r.rsi & O_CREAT)) { at(t, AT_FDCWD, r.rdi, p, sizeof p); name = "open"; } break;
      default: fdpath(t, r.rdi, p, sizeof p); name = r.orig_rax == SYS_getdents64 ? "list" : "read"; break;
      }
      else switch (r.orig_rax) {
      case SYS_openat: if (r.rdx & (O_CREAT | O_TRUNC)) { at(t, r.rdi, r.rsi, p, sizeof p); name = "create"; } break;
      case SYS_open: if (r.rsi & (O_CREAT | O_TRUNC)) { at(t, AT_FDCWD, r.rdi, p, sizeof p); name = "create"; } break;
      case SYS_mkdirat: at(t, r.rdi, r.rsi, p, sizeof p); name = "mkdir"; break;
      case SYS_unlinkat: at(t, r.rdi, r.rsi, p, sizeof p); name = "unlink"; break;
      case SYS_mkdir: at(t, AT_FDCWD, r.rdi, p, sizeof p); name = "mkdir"; break;
      case SYS_rmdir: case SYS_unlink: at(t, AT_FDCWD, r.rdi, p, sizeof p); name = "unlink"; break;
      case SYS_rename: at(t, AT_FDCWD, r.rdi, p, sizeof p); name = "rename"; break;
      case SYS_renameat: case SYS_renameat2: at(t, r.rdi, r.rsi, p, sizeof p); name = "rename"; break;
      case SYS_symlinkat: at(t, r.rsi, r.rdx, p, sizeof p); name = "symlink"; break;
      case SYS_linkat: at(t, r.rdx, r.r10, p, sizeof p); name = "link"; break;
      case SYS_truncate: at(t, AT_FDCWD, r.rdi, p, sizeof p); name = "truncate"; break;
      case SYS_fchmodat: at(t, r.rdi, r.rsi, p, sizeof p); name = "chmod"; break;
      case SYS_copy_file_range: fdpath(t, r.rdx, p, sizeof p); name = "copy"; break;
      default: fdpath(t, r.rdi, p, sizeof p); name = "write"; break;
      }
      int here = p[0] && !strncmp(p, prefix, pl), there = p[0] && also && !strncmp(p, also, strlen(also));
      if ((here || there) && (!only || !strcmp(name, only) || strstr(p, only)) && !(not && (!strcmp(name, not) || strstr(p, not)))) {
        count++;
        if (N && (count == N || (count > N && during && !once)) && (!during || access(during, F_OK) == 0)) {
          fprintf(log, "%s%s %s\n", mode < 0 ? "" : "! ", name, p + (here ? pl : strlen(also)));
          fflush(log);
          if (mode < 0) { killed = 1; kill(c, SIGKILL); continue; }
          r.orig_rax = -1;
          r.rax = -mode;
          ptrace(PTRACE_SETREGS, t, 0, &r);
        } else
          fprintf(log, "%s %s\n", name, p + (here ? pl : strlen(also)));
      }
    } else if (ev == 0) {
      sig = WSTOPSIG(st);
      if (sig == SIGSTOP || sig == SIGTRAP) sig = 0; /* a new thread */
    }
    ptrace(PTRACE_CONT, t, 0, (long)sig);
  }
  fprintf(log, "= %ld\n", count);
  fclose(log);
  return killed ? 137 : rc;
}
