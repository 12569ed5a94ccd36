"""Runs a command as the foreground job of a terminal and reports what becomes
of it: sup.py TTY IGN EXECUTABLE ARGV...  (IGN: ignored signals, "-" for none).
Lines on standard output: pid, then [kind, number, terminal as it was]."""
import fcntl, json, os, signal, sys, termios
tty, ign, exe = sys.argv[1:4]
SIGS = [signal.SIGALRM, signal.SIGHUP, signal.SIGINT, signal.SIGPIPE, signal.SIGQUIT, signal.SIGTERM, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU]
def say(x):
    os.write(rep, (json.dumps(x) + "\n").encode())
rep = int(os.environ.pop("SUP_FD"))
os.setsid()
fd = os.open(tty, os.O_RDWR)
fcntl.ioctl(fd, termios.TIOCSCTTY, 0)
for s in SIGS:
    signal.signal(s, signal.SIG_IGN)
t0 = termios.tcgetattr(fd)
pid = os.fork()
if pid == 0:
    os.setpgid(0, 0)
    os.tcsetpgrp(fd, os.getpid())
    os.close(fd)
    os.close(rep)
    for k, s in enumerate(SIGS):
        signal.signal(s, signal.SIG_IGN if str(k) in ign else signal.SIG_DFL)
    os.execv(exe, sys.argv[4:])
try:
    os.setpgid(pid, pid)
except OSError:
    pass
say(pid)
while True:
    _, st = os.waitpid(pid, os.WUNTRACED)
    same = int(termios.tcgetattr(fd) == t0)
    if os.WIFSTOPPED(st):
        s = os.WSTOPSIG(st)
        say(["stop", SIGS.index(s) if s in SIGS else -s, same])
        os.tcsetpgrp(fd, pid)
        os.kill(pid, signal.SIGCONT)
    elif os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        say(["kill", SIGS.index(s) if s in SIGS else -s, same])
        break
    else:
        say(["exit", os.WEXITSTATUS(st), same])
        break
