"""A process that keeps every signal it is sent and says which on request.

fd 3: requests (one byte each), fd 4: answers.  With an argument it also starts a
companion in its own process group that does the same on fds 5 and 6."""
import os, signal, sys
everything = [s for s in range(1, 65) if s not in (9, 19, 32, 33)]
signal.pthread_sigmask(signal.SIG_BLOCK, everything)
rd, wr = 3, 4
if len(sys.argv) > 1:
    pid = os.fork()
    if pid == 0:
        os.close(3); os.close(4)
        rd, wr = 5, 6
    else:
        os.close(5); os.close(6)
os.write(wr, b'%d\n' % os.getpid())
while True:
    if not os.read(rd, 1):
        os._exit(0)
    got = []
    while True:
        s = signal.sigtimedwait(everything, 0)
        if s is None:
            break
        if not (s.si_signo == 17 and s.si_code > 0):     # the kernel's own SIGCHLD
            got.append(s.si_signo)
    os.write(wr, (' '.join(map(str, got)) + '\n').encode())
