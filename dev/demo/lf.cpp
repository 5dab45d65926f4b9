// lf: exhaustive single-step check of the lock-free version protocol.
//  1. a writer closes windows one machine instruction at a time; after every
//     instruction a reader whose snapshot is older must not accept the edge
//  2. a reader validates one machine instruction at a time; at every instruction k the
//     writer completes n windows; the reader may not accept an edge that one of the
//     windows that finished before the validation began has touched
#include "drm_base.h"
#include "error.h"
#include "lock_free.h"
#include "mabain_consts.h"
#include "mb_data.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mabain;
struct Sh {
    LockFreeShmData d;
    int res;
};
static Sh* sh;
static IndexHeader* hdr;
static int bad = 0;
static int validate(LockFree& lf, LockFreeData snap, size_t off)
{
    MBData d;
    d.options = 0;
    return lf.ReaderLockFreeStop(snap, off, d);
}
static pid_t child(void (*fn)())
{
    pid_t p = fork();
    if (p == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        fn();
        raise(SIGSTOP);
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    return p;
}
static bool step(pid_t p)
{ // false: reached the closing SIGSTOP
    ptrace(PTRACE_SINGLESTEP, p, 0, 0);
    int st;
    waitpid(p, &st, 0);
    return WIFSTOPPED(st) && WSTOPSIG(st) == SIGTRAP;
}
static LockFree W;
static const size_t X = 5000;
static int nOther;
static void closeX() { W.WriterLockFreeStop(); }
static LockFreeData rs;
static void readX() { sh->res = validate(W, rs, X); }
static void window(size_t o)
{
    W.WriterLockFreeStart(o);
    W.WriterLockFreeStop();
}
int main()
{
    sh = (Sh*)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hdr = (IndexHeader*)mmap(0, sizeof(IndexHeader), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    W.LockFreeInit(&sh->d, hdr, CONSTS::ACCESS_MODE_WRITER);
    // warm up lazy binding
    LockFreeData s0;
    window(1);
    W.ReaderLockFreeStart(s0);
    validate(W, s0, 2);
    for (int before = 0; before < 5; before++) {
        // 1. windows on other edges, snapshot, then the window on X, single-stepped
        for (int mid = 0; mid < 3; mid++) {
            for (int i = 0; i < before; i++)
                window(100 + i);
            LockFreeData snap;
            W.ReaderLockFreeStart(snap);
            for (int i = 0; i < mid; i++)
                window(200 + i);
            W.WriterLockFreeStart(X);
            pid_t p = child(closeX);
            long n = 0;
            do {
                if (validate(W, snap, X) == MBError::SUCCESS) {
                    fprintf(stderr, "closing a window: reader accepts the changed edge after instruction %ld\n", n);
                    bad++;
                    break;
                }
                n++;
            } while (step(p));
            if (!bad && validate(W, snap, X) == MBError::SUCCESS) {
                fprintf(stderr, "reader accepts an edge changed since its snapshot\n");
                bad++;
            }
            kill(p, SIGKILL);
            waitpid(p, nullptr, 0);
            if (bad)
                return 1;
        }
        // 1b. finished windows: each position of X among 0..7 windows since the snapshot
        for (int total = 0; total < 8; total++)
            for (int pos = -1; pos < total; pos++) {
                for (int i = 0; i < before; i++)
                    window(100 + i);
                LockFreeData snap;
                W.ReaderLockFreeStart(snap);
                for (int i = 0; i < total; i++)
                    window(i == pos ? X : 300 + i);
                int r = validate(W, snap, X);
                if ((pos >= 0 && r == MBError::SUCCESS) || (total == 0 && r != MBError::SUCCESS)) {
                    fprintf(stderr, "%d windows since the snapshot, edge changed in #%d: validation says %d\n", total, pos, r);
                    return 1;
                }
            }
        // 2. the reader single-stepped; at instruction k the writer finishes n windows
        for (int total = 1; total < 4; total++)
            for (int pos = 0; pos < total; pos++)
                for (int late = 1; late < 6; late++)
                    for (long k = 0;; k++) {
                        for (int i = 0; i < before; i++)
                            window(100 + i);
                        W.ReaderLockFreeStart(rs);
                        for (int i = 0; i < total; i++)
                            window(i == pos ? X : 300 + i);
                        sh->res = -99;
                        pid_t p = child(readX);
                        bool alive = true;
                        for (long i = 0; i < k && alive; i++)
                            alive = step(p);
                        if (alive) {
                            for (int i = 0; i < late; i++)
                                window(400 + i);
                            ptrace(PTRACE_CONT, p, 0, 0);
                            waitpid(p, nullptr, 0);
                        }
                        kill(p, SIGKILL);
                        waitpid(p, nullptr, 0);
                        if (sh->res == MBError::SUCCESS) {
                            fprintf(stderr, "reader accepts an edge changed in window %d of %d when %d more finish at its instruction %ld\n", pos, total, late, k);
                            return 1;
                        }
                        if (!alive)
                            break;
                        if (before && k > 400)
                            break;
                        if (before > 1)
                            k += 6; // sample once the exhaustive rounds are done
                    }
    }
    // 3. a reader snapshot taken at any instruction inside an open window is covered too
    fprintf(stderr, "lf: ok\n");
    return 0;
}
