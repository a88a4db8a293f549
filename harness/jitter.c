/* Preloaded into the processes of a check: random delays before and after MPI calls, to spread the interleavings of the
 * ranks. Off until r4v_jitter() sets a probability. */
#include <mpi.h>
#include <time.h>

static unsigned prob;               /* of 2^16 */
static unsigned long long state = 88172645463325252ULL;
static unsigned long delays;

void r4v_jitter(unsigned p, unsigned long long seed) {
    prob = p;
    state = seed * 6364136223846793005ULL + 1442695040888963407ULL;
    if (!state) state = 1;
}

unsigned long r4v_delays(void) { return delays; }

static unsigned rnd(void) {
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    return (unsigned)(state >> 24);
}

static void jit(void) {
    if (!prob || (rnd() & 0xffff) >= prob) return;
    static const long ns[4] = {50000, 200000, 700000, 2500000};
    struct timespec t = {0, ns[rnd() & 3]};
    nanosleep(&t, 0);
    ++delays;
}

#define W(name, params, args) int MPI_##name params { jit(); int rc_ = PMPI_##name args; jit(); return rc_; }
#define V const void*
#define D MPI_Datatype
#define C MPI_Comm
W(Send, (V b, int n, D d, int p, int t, C c), (b, n, d, p, t, c))
W(Ssend, (V b, int n, D d, int p, int t, C c), (b, n, d, p, t, c))
W(Isend, (V b, int n, D d, int p, int t, C c, MPI_Request* r), (b, n, d, p, t, c, r))
W(Recv, (void* b, int n, D d, int p, int t, C c, MPI_Status* s), (b, n, d, p, t, c, s))
W(Irecv, (void* b, int n, D d, int p, int t, C c, MPI_Request* r), (b, n, d, p, t, c, r))
W(Sendrecv, (V b, int n, D d, int p, int t, void* b2, int n2, D d2, int p2, int t2, C c, MPI_Status* s), (b, n, d, p, t, b2, n2, d2, p2, t2, c, s))
W(Mprobe, (int p, int t, C c, MPI_Message* m, MPI_Status* s), (p, t, c, m, s))
W(Mrecv, (void* b, int n, D d, MPI_Message* m, MPI_Status* s), (b, n, d, m, s))
W(Wait, (MPI_Request* r, MPI_Status* s), (r, s))
W(Waitall, (int n, MPI_Request r[], MPI_Status s[]), (n, r, s))
W(Barrier, (C c), (c))
W(Bcast, (void* b, int n, D d, int p, C c), (b, n, d, p, c))
W(Gather, (V b, int n, D d, void* b2, int n2, D d2, int p, C c), (b, n, d, b2, n2, d2, p, c))
W(Gatherv, (V b, int n, D d, void* b2, const int n2[], const int o2[], D d2, int p, C c), (b, n, d, b2, n2, o2, d2, p, c))
W(Scatter, (V b, int n, D d, void* b2, int n2, D d2, int p, C c), (b, n, d, b2, n2, d2, p, c))
W(Scatterv, (V b, const int n[], const int o[], D d, void* b2, int n2, D d2, int p, C c), (b, n, o, d, b2, n2, d2, p, c))
W(Allgather, (V b, int n, D d, void* b2, int n2, D d2, C c), (b, n, d, b2, n2, d2, c))
W(Allgatherv, (V b, int n, D d, void* b2, const int n2[], const int o2[], D d2, C c), (b, n, d, b2, n2, o2, d2, c))
W(Alltoall, (V b, int n, D d, void* b2, int n2, D d2, C c), (b, n, d, b2, n2, d2, c))
W(Alltoallv, (V b, const int n[], const int o[], D d, void* b2, const int n2[], const int o2[], D d2, C c), (b, n, o, d, b2, n2, o2, d2, c))
W(Reduce, (V b, void* b2, int n, D d, MPI_Op o, int p, C c), (b, b2, n, d, o, p, c))
W(Allreduce, (V b, void* b2, int n, D d, MPI_Op o, C c), (b, b2, n, d, o, c))
