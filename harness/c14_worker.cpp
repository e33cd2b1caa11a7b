// C14: a worker rank; compiled once per rank with its own name of the namespace firefly (and rec).
#include "recon.hpp"
#include "firefly/MPIWorker.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(c14_worker, MPI_RANK)(int n, int threads, int bunch, const std::vector<std::string>& f) { rec::BB bb(n, f); { if (bunch) firefly::MPIWorker<rec::BB> w(n, threads, bunch, bb); else firefly::MPIWorker<rec::BB> w(n, threads, bb); } MPI_Finalize(); }
