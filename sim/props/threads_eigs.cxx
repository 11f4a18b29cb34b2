// C08: the library's own hypergraphs and local solvers as problem objects of the threads.
#ifndef NO_REAL
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Eig = LocalSolver::DiffusionEigs<ed, p, 2 * p, Params, double>;
}  // namespace pipe_sim
PIPE_FAMILY(t_eigs, OFFER(EigenComp, Eig, FileMesh, 1, 2, 1, 1, 5))
PIPE_FAMILY(t_shifted, OFFER(ShiftedComp, Eig, CubicMesh, 1, 2, 1, 1, 1))
#else
#include "core/pipe.hxx"
namespace pipe_sim
{
std::unique_ptr<IComp> make_t_eigs(const Spec&) { return nullptr; }
std::unique_ptr<IComp> make_t_shifted(const Spec&) { return nullptr; }
}  // namespace pipe_sim
#endif
