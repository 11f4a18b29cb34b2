// C08: the library's own hypergraphs and local solvers as problem objects of the threads.
#ifndef NO_REAL
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Dar = LocalSolver::DiffusionAdvectionReaction<ed, p, 2 * p, Params, double>;
}  // namespace pipe_sim
PIPE_FAMILY(t_advection, OFFER(EllipticComp, Dar, FileMesh, 1, 2, 1, 1, 5))
#else
#include "core/pipe.hxx"
namespace pipe_sim
{
std::unique_ptr<IComp> make_t_advection(const Spec&) { return nullptr; }
}  // namespace pipe_sim
#endif
