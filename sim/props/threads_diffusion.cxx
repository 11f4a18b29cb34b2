// C08: the library's own hypergraphs and local solvers as problem objects of the threads.
#ifndef NO_REAL
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Diff = LocalSolver::Diffusion<ed, p, 2 * p, Params, double>;
}  // namespace pipe_sim
PIPE_FAMILY(t_diffusion, OFFER(EllipticComp, Diff, CubicMesh, 2, 2, 1, 1, 2) || OFFER(EllipticComp, Diff, FileMesh, 1, 2, 1, 1, 5))
PIPE_FAMILY(t_mass, OFFER(MassComp, Diff, CubicMesh, 1, 2, 1, 1, 1))
#else
#include "core/pipe.hxx"
namespace pipe_sim
{
std::unique_ptr<IComp> make_t_diffusion(const Spec&) { return nullptr; }
std::unique_ptr<IComp> make_t_mass(const Spec&) { return nullptr; }
}  // namespace pipe_sim
#endif
