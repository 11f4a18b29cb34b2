// C08: the library's own hypergraphs and local solvers as problem objects of the threads.
#ifndef NO_REAL
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Bilap = LocalSolver::Bilaplacian<ed, p, 2 * p, Params, double>;
}  // namespace pipe_sim
PIPE_FAMILY(t_bilaplacian, OFFER(EllipticComp, Bilap, CubicMesh, 1, 2, 1, 2, 1))
#else
#include "core/pipe.hxx"
namespace pipe_sim
{
std::unique_ptr<IComp> make_t_bilaplacian(const Spec&) { return nullptr; }
}  // namespace pipe_sim
#endif
