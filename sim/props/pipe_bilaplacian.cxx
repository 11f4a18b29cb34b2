// C15: bilaplacian problems.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Bilap = LocalSolver::Bilaplacian<ed, p, 2 * p, Params, double>;
template <unsigned ed, unsigned p>
using BUni = LocalSolver::BilaplacianUniform<ed, p, 2 * p, double>;
}  // namespace pipe_sim
PIPE_FAMILY(bilaplacian,
            OFFER(EllipticComp, Bilap, CubicMesh, 1, 1, 3, 2, 0) || OFFER(EllipticComp, Bilap, CubicMesh, 1, 2, 2, 2, 1) ||
              OFFER(EllipticComp, Bilap, CubicMesh, 2, 2, 2, 2, 2) || OFFER(EllipticComp, Bilap, CubicMesh, 2, 3, 2, 2, 3))
PIPE_FAMILY(bilaplacian_uniform, OFFER(EllipticComp, BUni, CubicMesh, 1, 2, 1, 2, 1) || OFFER(EllipticComp, BUni, CubicMesh, 2, 2, 1, 2, 2))
PIPE_FAMILY(bimass, OFFER(MassComp, Bilap, CubicMesh, 1, 1, 3, 2, 0) || OFFER(MassComp, Bilap, CubicMesh, 1, 2, 2, 2, 1) || OFFER(MassComp, Bilap, CubicMesh, 2, 2, 2, 2, 2))
