// C15: elliptic diffusion.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Diff = LocalSolver::Diffusion<ed, p, 2 * p, Params, double>;
template <unsigned ed, unsigned p>
using Uni = LocalSolver::DiffusionUniform<ed, p, 2 * p, double>;
}  // namespace pipe_sim
PIPE_FAMILY(diffusion,
            OFFER(EllipticComp, Diff, CubicMesh, 1, 1, 1, 1, 0) || OFFER(EllipticComp, Diff, CubicMesh, 1, 1, 3, 1, 0) ||
              OFFER(EllipticComp, Diff, CubicMesh, 1, 2, 2, 1, 1) || OFFER(EllipticComp, Diff, CubicMesh, 2, 2, 2, 1, 2) ||
              OFFER(EllipticComp, Diff, CubicMesh, 2, 3, 2, 1, 3) || OFFER(EllipticComp, Diff, CubicMesh, 3, 3, 1, 1, 4) ||
              OFFER(EllipticComp, Diff, FileMesh, 1, 2, 2, 1, 5) || OFFER(EllipticComp, Diff, FileMesh, 1, 3, 2, 1, 6))
PIPE_FAMILY(diffusion_uniform,
            OFFER(EllipticComp, Uni, CubicMesh, 1, 2, 1, 1, 1) || OFFER(EllipticComp, Uni, CubicMesh, 2, 2, 1, 1, 2) ||
              OFFER(EllipticComp, Uni, CubicMesh, 2, 3, 1, 1, 3))
PIPE_FAMILY(mass,
            OFFER(MassComp, Diff, CubicMesh, 1, 1, 3, 1, 0) || OFFER(MassComp, Diff, CubicMesh, 2, 2, 2, 1, 2) || OFFER(MassComp, Diff, CubicMesh, 1, 2, 2, 1, 1) ||
              OFFER(MassComp, Diff, CubicMesh, 2, 2, 1, 1, 2) || OFFER(MassComp, Diff, FileMesh, 1, 3, 2, 1, 6))
