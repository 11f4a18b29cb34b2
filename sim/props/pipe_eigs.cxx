// C15: eigenvalue problems.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Eig = LocalSolver::DiffusionEigs<ed, p, 2 * p, Params, double>;
}
PIPE_FAMILY(eigs,
            OFFER(EigenComp, Eig, CubicMesh, 1, 1, 3, 1, 0) || OFFER(EigenComp, Eig, CubicMesh, 1, 2, 2, 1, 1) ||
              OFFER(EigenComp, Eig, CubicMesh, 2, 2, 2, 1, 2) || OFFER(EigenComp, Eig, FileMesh, 1, 2, 2, 1, 5))
PIPE_FAMILY(shifted,
            OFFER(ShiftedComp, Eig, CubicMesh, 1, 1, 3, 1, 0) || OFFER(ShiftedComp, Eig, CubicMesh, 2, 2, 2, 1, 2) ||
              OFFER(ShiftedComp, Eig, FileMesh, 1, 2, 2, 1, 5))
