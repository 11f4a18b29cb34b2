// C15: parabolic diffusion.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Parab = LocalSolver::DiffusionParab<ed, p, 2 * p, Params, double>;
}
PIPE_FAMILY(parabolic,
            OFFER(ParabolicComp, Parab, CubicMesh, 1, 1, 3, 1, 0) || OFFER(ParabolicComp, Parab, CubicMesh, 1, 2, 2, 1, 1) ||
              OFFER(ParabolicComp, Parab, CubicMesh, 2, 2, 2, 1, 2) || OFFER(ParabolicComp, Parab, CubicMesh, 2, 3, 2, 1, 3) ||
              OFFER(ParabolicComp, Parab, FileMesh, 1, 2, 2, 1, 5))
