// C15: parabolic bilaplacian problems.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using BParab = LocalSolver::BilaplacianParab<ed, p, 2 * p, Params, double>;
}
PIPE_FAMILY(biparabolic,
            OFFER(ParabolicComp, BParab, CubicMesh, 1, 1, 3, 2, 0) || OFFER(ParabolicComp, BParab, CubicMesh, 1, 2, 2, 2, 1) ||
              OFFER(ParabolicComp, BParab, CubicMesh, 2, 2, 2, 2, 2))
