// C15: postprocessed diffusion.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Pp = LocalSolver::DiffusionPostprocess<ed, p, 2 * p + 2, Params, double>;
}
PIPE_FAMILY(pp,
            OFFER(EllipticComp, Pp, CubicMesh, 1, 1, 2, 1, 0) || OFFER(EllipticComp, Pp, CubicMesh, 1, 2, 2, 1, 1) ||
              OFFER(EllipticComp, Pp, CubicMesh, 2, 2, 2, 1, 2))
