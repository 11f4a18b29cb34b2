// C15: diffusion with advection and reaction.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Dar = LocalSolver::DiffusionAdvectionReaction<ed, p, 2 * p, Params, double>;
}
PIPE_FAMILY(advection,
            OFFER(EllipticComp, Dar, CubicMesh, 1, 1, 3, 1, 0) || OFFER(EllipticComp, Dar, CubicMesh, 2, 2, 2, 1, 2))
// Without advection and reaction, on networks and as mass operator.
PIPE_FAMILY(advection_net,
            OFFER(EllipticComp, Dar, CubicMesh, 1, 2, 2, 1, 1) || OFFER(EllipticComp, Dar, FileMesh, 1, 3, 2, 1, 6))
PIPE_FAMILY(advection_mass,
            OFFER(MassComp, Dar, CubicMesh, 1, 1, 3, 1, 0) || OFFER(MassComp, Dar, FileMesh, 1, 3, 2, 1, 6))
