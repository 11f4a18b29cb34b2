// C15: interior penalty.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/diffusion_ip.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using Ip = LocalSolver::DiffusionIP<ed, p, 2 * p, Params, double>;
}
PIPE_FAMILY(ip,
            OFFER(EllipticComp, Ip, CubicMesh, 1, 1, 3, 1, 0) || OFFER(EllipticComp, Ip, CubicMesh, 1, 2, 2, 1, 1) ||
              OFFER(EllipticComp, Ip, CubicMesh, 2, 2, 2, 1, 2) || OFFER(EllipticComp, Ip, CubicMesh, 2, 3, 2, 1, 3))
