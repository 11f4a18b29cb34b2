// C15: eigenvalue problems of the bilaplacian.
#include "core/pipe_solver.hxx"
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
namespace pipe_sim
{
template <unsigned ed, unsigned p>
using BEig = LocalSolver::BilaplacianEigs<ed, p, 2 * p, Params, double>;
}
PIPE_FAMILY(bieigs, OFFER(EigenComp, BEig, CubicMesh, 1, 1, 3, 2, 0) || OFFER(EigenComp, BEig, CubicMesh, 1, 2, 2, 2, 1) || OFFER(EigenComp, BEig, CubicMesh, 2, 2, 2, 2, 2))
