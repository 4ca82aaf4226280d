// Instantiates class templates in full, so members no test uses are analysed too.
// Errors in here are tolerated (the member is then simply not analysed).
#include <complex>
#include "fullgrid/DistributedFullGrid.hpp"
#include "fullgrid/FullGrid.hpp"
#include "fullgrid/Tensor.hpp"
#include "sparsegrid/DistributedSparseGridUniform.hpp"
#include "sparsegrid/SGrid.hpp"
#include "combicom/CombiCom.hpp"
#include "hierarchization/DistributedHierarchization.hpp"
#include "io/MPIInputOutput.hpp"
#include "io/MPICompression.hpp"
#include "task/Task.hpp"
namespace combigrid {
template class DistributedFullGrid<double>;
template class OwningDistributedFullGrid<double>;
template class DistributedSparseGridUniform<double>;
template class DistributedSparseGridDataContainer<double>;
template class FullGrid<double>;
template class FullGrid<std::complex<double>>;
template class SGrid<double>;
template class DistributedSparseGridUniform<std::complex<double>>;
template class DistributedSparseGridUniform<float>;
}
