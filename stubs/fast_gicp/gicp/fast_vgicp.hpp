#pragma once
#include <fast_gicp/gicp/fast_gicp.hpp>
namespace fast_gicp {
template<typename PS, typename PT>
class FastVGICP : public FastGICP<PS, PT> {
public:
    void setResolution(double r) { resolution = r; }
    void setVoxelAccumulationMode(VoxelAccumulationMode m) { voxel_accumulation_mode = m; }
    void setNeighborSearchMethod(NeighborSearchMethod m) { neighbor_search_method = m; }
    double resolution = 0;
    VoxelAccumulationMode voxel_accumulation_mode = VoxelAccumulationMode::ADDITIVE;
    NeighborSearchMethod neighbor_search_method = NeighborSearchMethod::DIRECT1;
};
}
