// Analysis only: instantiates the PCL templates.
#include "cloudini_lib/pcl_conversion.hpp"
namespace Cloudini {
template size_t PointcloudEncode<pcl::PointXYZI>(const pcl::PointCloud<pcl::PointXYZI>&, std::vector<uint8_t>&, double);
template void PointcloudDecode<pcl::PointXYZI>(ConstBufferView, pcl::PointCloud<pcl::PointXYZI>&);
}
