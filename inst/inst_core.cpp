// Analysis only: forces code that lives in headers to be emitted so that the rules can see it.
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/field_decoder.hpp"
#include "cloudini_lib/field_encoder.hpp"

// copies and moves of a message object, whoever defines them
#include <new>
#include <utility>
namespace cldn_inst {
using Cloudini_Msg = cloudini_ros::RosPointCloud2;
void msg_copy_construct(void* self, const Cloudini_Msg& other) { new (self) Cloudini_Msg(other); }
void msg_move_construct(void* self, Cloudini_Msg& other) { new (self) Cloudini_Msg(std::move(other)); }
void msg_copy_assign(Cloudini_Msg& self, const Cloudini_Msg& other) { self = other; }
void msg_move_assign(Cloudini_Msg& self, Cloudini_Msg& other) { self = std::move(other); }

// inline member functions of the decoder
void decode_into_vector(Cloudini::PointcloudDecoder& d, const Cloudini::EncodingInfo& info, Cloudini::ConstBufferView in, std::vector<uint8_t>& out) {
  d.decode(info, in, out);
}
}
