#include "make_box.hpp"

using namespace shiguredo::mp4;
using namespace shiguredo::mp4::box;

namespace {
// A field of whole bytes is an array of bytes (big-endian), a bit field a number.
std::uint64_t N(const object& o, const char* k, std::uint64_t dflt = 0) {
  if (!o.contains(k)) return dflt;
  const auto& v = o.at(k);
  if (!v.is_array()) return U(v);
  std::uint64_t n = 0;
  for (const auto& b : v.as_array()) n = n << 8 | U(b);
  return n;
}
std::int64_t SN(const object& o, const char* k, std::int64_t dflt = 0) {
  if (!o.contains(k)) return dflt;
  const auto& v = o.at(k);
  if (!v.is_array()) return I(v);
  std::uint64_t n = N(o, k);
  auto w = v.as_array().size() * 8;
  if (w > 0 && w < 64 && (n >> (w - 1)) & 1) n |= ~std::uint64_t{0} << w;
  return static_cast<std::int64_t>(n);
}
std::int8_t bits_signed(const object& o, const char* k, int w) {
  auto n = static_cast<int>(N(o, k));
  if (n >> (w - 1) & 1) n -= 1 << w;
  return static_cast<std::int8_t>(n);
}
Bytes BY(const object& o, const char* k) {
  Bytes b;
  if (o.contains(k))
    for (const auto& x : o.at(k).as_array()) b.push_back(static_cast<std::uint8_t>(U(x)));
  return b;
}
std::string ST(const object& o, const char* k) {
  auto b = BY(o, k);
  return std::string(b.begin(), b.end());
}
template <std::size_t n>
std::array<std::uint8_t, n> AR(const object& o, const char* k) {
  std::array<std::uint8_t, n> a{};
  auto b = BY(o, k);
  for (std::size_t i = 0; i < n && i < b.size(); ++i) a[i] = b[i];
  return a;
}
template <typename T, typename F>
std::vector<T> LS(const object& o, const char* k, F f) {
  std::vector<T> r;
  if (o.contains(k))
    for (const auto& x : o.at(k).as_array()) r.push_back(f(O(x)));
  return r;
}
template <typename T>
std::vector<T> LN(const object& o, const char* k) {
  return LS<T>(o, k, [](const object& i) { return static_cast<T>(N(i, "v")); });
}
template <typename T, std::size_t n>
std::array<T, n> AN(const object& o, const char* k) {
  std::array<T, n> a{};
  auto v = LN<T>(o, k);
  for (std::size_t i = 0; i < n && i < v.size(); ++i) a[i] = v[i];
  return a;
}
std::uint8_t u8(const object& o, const char* k) { return static_cast<std::uint8_t>(N(o, k)); }
std::uint16_t u16(const object& o, const char* k) { return static_cast<std::uint16_t>(N(o, k)); }
std::uint32_t u32(const object& o, const char* k) { return static_cast<std::uint32_t>(N(o, k)); }
bool bo(const object& o, const char* k) { return N(o, k) != 0; }
std::int16_t i16(const object& o, const char* k) { return static_cast<std::int16_t>(SN(o, k)); }
std::int32_t i32(const object& o, const char* k) { return static_cast<std::int32_t>(SN(o, k)); }

std::vector<AVCParameterSet> nals(const object& o, const char* k) {
  return LS<AVCParameterSet>(o, k, [](const object& i) { return AVCParameterSet({.nal_unit = BY(i, "nal_unit")}); });
}

std::shared_ptr<Descriptor> descriptor(const object& d) {
  auto tag = N(d, "tag");
  if (tag == 3) {
    std::uint32_t own = 3 + (bo(d, "stream_dependence_flag") ? 2 : 0) +
                        (bo(d, "url_flag") ? 1 + static_cast<std::uint32_t>(BY(d, "url_string").size()) : 0) +
                        (bo(d, "ocr_stream_flag") ? 2 : 0);
    auto r = std::make_shared<ESDescriptor>(
        ESDescriptorParameters{.sub_descriptors_size = d.contains("subs") ? 0 : u32(d, "size") - own,
                               .ESID = u16(d, "ESID"),
                               .stream_dependence_flag = bo(d, "stream_dependence_flag"),
                               .url_flag = bo(d, "url_flag"),
                               .ocr_stream_flag = bo(d, "ocr_stream_flag"),
                               .stream_priority = bits_signed(d, "stream_priority", 5),
                               .depends_on_esid = u16(d, "depends_on_esid"),
                               .url_string = BY(d, "url_string"),
                               .OCRESID = u16(d, "OCRESID")});
    if (d.contains("subs"))
      for (const auto& s : d.at("subs").as_array()) r->addSubDescriptor(descriptor(s.as_object()));
    return r;
  }
  if (tag == 4) {
    auto r = std::make_shared<DecoderConfigDescriptor>(
        DecoderConfigDescriptorParameters{.sub_descriptors_size = d.contains("subs") ? 0 : u32(d, "size") - 13,
                                          .object_type_indication = u8(d, "object_type_indication"),
                                          .stream_type = bits_signed(d, "stream_type", 6),
                                          .upstream = bo(d, "upstream"),
                                          .reserved = bo(d, "reserved"),
                                          .buffer_size_db = u32(d, "buffer_size_db"),
                                          .max_bitrate = u32(d, "max_bitrate"),
                                          .avg_bitrate = u32(d, "avg_bitrate")});
    if (d.contains("subs"))
      for (const auto& s : d.at("subs").as_array()) r->addSubDescriptor(descriptor(s.as_object()));
    return r;
  }
  if (tag == 5) return std::make_shared<DecSpecificInfo>(DecSpecificInfoParameters{.data = BY(d, "data")});
  return std::make_shared<SLConfigDescr>(SLConfigDescrParameters{.data = BY(d, "data")});
}

template <typename T>
T* with_version(T* b, const object& f) {
  b->setVersion(u8(f, "version"));
  b->setFlags(u32(f, "flags"));
  return b;
}

using Maker = std::function<Box*(const object&, const BoxType&)>;
#define VF .version = u8(f, "version"), .flags = u32(f, "flags")

const std::map<std::string, Maker>& makers() {
  static const std::map<std::string, Maker> m = {
#define PLAIN(X) {#X, [](const object&, const BoxType&) -> Box* { return new X(); }}
      PLAIN(Dinf), PLAIN(Edts), PLAIN(Ilst), PLAIN(Mdia), PLAIN(Mfra), PLAIN(Minf), PLAIN(Moof), PLAIN(Moov), PLAIN(Mvex),
      PLAIN(Schi), PLAIN(Sinf), PLAIN(Stbl), PLAIN(Traf), PLAIN(Trak), PLAIN(Udta), PLAIN(Wave),
#define MK(X) {#X, [](const object& f, [[maybe_unused]] const BoxType& t) -> Box* { return
#define END ; }}
      MK(Meta) with_version(new Meta(), f) END,
      MK(IlstMeta) new IlstMeta({.type = t}) END,
      MK(Btrt) new Btrt({.decoding_buffer_size = u32(f, "decoding_buffer_size"), .max_bitrate = u32(f, "max_bitrate"),
                         .avg_bitrate = u32(f, "avg_bitrate")}) END,
      MK(Fiel) new Fiel({.field_count = u8(f, "field_count"), .field_ordering = u8(f, "field_ordering")}) END,
      MK(PixelAspectRatio) new PixelAspectRatio({.h_spacing = u32(f, "h_spacing"), .v_spacing = u32(f, "v_spacing")}) END,
      MK(Free) new Free({.data = BY(f, "data")}) END,
      MK(Skip) new Skip({.data = BY(f, "data")}) END,
      MK(Mdat) new Mdat({.data = BY(f, "data")}) END,
      MK(Unsupported) new Unsupported({.data = BY(f, "data")}) END,
      MK(Dref) new Dref({VF, .entry_count = u32(f, "entry_count")}) END,
      MK(Stsd) new Stsd({VF, .entry_count = u32(f, "entry_count")}) END,
      MK(Mfhd) new Mfhd({VF, .sequence_number = u32(f, "sequence_number")}) END,
      MK(Mfro) new Mfro({VF, .size = u32(f, "size")}) END,
      MK(Mehd) new Mehd({VF, .fragment_duration = N(f, "fragment_duration")}) END,
      MK(Tfdt) new Tfdt({VF, .base_media_decode_time = N(f, "base_media_decode_time")}) END,
      MK(Trex) new Trex({VF, .track_id = u32(f, "track_id"),
                         .default_sample_description_index = u32(f, "default_sample_description_index"),
                         .default_sample_duration = u32(f, "default_sample_duration"),
                         .default_sample_size = u32(f, "default_sample_size"),
                         .default_sample_flags = u32(f, "default_sample_flags")}) END,
      MK(Smhd) new Smhd({VF, .balance = i16(f, "balance")}) END,
      MK(Vmhd) new Vmhd({VF, .graphicsmode = u16(f, "graphicsmode"),
                         .opcolor = {u16(f, "opcolor0"), u16(f, "opcolor1"), u16(f, "opcolor2")}}) END,
      MK(Co64) new Co64({VF, .chunk_offsets = LN<std::uint64_t>(f, "chunk_offsets")}) END,
      MK(Stco) new Stco({VF, .chunk_offsets = LN<std::uint32_t>(f, "chunk_offsets")}) END,
      {"Stss", [](const object& f, const BoxType&) -> Box* {
         auto v = LN<std::uint32_t>(f, "sample_numbers");
         return new Stss({VF, .sample_numbers = v});
       }},
      MK(Stts) new Stts({VF, .entries = LS<SttsEntry>(f, "entries", [](const object& i) {
         return SttsEntry({.sample_count = u32(i, "sample_count"), .sample_duration = u32(i, "sample_duration")}); })}) END,
      MK(Stsc) new Stsc({VF, .entries = LS<StscEntry>(f, "entries", [](const object& i) {
         return StscEntry({.first_chunk = u32(i, "first_chunk"), .samples_per_chunk = u32(i, "samples_per_chunk"), .sample_description_index = u32(i, "sample_description_index")}); })}) END,
      MK(Ctts) new Ctts({VF, .entries = LS<CttsEntry>(f, "entries", [](const object& i) {
         return CttsEntry(u32(i, "sample_count"), SN(i, "sample_offset")); })}) END,
      MK(Elst) new Elst({VF, .entries = LS<ElstEntry>(f, "entries", [](const object& i) {
         return ElstEntry({.track_duration = N(i, "track_duration"), .media_time = SN(i, "media_time"),
                           .media_rate = i32(i, "media_rate")}); })}) END,
      MK(Sbgp) new Sbgp({VF, .grouping_type = AR<4>(f, "grouping_type"),
                         .grouping_type_parameter = u32(f, "grouping_type_parameter"),
                         .entries = LS<SbgpEntry>(f, "entries", [](const object& i) {
         return SbgpEntry({.sample_count = u32(i, "sample_count"),
                           .group_description_index = u32(i, "group_description_index")}); })}) END,
      {"Stsz", [](const object& f, const BoxType&) -> Box* {
         std::vector<std::uint32_t> sizes = LN<std::uint32_t>(f, "entry_sizes");
         if (f.contains("sample_count")) sizes.assign(N(f, "sample_count"), 0x5a5a);
         return new Stsz({VF, .sample_size = u32(f, "sample_size"), .entry_sizes = sizes});
       }},
      MK(Mdhd) new Mdhd({VF, .creation_time = N(f, "creation_time"), .modification_time = N(f, "modification_time"),
                         .timescale = u32(f, "timescale"), .duration = N(f, "duration"), .pad = bo(f, "pad"),
                         .language = {static_cast<std::uint8_t>(N(f, "language0") + 0x60),
                                      static_cast<std::uint8_t>(N(f, "language1") + 0x60),
                                      static_cast<std::uint8_t>(N(f, "language2") + 0x60)},
                         .pre_defined = u16(f, "pre_defined")}) END,
      MK(Mvhd) new Mvhd({VF, .creation_time = N(f, "creation_time"), .modification_time = N(f, "modification_time"),
                         .timescale = u32(f, "timescale"), .duration = N(f, "duration"), .rate = i32(f, "rate"),
                         .volume = i16(f, "volume"), .matrix = AN<std::int32_t, 9>(f, "matrix"),
                         .pre_defined = AN<std::int32_t, 6>(f, "pre_defined"), .next_track_id = u32(f, "next_track_id")}) END,
      MK(Tkhd) new Tkhd({VF, .creation_time = N(f, "creation_time"), .modification_time = N(f, "modification_time"),
                         .track_id = u32(f, "track_id"), .duration = N(f, "duration"), .layer = i16(f, "layer"),
                         .alternate_group = i16(f, "alternate_group"), .volume = i16(f, "volume"),
                         .matrix = AN<std::int32_t, 9>(f, "matrix"), .width = u32(f, "width"), .height = u32(f, "height")}) END,
      {"Sdtp", [](const object& f, const BoxType&) -> Box* {
         return with_version(new Sdtp({.samples = LS<SdtpSample>(f, "samples", [](const object& i) {
           return SdtpSample({.is_leading = u8(i, "is_leading"), .sample_depends_on = u8(i, "sample_depends_on"),
                              .sample_is_depended_on = u8(i, "sample_is_depended_on"),
                              .sample_has_redundancy = u8(i, "sample_has_redundancy")}); })}), f);
       }},
      MK(Sidx) new Sidx({VF, .reference_id = u32(f, "reference_id"), .timescale = u32(f, "timescale"),
                         .earliest_presentation_time = N(f, "earliest_presentation_time"),
                         .first_offset = N(f, "first_offset"),
                         .references = LS<SidxReference>(f, "references", [](const object& i) {
         return SidxReference({.reference_type = bo(i, "reference_type"), .reference_size = u32(i, "reference_size"),
                               .subsegument_duration = u32(i, "subsegument_duration"),
                               .starts_with_sap = bo(i, "starts_with_sap"), .sap_type = u8(i, "sap_type"),
                               .sap_delta_time = u32(i, "sap_delta_time")}); })}) END,
      MK(Tfhd) new Tfhd({VF, .track_id = u32(f, "track_id"), .base_data_offset = N(f, "base_data_offset"),
                         .sample_description_index = u32(f, "sample_description_index"),
                         .default_sample_duration = u32(f, "default_sample_duration"),
                         .default_sample_size = u32(f, "default_sample_size"),
                         .default_sample_flags = u32(f, "default_sample_flags")}) END,
      MK(Tfra) new Tfra({VF, .track_id = u32(f, "track_id"), .length_size_of_traf_num = u8(f, "length_size_of_traf_num"),
                         .length_size_of_trun_num = u8(f, "length_size_of_trun_num"),
                         .length_size_of_sample_num = u8(f, "length_size_of_sample_num"),
                         .entries = LS<TfraEntry>(f, "entries", [](const object& i) {
         return TfraEntry({.time = N(i, "time"), .moof_offset = N(i, "moof_offset"), .traf_number = u32(i, "traf_number"),
                           .trun_number = u32(i, "trun_number"), .sample_number = u32(i, "sample_number")}); })}) END,
      MK(Trun) new Trun({VF, .data_offset = i32(f, "data_offset"), .first_sample_flags = u32(f, "first_sample_flags"),
                         .entries = LS<TrunEntry>(f, "entries", [](const object& i) {
         return TrunEntry({.sample_duration = u32(i, "sample_duration"), .sample_size = u32(i, "sample_size"),
                           .sample_flags = u32(i, "sample_flags"),
                           .sample_composition_time_offset = SN(i, "sample_composition_time_offset")}); })}) END,
      MK(Sgpd) new Sgpd({VF, .grouping_type = AR<4>(f, "grouping_type"), .default_length = u32(f, "default_length"),
                         .default_sample_description_index = u32(f, "default_sample_description_index"),
                         .roll_distances = LS<RollDistance>(f, "roll_distances", [](const object& i) {
         return RollDistance({.description_length = u32(i, "description_length"), .roll_distance = i16(i, "roll_distance")}); }),
                         .alternative_startup_entries = LS<AlternativeStartupEntry>(f, "alternative_startup_entries", [](const object& i) {
         return AlternativeStartupEntry({.description_length = u32(i, "description_length"), .roll_count = u16(i, "roll_count"),
             .first_output_sample = u16(i, "first_output_sample"), .sample_offsets = LN<std::uint32_t>(i, "sample_offsets"),
             .opts = LS<AlternativeStartupEntryOpt>(i, "opts", [](const object& p) {
               return AlternativeStartupEntryOpt({.num_output_samples = u16(p, "num_output_samples"),
                                                  .num_total_samples = u16(p, "num_total_samples")}); })}); }),
                         .visual_random_access_entries = LS<VisualRandomAccessEntry>(f, "visual_random_access_entries", [](const object& i) {
         return VisualRandomAccessEntry({.description_length = u32(i, "description_length"),
             .num_leading_samples_known = bo(i, "num_leading_samples_known"),
             .num_leading_samples = u8(i, "num_leading_samples")}); }),
                         .temporal_level_entries = LS<TemporalLevelEntry>(f, "temporal_level_entries", [](const object& i) {
         return TemporalLevelEntry({.description_length = u32(i, "description_length"),
             .level_independently_decodable = bo(i, "level_independently_decodable")}); })}) END,
      MK(Pssh) new Pssh({VF, .system_id = AR<16>(f, "system_id"), .kids = LS<PsshKID>(f, "kids", [](const object& i) {
         return PsshKID({.kid = AR<16>(i, "kid")}); }), .data = BY(f, "data")}) END,
      MK(Url) new Url({VF, .location = ST(f, "location")}) END,
      MK(Urn) new Urn({VF, .name = ST(f, "name"), .location = ST(f, "location")}) END,
      MK(VPCodecConfiguration) new VPCodecConfiguration({VF, .profile = u8(f, "profile"), .level = u8(f, "level"),
                         .bit_depth = u8(f, "bit_depth"), .chroma_sub_sampling = u8(f, "chroma_sub_sampling"),
                         .video_full_range_flag = u8(f, "video_full_range_flag"), .colour_primaries = u8(f, "colour_primaries"),
                         .transfer_characteristics = u8(f, "transfer_characteristics"),
                         .matrix_coefficients = u8(f, "matrix_coefficients"),
                         .codec_initialization_data = BY(f, "codec_initialization_data")}) END,
      MK(Colr) new Colr({.colour_type = AR<4>(f, "colour_type"), .colour_primaries = u16(f, "colour_primaries"),
                         .transfer_characteristics = u16(f, "transfer_characteristics"),
                         .matrix_coefficients = u16(f, "matrix_coefficients"), .full_range_flag = bo(f, "full_range_flag"),
                         .profile = BY(f, "profile"), .unknown = BY(f, "unknown")}) END,
      MK(DOps) new DOps({.version = u8(f, "version"), .output_channel_count = u8(f, "output_channel_count"),
                         .pre_skip = u16(f, "pre_skip"), .input_sample_rate = u32(f, "input_sample_rate"),
                         .output_gain = i16(f, "output_gain"), .channel_mapping_family = u8(f, "channel_mapping_family"),
                         .channel_mapping_table = DOpsChannelMappingTable({.stream_count = u8(f, "stream_count"),
                             .coupled_count = u8(f, "coupled_count"), .channel_mapping = LN<std::uint8_t>(f, "channel_mapping")})}) END,
      MK(AV1CodecConfiguration) new AV1CodecConfiguration({.marker = u8(f, "marker"), .version = u8(f, "version"),
                         .seq_profile = u8(f, "seq_profile"), .seq_level_idx_0 = u8(f, "seq_level_idx_0"),
                         .seq_tier_0 = u8(f, "seq_tier_0"), .high_bitdepth = bo(f, "high_bitdepth"),
                         .twelve_bit = bo(f, "twelve_bit"), .monochrome = bo(f, "monochrome"),
                         .chroma_subsampling_x = u8(f, "chroma_subsampling_x"), .chroma_subsampling_y = u8(f, "chroma_subsampling_y"),
                         .chroma_sample_position = u8(f, "chroma_sample_position"),
                         .initial_presentation_delay_present = bo(f, "initial_presentation_delay_present"),
                         .initial_presentation_delay_minus_one = u8(f, "initial_presentation_delay_minus_one"),
                         .config_OBUs = BY(f, "config_OBUs")}) END,
      MK(AVCDecoderConfiguration) new AVCDecoderConfiguration({.configuration_version = u8(f, "configuration_version"),
                         .profile = u8(f, "profile"), .profile_compatibility = u8(f, "profile_compatibility"),
                         .level = u8(f, "level"), .length_size_minus_one = u8(f, "length_size_minus_one"),
                         .sequence_parameter_sets = nals(f, "sequence_parameter_sets"),
                         .picture_parameter_sets = nals(f, "picture_parameter_sets"),
                         .high_profile_fields_enabled = bo(f, "high_profile_fields_enabled"),
                         .chroma_format = u8(f, "chroma_format"), .bit_depth_luma_minus8 = u8(f, "bit_depth_luma_minus8"),
                         .bit_depth_chroma_minus8 = u8(f, "bit_depth_chroma_minus8"),
                         .sequence_parameter_sets_ext = nals(f, "sequence_parameter_sets_ext")}) END,
      {"Ftyp", [](const object& f, const BoxType&) -> Box* {
         return new Ftyp({.major_brand = AR<4>(f, "major_brand"), .minor_version = u32(f, "minor_version"),
                          .compatible_brands = LS<Brand>(f, "compatible_brands", [](const object& i) { return AR<4>(i, "v"); })});
       }},
      {"Styp", [](const object& f, const BoxType&) -> Box* {
         return new Styp({.major_brand = AR<4>(f, "major_brand"), .minor_version = u32(f, "minor_version"),
                          .compatible_brands = LS<Brand>(f, "compatible_brands", [](const object& i) { return AR<4>(i, "v"); })});
       }},
      MK(Hdlr) new Hdlr({VF, .pre_defined = u32(f, "pre_defined"), .handler_type = AR<4>(f, "handler_type"),
                         .name = ST(f, "name"), .padding = BY(f, "padding")}) END,
      MK(Emsg) new Emsg({VF, .scheme_uri = ST(f, "scheme_uri"), .value = ST(f, "value"), .timescale = u32(f, "timescale"),
                         .presentation_time = N(f, "presentation_time"), .event_duration = u32(f, "event_duration"),
                         .id = u32(f, "id"), .message_data = BY(f, "message_data")}) END,
      MK(Iods) new Iods({VF, .type_tag = u8(f, "type_tag"), .descriptor_length = u32(f, "descriptor_length"),
                         .OD_ID = u16(f, "OD_ID"), .OD_profile_level = u8(f, "OD_profile_level"),
                         .scene_profile_level = u8(f, "scene_profile_level"), .audio_profile_level = u8(f, "audio_profile_level"),
                         .video_profile_level = u8(f, "video_profile_level"),
                         .graphics_profile_level = u8(f, "graphics_profile_level")}) END,
      MK(Data) new Data({.data_type = static_cast<DataType>(N(f, "data_type")), .data_lang = u32(f, "data_lang"),
                         .data = BY(f, "data")}) END,
      MK(VisualSampleEntry) new VisualSampleEntry({.type = t, .data_reference_index = u16(f, "data_reference_index"),
                         .pre_defined = u16(f, "pre_defined"), .pre_defined2 = AN<std::uint32_t, 3>(f, "pre_defined2"),
                         .width = u16(f, "width"), .height = u16(f, "height"), .horizresolution = u32(f, "horizresolution"),
                         .vertresolution = u32(f, "vertresolution"), .frame_count = u16(f, "frame_count"),
                         .compressorname = AR<32>(f, "compressorname"), .depth = u16(f, "depth"),
                         .pre_defined3 = i16(f, "pre_defined3")}) END,
      MK(AudioSampleEntry) new AudioSampleEntry({.type = t, .data_reference_index = u16(f, "data_reference_index"),
                         .entry_version = u16(f, "entry_version"), .channel_count = u16(f, "channel_count"),
                         .sample_size = u16(f, "sample_size"), .pre_defined = u16(f, "pre_defined"),
                         .sample_rate = u32(f, "sample_rate"),
                         .is_quick_time_compatible = bo(f, "is_quick_time_compatible"),
                         .quick_time_data = BY(f, "quick_time_data")}) END,
      {"Esds", [](const object& f, const BoxType&) -> Box* {
         return with_version(new Esds({.descriptors = LS<std::shared_ptr<Descriptor>>(f, "descriptors",
                                           [](const object& i) { return descriptor(i); })}), f);
       }},
  };
  return m;
}
}  // namespace

std::unique_ptr<Box> make_box(const std::string& kind, const std::string& code, const object& fields) {
  auto it = makers().find(kind);
  if (it == makers().end()) throw std::logic_error("make_box: unknown kind " + kind);
  return std::unique_ptr<Box>(it->second(fields, type_of(code)));
}
