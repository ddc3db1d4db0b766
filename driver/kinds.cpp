#include "kinds.hpp"

#include <typeinfo>

using namespace shiguredo::mp4;

static const struct {
  const char* name;
  const std::type_info& ti;
} kKinds[] = {
    {"Btrt", typeid(box::Btrt)},
    {"Co64", typeid(box::Co64)},
    {"Colr", typeid(box::Colr)},
    {"Ctts", typeid(box::Ctts)},
    {"Data", typeid(box::Data)},
    {"Dinf", typeid(box::Dinf)},
    {"DOps", typeid(box::DOps)},
    {"Dref", typeid(box::Dref)},
    {"Edts", typeid(box::Edts)},
    {"Elst", typeid(box::Elst)},
    {"Emsg", typeid(box::Emsg)},
    {"Esds", typeid(box::Esds)},
    {"Fiel", typeid(box::Fiel)},
    {"Free", typeid(box::Free)},
    {"Ftyp", typeid(box::Ftyp)},
    {"Hdlr", typeid(box::Hdlr)},
    {"Ilst", typeid(box::Ilst)},
    {"Iods", typeid(box::Iods)},
    {"Mdat", typeid(box::Mdat)},
    {"Mdhd", typeid(box::Mdhd)},
    {"Mdia", typeid(box::Mdia)},
    {"Mehd", typeid(box::Mehd)},
    {"Meta", typeid(box::Meta)},
    {"Mfhd", typeid(box::Mfhd)},
    {"Mfra", typeid(box::Mfra)},
    {"Mfro", typeid(box::Mfro)},
    {"Minf", typeid(box::Minf)},
    {"Moof", typeid(box::Moof)},
    {"Moov", typeid(box::Moov)},
    {"Mvex", typeid(box::Mvex)},
    {"Mvhd", typeid(box::Mvhd)},
    {"Pssh", typeid(box::Pssh)},
    {"Sbgp", typeid(box::Sbgp)},
    {"Schi", typeid(box::Schi)},
    {"Sdtp", typeid(box::Sdtp)},
    {"Sgpd", typeid(box::Sgpd)},
    {"Sidx", typeid(box::Sidx)},
    {"Sinf", typeid(box::Sinf)},
    {"Skip", typeid(box::Skip)},
    {"Smhd", typeid(box::Smhd)},
    {"Stbl", typeid(box::Stbl)},
    {"Stco", typeid(box::Stco)},
    {"Stsc", typeid(box::Stsc)},
    {"Stsd", typeid(box::Stsd)},
    {"Stss", typeid(box::Stss)},
    {"Stsz", typeid(box::Stsz)},
    {"Stts", typeid(box::Stts)},
    {"Styp", typeid(box::Styp)},
    {"Tfdt", typeid(box::Tfdt)},
    {"Tfhd", typeid(box::Tfhd)},
    {"Tfra", typeid(box::Tfra)},
    {"Tkhd", typeid(box::Tkhd)},
    {"Traf", typeid(box::Traf)},
    {"Trak", typeid(box::Trak)},
    {"Trex", typeid(box::Trex)},
    {"Trun", typeid(box::Trun)},
    {"Udta", typeid(box::Udta)},
    {"Vmhd", typeid(box::Vmhd)},
    {"Url", typeid(box::Url)},
    {"Urn", typeid(box::Urn)},
    {"Wave", typeid(box::Wave)},
    {"VisualSampleEntry", typeid(box::VisualSampleEntry)},
    {"AudioSampleEntry", typeid(box::AudioSampleEntry)},
    {"AVCDecoderConfiguration", typeid(box::AVCDecoderConfiguration)},
    {"VPCodecConfiguration", typeid(box::VPCodecConfiguration)},
    {"AV1CodecConfiguration", typeid(box::AV1CodecConfiguration)},
    {"PixelAspectRatio", typeid(box::PixelAspectRatio)},
    {"IlstMeta", typeid(box::IlstMeta)},
    {"Unsupported", typeid(box::Unsupported)},
};

std::string kind_of(Box* b) {
  for (const auto& k : kKinds)
    if (typeid(*b) == k.ti) return k.name;
  return "?";
}
bool is_kind(Box* b, const std::string& name) { return kind_of(b) == name; }
