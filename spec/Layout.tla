------------------------------- MODULE Layout -------------------------------
(* Wire layout and text form of every supported box type (C07 C08 C09 C14).

   A layout is a sequence of field descriptors.  LayoutOf(kind, env) may depend
   on the fields that come earlier (version, flags, ...), so with a partial
   env it yields a layout that is right up to the first field not yet known.
   The same layout is interpreted by Encode, Decode, TextOf, SizeOf and by the
   generator of field values.

   env: field name -> value.  Fields of whole bytes are byte sequences
   (big-endian), bit fields are integers, lists are sequences of envs.       *)
EXTENDS Num, BoxTypes, TimeEndian

\* ---- characters ---------------------------------------------------------------
LOCAL Ascii == <<
 " ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
 "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
 "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
\* text as the driver reports it: printable ASCII except \ stays, other bytes are \xNN
CharText(b) == IF b >= 32 /\ b <= 126 /\ b # 92 THEN Ascii[b - 31] ELSE "\\x" \o Hex2(b)
Esc(bs) == CatS([i \in 1..Len(bs) |-> CharText(bs[i])])
Printable(b) == b >= 32 /\ b <= 126
CodeText(c) == IF \A i \in 1..4 : Printable(c[i]) \/ c[i] = 169
               THEN CatS([i \in 1..4 |-> IF c[i] = 169 THEN "\\xc2\\xa9" ELSE CharText(c[i])])
               ELSE "0x" \o HexOfBytes(c)

\* ---- descriptors ------------------------------------------------------------------
Dsc(k, n, w, pre, f, post, x) == [k |-> k, n |-> n, w |-> w, pre |-> pre, f |-> f, post |-> post, x |-> x]
U(n, w, pre, f) == Dsc("U", n, w, pre, f, "", -1)          \* w bytes
UD(n, w, pre, f, top) == Dsc("U", n, w, pre, f, "", top)   \* generated values at most top
C(bytes) == Dsc("C", "", Len(bytes), "", "h", "", bytes)   \* fixed bytes, not looked at when read
V(n, pre, f) == Dsc("V", n, 4, pre, f, "", -1)             \* 7-bit groups, four of them
\* bit fields filling whole bytes: <<name, bits, pre, format>>, reserved: <<"", bits, value>>
B(fields) == Dsc("B", "", 0, "", "", "", fields)
Rest(n, pre, f, post) == Dsc("Rest", n, 0, pre, f, post, -1)
Fix(n, w, pre, f, post) == Dsc("Fix", n, w, pre, f, post, -1)
Str(n, pre, post) == Dsc("Str", n, 0, pre, "s", post, -1)  \* up to and including NUL
LenB(n, w, pre, f, post, cpre, cf) == Dsc("LenB", n, w, pre, f, post, [pre |-> cpre, f |-> cf])
\* list: x.cw bytes of count (0: x.num elements, -1 = as many as there are); x.or set in the count
Lst(n, item, cw, num, or, cpre, cf, pre, post, sep) ==
  Dsc("List", n, cw, pre, "", post, [item |-> item, cw |-> cw, num |-> num, or |-> or, cpre |-> cpre, cf |-> cf, sep |-> sep])
T(s) == Dsc("T", "", 0, s, "", "", -1)
X(n, pre, f, post) == Dsc("X", n, 0, pre, f, post, -1)     \* only the text of a field
Probe(n, min) == Dsc("Probe", n, 0, "", "h", "", min)      \* are there at least min more bytes
SkipTo(n, min) == Dsc("Skip", n, 0, "", "h", "", min)      \* field n counts what follows; what is beyond min is skipped
Pascal(n, pre, post) == Dsc("Pascal", n, 0, pre, "s", post, -1)

Has(e, n) == n \in DOMAIN e
Val(e, n, d) == IF n \in DOMAIN e THEN e[n] ELSE d
Ver(e) == IF Has(e, "version") THEN e["version"][1] ELSE 0
\* is bit b (0 = lowest) of the flags set
Flag(e, b) == Has(e, "flags") /\ (e["flags"][3 - (b \div 8)] \div (2 ^ (b % 8))) % 2 = 1
NumOf(e, n) == IF ~Has(e, n) THEN 0 ELSE IF IsSmall(e[n]) THEN ToInt(e[n]) ELSE 1000000000
VerW(e) == IF Ver(e) = 0 THEN 4 ELSE 8
Full == <<U("version", 1, "Version=", "d"), U("flags", 3, " Flags=0x", "hx")>>
List4(n, item, pre) == Lst(n, item, 4, 0, 0, " EntryCount=", "d", pre, "]", ", ")
RawD(pre) == <<Rest("data", pre, "xl", "]")>>
Z(n) == C(Zeros(n))
If(c, s) == IF c THEN s ELSE <<>>

\* ---- items of lists ------------------------------------------------------------------
NoDefLen(e) == Ver(e) = 1 /\ NumOf(e, "default_length") = 0
DescLen(e) == If(NoDefLen(e), <<U("description_length", 4, "{DescriptionLength=", "d")>>)
Open(e) == T(IF NoDefLen(e) THEN " " ELSE "{")
RECURSIVE ItemLayout(_, _, _)
ESOwn(it) == 3 + (IF Val(it, "stream_dependence_flag", 0) = 1 THEN 2 ELSE 0)
               + (IF Val(it, "url_flag", 0) = 1 THEN 1 + Len(Val(it, "url_string", <<>>)) ELSE 0)
               + (IF Val(it, "ocr_stream_flag", 0) = 1 THEN 2 ELSE 0)
ItemLayout(item, e, it) ==
  CASE item = "u32h" -> <<U("v", 4, "", "x")>>
    [] item = "u32" -> <<U("v", 4, "", "d")>>
    [] item = "i32h" -> <<U("v", 4, "", "sx")>>
    [] item = "i32" -> <<U("v", 4, "", "sd")>>
    [] item = "u64h" -> <<U("v", 8, "", "x")>>
    [] item = "stts" -> <<U("sample_count", 4, "{SampleCount=", "d"), U("sample_duration", 4, " SampleDuration=", "d"), T("}")>>
    [] item = "stsc" -> <<U("first_chunk", 4, "{FirstChunk=", "d"), U("samples_per_chunk", 4, " SamplesPerChunk=", "d"),
                          U("sample_description_index", 4, " SampleDescriptionIndex=", "d"), T("}")>>
    [] item = "ctts" -> <<U("sample_count", 4, "{SampleCount=", "d"), U("sample_offset", 4, " SampleOffset=", "sd"), T("}")>>
    [] item = "elst" -> <<U("track_duration", VerW(e), "{TrackDuration=", "d"), U("media_time", VerW(e), " MediaTime=", "sd"),
                          U("media_rate", 4, " MediaRate=", "sfx4"), T("}")>>
    [] item = "sbgp" -> <<U("sample_count", 4, "{SampleCount=", "d"),
                          U("group_description_index", 4, " GroupDescriptionIndex=", "d"), T("}")>>
    [] item = "sdtp" -> <<B(<< <<"is_leading", 2, "{IsLeading=", "x">>, <<"sample_depends_on", 2, " SampleDependsOn=", "x">>,
                               <<"sample_is_depended_on", 2, " SampleIsDependedOn=", "x">>,
                               <<"sample_has_redundancy", 2, " SampleHasRedundancy=", "x">> >>), T("}")>>
    [] item = "sidx" -> <<B(<< <<"reference_type", 1, "{ReferenceType=", "b">>, <<"reference_size", 31, " ReferencedSize=", "d">> >>),
                          U("subsegument_duration", 4, " SubsegmentDuration=", "d"),
                          B(<< <<"starts_with_sap", 1, " StartsWithSAP=", "b">>, <<"sap_type", 3, " SAPType=", "d">>,
                               <<"sap_delta_time", 28, " SAPDeltaTime=", "d">> >>), T("}")>>
    [] item = "tfra" -> <<U("time", VerW(e), "{Time=", "d"), U("moof_offset", VerW(e), " MoofOffset=", "d"),
                          U("traf_number", 1 + Val(e, "length_size_of_traf_num", 0), " TrafNumber=", "d"),
                          U("trun_number", 1 + Val(e, "length_size_of_trun_num", 0), " TrunNumber=", "d"),
                          U("sample_number", 1 + Val(e, "length_size_of_sample_num", 0), " SampleNumber=", "d"), T("}")>>
    [] item = "trun" ->
         LET f == <<Flag(e, 8), Flag(e, 9), Flag(e, 10), Flag(e, 11)>>
             sp(i) == IF \E j \in 1..(i - 1) : f[j] THEN " " ELSE ""
         IN <<T("{")>> \o If(f[1], <<U("sample_duration", 4, "SampleDuration=", "d")>>)
                       \o If(f[2], <<U("sample_size", 4, sp(2) \o "SampleSize=", "d")>>)
                       \o If(f[3], <<U("sample_flags", 4, sp(3) \o "SampleFlags=", "x")>>)
                       \o If(f[4], <<U("sample_composition_time_offset", 4, sp(4) \o "SampleCompositionTimeOffset=", "sd")>>) \o <<T("}")>>
    [] item = "roll" -> DescLen(e) \o (IF NoDefLen(e) THEN <<U("roll_distance", 2, " RollDistance=", "sd"), T("}")>>
                                       ELSE <<U("roll_distance", 2, "", "sd")>>)
    [] item = "rap" -> DescLen(e) \o <<Open(e), B(<< <<"num_leading_samples_known", 1, "NumLeadingSamplesKnown=", "b">>,
                                                     <<"num_leading_samples", 7, " NumLeadingSamples=", "x">> >>), T("}")>>
    [] item = "tele" -> DescLen(e) \o <<Open(e), B(<< <<"level_independently_decodable", 1, "LevelIndependentlyRecodable=", "b">>,
                                                      <<"", 7, 0>> >>), T("}")>>
    [] item = "alst" ->
         LET len == IF NoDefLen(e) THEN NumOf(it, "description_length") ELSE NumOf(e, "default_length")
             rc == NumOf(it, "roll_count")
         IN (IF NoDefLen(e) THEN <<UD("description_length", 4, "{DescriptionLength=", "d", 24)>> ELSE <<>>)
            \o <<Open(e), UD("roll_count", 2, "RollCount=", "d", (len - 4) \div 4),
                 U("first_output_sample", 2, " FirstOutputSample=", "d"),
                 Lst("sample_offsets", "u32", 0, rc, 0, "", "h", " SampleOffset=[", "]", ", "),
                 Lst("opts", "alstopt", 0, IF len < 4 + 4 * rc THEN -2 ELSE (len - 4 - 4 * rc) \div 4, 0, "", "h", " Opts=[", "]", ", "),
                 T("}")>>
    [] item = "alstopt" -> <<U("num_output_samples", 2, "{NumOutputSamples=", "d"), U("num_total_samples", 2, " NumTotalSamples=", "d"), T("}")>>
    [] item = "kid" -> <<Fix("kid", 16, "\"", "hx", "\"")>>
    [] item = "u8" -> <<U("v", 1, "", "d")>>
    [] item = "brand" -> <<Fix("v", 4, "{CompatibleBrand=\"", "s", "\"}")>>
    [] item = "nal" -> <<LenB("nal_unit", 2, " NALUnit=[", "xl", "]}", "{Length=", "d")>>
    [] item = "desc" ->
         <<U("tag", 1, "", "h")>> \o
         (CASE NumOf(it, "tag") = 3 ->
                 <<V("size", "", "h"),
                   T(IF Has(it, "size") THEN "{Tag=ESDescr DataSize=" \o ToString(ESOwn(it)) \o
                       " DataSizeWithSubDescriptors=" \o Dec(it["size"]) ELSE ""),
                   U("ESID", 2, " ESID=", "d"),
                   B(<< <<"stream_dependence_flag", 1, " StreamDependenceFlag=", "b">>, <<"url_flag", 1, " UrlFlag=", "b">>,
                        <<"ocr_stream_flag", 1, " OcrStreamFlag=", "b">>, <<"stream_priority", 5, " StreamPriority=", "s5">> >>)>>
                 \o If(Val(it, "stream_dependence_flag", 0) = 1, <<U("depends_on_esid", 2, " DependsOnESID=", "d")>>)
                 \o If(Val(it, "url_flag", 0) = 1, <<LenB("url_string", 1, " URLString=\"", "s", "\"", " URLLength=", "x")>>)
                 \o If(Val(it, "ocr_stream_flag", 0) = 1, <<U("OCRESID", 2, " OCRESID=", "d")>>)
                 \o <<T("}")>>
            [] NumOf(it, "tag") = 4 ->
                 <<V("size", "{Tag=DecoderConfigDescr DataSize=13 DataSizeWithSubDescriptors=", "d"),
                   U("object_type_indication", 1, " ObjectTypeIndication=", "x"),
                   B(<< <<"stream_type", 6, " StreamType=", "s6">>, <<"upstream", 1, " UpStream=", "b">>,
                        <<"reserved", 1, " Reserved=", "b">> >>),
                   U("buffer_size_db", 3, " BufferSizeDB=", "d"), U("max_bitrate", 4, " MaxBitrate=", "d"),
                   U("avg_bitrate", 4, " AvgBitrate=", "d"), T("}")>>
            [] NumOf(it, "tag") = 5 -> <<LenB("data", 0, " Data=[", "xl", "]}", "{Tag=DecSpecificInfo DataSize=", "d")>>
            [] NumOf(it, "tag") = 6 -> <<LenB("data", 0, " Data=[", "xl", "]}", "{Tag=SLConfigDescr DataSize=", "d")>>
            [] OTHER -> <<>>)

\* ---- layouts of boxes ---------------------------------------------------------------------
Times(e) == <<U("creation_time", VerW(e), " CreationTime=\"", "time"), U("modification_time", VerW(e), "\" ModificationTime=\"", "time")>>
Group == <<Fix("grouping_type", 4, " GroupingType=\"", "s", "\"")>>
HighProfile == {16 * 5 + 6, 100, 110, 118, 122, 128, 138, 144, 244}
PlainVisual == <<>>
Roll == <<114,111,108,108>>  Prol == <<112,114,111,108>>  Alst == <<97,108,115,116>>
RapG == <<114,97,112,32>>    Tele == <<116,101,108,101>>
Nclx == <<110,99,108,120>>   RIcc == <<114,73,67,67>>     Prof == <<112,114,111,102>>
DataNames == <<"BINARY", "UTF8", "UTF16", "MAC_STR", "", "", "", "", "", "", "", "", "", "", "JPEG", "", "", "", "", "", "",
               "INT", "FLOAT32", "FLOAT64">>
DataName(b) == IF IsSmall(b) /\ ToInt(b) <= 23 THEN DataNames[ToInt(b) + 1] ELSE ""
Containers == {"Dinf", "Edts", "Ilst", "Mdia", "Mfra", "Minf", "Moof", "Moov", "Mvex", "Schi", "Sinf", "Stbl", "Traf", "Trak", "Udta",
               "Wave", "IlstMeta"}
Brands == <<Fix("major_brand", 4, "MajorBrand=\"", "s", "\""), U("minor_version", 4, " MinorVersion=", "d"),
            Lst("compatible_brands", "brand", 0, -1, 0, "", "h", " CompatibleBrands=[", "]", ", ")>>
Opus == <<79,112,117,115>>

LayoutOf(kind, e) ==
  CASE kind \in Containers -> <<>>
    [] kind = "Meta" -> Full
    [] kind = "Btrt" -> <<U("decoding_buffer_size", 4, "DecodingBufferSize=", "d"), U("max_bitrate", 4, " MaxBitrate=", "d"),
                          U("avg_bitrate", 4, " AvgBitrate=", "d")>>
    [] kind = "Fiel" -> <<U("field_count", 1, "FieldCount=", "d"), U("field_ordering", 1, " FieldOrdering=", "d")>>
    [] kind = "PixelAspectRatio" -> <<U("h_spacing", 4, "HSpacing=", "d"), U("v_spacing", 4, " VSpacing=", "d")>>
    [] kind \in {"Free", "Skip", "Mdat"} -> RawD("Data=[")
    [] kind = "Unsupported" -> RawD("(unsupported) Data=[")
    [] kind \in {"Dref", "Stsd"} -> Full \o <<U("entry_count", 4, " EntryCount=", "d")>>
    [] kind = "Mfhd" -> Full \o <<U("sequence_number", 4, " SequenceNumber=", "d")>>
    [] kind = "Mfro" -> Full \o <<U("size", 4, " Size=", "d")>>
    [] kind = "Mehd" -> Full \o <<U("fragment_duration", VerW(e), " FragmentDuration=", "d")>>
    [] kind = "Tfdt" -> Full \o <<U("base_media_decode_time", VerW(e), " BaseMediaDecodeTime=", "d")>>
    [] kind = "Trex" -> Full \o <<U("track_id", 4, " TrackID=", "d"),
                          U("default_sample_description_index", 4, " DefaultSampleDescriptionIndex=", "d"),
                          U("default_sample_duration", 4, " DefaultSampleDuration=", "d"),
                          U("default_sample_size", 4, " DefaultSampleSize=", "d"),
                          U("default_sample_flags", 4, " DefaultSampleFlags=", "x")>>
    [] kind = "Smhd" -> Full \o <<U("balance", 2, " Balance=", "sfx2"), Z(2)>>
    [] kind = "Vmhd" -> Full \o <<U("graphicsmode", 2, " Graphicsmode=", "d"),
                          U("opcolor0", 2, " Opcolor=[", "d"), U("opcolor1", 2, ", ", "d"), U("opcolor2", 2, ", ", "d"), T("]")>>
    [] kind = "Co64" -> Full \o <<List4("chunk_offsets", "u64h", " ChunkOffsets=[")>>
    [] kind = "Stco" -> Full \o <<List4("chunk_offsets", "u32h", " ChunkOffsets=[")>>
    [] kind = "Stss" -> Full \o <<List4("sample_numbers", "u32", " SampleNumbers=[")>>
    [] kind = "Stts" -> Full \o <<List4("entries", "stts", " Entries=[")>>
    [] kind = "Stsc" -> Full \o <<List4("entries", "stsc", " Entries=[")>>
    [] kind = "Ctts" -> Full \o <<List4("entries", "ctts", " Entries=[")>>
    [] kind = "Elst" -> Full \o <<List4("entries", "elst", " Entries=[")>>
    [] kind = "Sbgp" -> Full \o Group \o If(Ver(e) # 0, <<U("grouping_type_parameter", 4, " GroupingTypeParameter=", "d")>>)
                          \o <<List4("entries", "sbgp", " Entries=[")>>
    [] kind = "Stsz" -> Full \o <<U("sample_size", 4, " SampleSize=", "d")>>
                          \o (IF Has(e, "sample_size") /\ ~EqN(e["sample_size"], <<0>>)
                              THEN <<UD("sample_count", 4, " SampleCount=", "d", 5), T(" EntrySizes=[]")>>
                              ELSE <<Lst("entry_sizes", "u32", 4, 0, 0, " SampleCount=", "d", " EntrySizes=[", "]", ", ")>>)
    [] kind = "Mdhd" -> Full \o Times(e) \o
                          <<U("timescale", 4, "\" Timescale=", "d"), U("duration", VerW(e), " Duration=", "d"),
                            B(<< <<"pad", 1, " Pad=", "b">>, <<"language0", 5, " Language=\"", "c5">>, <<"language1", 5, "", "c5">>,
                                 <<"language2", 5, "", "c5">> >>), U("pre_defined", 2, "\" PreDefined=", "d")>>
    [] kind = "Mvhd" -> Full \o Times(e) \o
                          <<U("timescale", 4, "\" Timescale=", "d"), U("duration", VerW(e), " Duration=", "d"),
                            U("rate", 4, " Rate=", "sfx4"), U("volume", 2, " Volume=", "sd"), Z(10),
                            Lst("matrix", "i32h", 0, 9, 0, "", "h", " Matrix=[", "]", ", "),
                            Lst("pre_defined", "i32", 0, 6, 0, "", "h", " PreDefined=[", "]", ", "),
                            U("next_track_id", 4, " NextTrackID=", "d")>>
    [] kind = "Tkhd" -> Full \o Times(e) \o
                          <<U("track_id", 4, "\" TrackID=", "d"), Z(4), U("duration", VerW(e), " Duration=", "d"), Z(8),
                            U("layer", 2, " Layer=", "sd"), U("alternate_group", 2, " AlternateGroup=", "sd"),
                            U("volume", 2, " Volume=", "sd"), Z(2),
                            Lst("matrix", "i32h", 0, 9, 0, "", "h", " Matrix=[", "]", ", "),
                            U("width", 4, " Width=", "fx4"), U("height", 4, " Height=", "fx4")>>
    [] kind = "Sdtp" -> Full \o <<Lst("samples", "sdtp", 0, -1, 0, "", "h", " Samples=[", "]", ", ")>>
    [] kind = "Sidx" -> Full \o <<U("reference_id", 4, " ReferenceID=", "d"), U("timescale", 4, " Timescale=", "d"),
                            U("earliest_presentation_time", VerW(e), " EarliestPresentationTime=", "d"),
                            U("first_offset", VerW(e), " FirstOffset=", "d"), Z(2),
                            Lst("references", "sidx", 2, 0, 0, " ReferenceCount=", "d", " References=[", "]", ", ")>>
    [] kind = "Tfhd" -> Full \o <<U("track_id", 4, " TrackID=", "d")>>
                          \o If(Flag(e, 0), <<U("base_data_offset", 8, " BaseDataOffset=", "d")>>)
                          \o If(Flag(e, 1), <<U("sample_description_index", 4, " SampleDescriptionIndex=", "d")>>)
                          \o If(Flag(e, 3), <<U("default_sample_duration", 4, " DefaultSampleDuration=", "d")>>)
                          \o If(Flag(e, 4), <<U("default_sample_size", 4, " DefaultSampleSize=", "d")>>)
                          \o If(Flag(e, 5), <<U("default_sample_flags", 4, " DefaultSampleFlags=", "x")>>)
    [] kind = "Tfra" -> Full \o <<U("track_id", 4, " TrackID=", "d"),
                            B(<< <<"", 26, 0>>, <<"length_size_of_traf_num", 2, " LengthSizeOfTrafNum=", "x">>,
                                 <<"length_size_of_trun_num", 2, " LengthSizeOfTrunNum=", "x">>,
                                 <<"length_size_of_sample_num", 2, " LengthSizeOfSampleNum=", "x">> >>),
                            Lst("entries", "tfra", 4, 0, 0, " NumberOfEntry=", "d", " Entries=[", "]", ", ")>>
    [] kind = "Trun" -> Full \o <<UD("sample_count", 4, " SampleCount=", "d", 3)>>
                          \o If(Flag(e, 0), <<U("data_offset", 4, " DataOffset=", "sd")>>)
                          \o If(Flag(e, 2), <<U("first_sample_flags", 4, " FirstSampleFlags=", "x")>>)
                          \o <<Lst("entries", "trun", 0, NumOf(e, "sample_count"), 0, "", "h", " Entries=[", "]", ", ")>>
    [] kind = "Sgpd" ->
         Full \o Group \o (IF Ver(e) = 1 THEN <<U("default_length", 4, " DefaultLength=", "d")>>
                           ELSE <<U("default_sample_description_index", 4, " DefaultSampleDescriptionIndex=", "d")>>)
         \o (LET g == Val(e, "grouping_type", <<>>)
                 l == IF NoDefLen(e) THEN "L=[" ELSE "=["
             IN IF g \in {Roll, Prol} THEN <<List4("roll_distances", "roll", " RollDistances" \o l)>>
                ELSE IF g = Alst THEN <<List4("alternative_startup_entries", "alst", " AlternativeStartupEntries" \o l)>>
                ELSE IF g = RapG THEN <<List4("visual_random_access_entries", "rap", " VisualRandomAccessEntries" \o l)>>
                ELSE IF g = Tele THEN <<List4("temporal_level_entries", "tele", " TemporalLevelEntries" \o l)>>
                ELSE <<>>)
    [] kind = "Pssh" -> Full \o <<Fix("system_id", 16, " SystemID=\"", "hx", "\"")>>
                          \o If(Ver(e) # 0, <<Lst("kids", "kid", 4, 0, 0, " KIDCount=", "d", " KIDs=[", "]", " ")>>)
                          \o <<LenB("data", 4, " Data=[", "xl", "]", " DataSize=", "d")>>
    [] kind = "Url" -> Full \o If(Has(e, "flags") /\ ~Flag(e, 0), <<Str("location", " Location=\"", "\"")>>)
    [] kind = "Urn" -> Full \o If(Has(e, "flags") /\ ~Flag(e, 0), <<Str("name", " Name=\"", "\""), Str("location", " Location=\"", "\"")>>)
    [] kind = "VPCodecConfiguration" ->
         Full \o <<U("profile", 1, " Profile=", "d"), U("level", 1, " Level=", "d"),
                   B(<< <<"bit_depth", 4, " BitDepth=", "d">>, <<"chroma_sub_sampling", 3, " ChromaSubSampling=", "d">>,
                        <<"video_full_range_flag", 1, " VideoFullRangeFlag=", "d">> >>),
                   U("colour_primaries", 1, " ColourPrimaries=", "d"), U("transfer_characteristics", 1, " TransferCharacteristics=", "d"),
                   U("matrix_coefficients", 1, " MatrixCoefficients=", "d")>>
              \o (IF Ver(e) # 0 THEN <<LenB("codec_initialization_data", 2, " CodecInitializationData=[", "xl", "]", "", "h")>>
                  ELSE <<T(" CodecInitializationData=[]")>>)
    [] kind = "Colr" ->
         <<Fix("colour_type", 4, "ColourType=\"", "s", "\"")>>
         \o (LET c == Val(e, "colour_type", <<>>) IN
             IF c = Nclx THEN <<U("colour_primaries", 2, " ColourPrimaries=", "d"),
                                U("transfer_characteristics", 2, " TransferCharacteristics=", "d"),
                                U("matrix_coefficients", 2, " MatrixCoefficients=", "d"),
                                B(<< <<"full_range_flag", 1, " FullRangeFlag=", "b">>, <<"", 7, 0>> >>)>>
             ELSE IF c \in {RIcc, Prof} THEN <<Rest("profile", " Profile=[", "xl", "]")>>
             ELSE IF c = <<>> THEN <<>> ELSE <<Rest("unknown", " Unknown=[", "xl", "]")>>)
    [] kind = "DOps" ->
         <<U("version", 1, "Version=", "d"), U("output_channel_count", 1, " OutputChannelCount=", "d"), U("pre_skip", 2, " PreSkip=", "d"),
           U("input_sample_rate", 4, " InputSampleRate=", "d"), U("output_gain", 2, " OutputGain=", "sd"),
           U("channel_mapping_family", 1, " ChannelMappingFamily=", "d")>>
         \o If(NumOf(e, "channel_mapping_family") # 0,
               <<U("stream_count", 1, " StreamCount=", "d"), U("coupled_count", 1, " CoupledCount=", "d"),
                 Lst("channel_mapping", "u8", 0, NumOf(e, "output_channel_count"), 0, "", "h", " ChannelMapping=[", "]", ", ")>>)
    [] kind = "AV1CodecConfiguration" ->
         <<B(<< <<"marker", 1, "Marker=", "d">>, <<"version", 7, " Version=", "d">>,
                <<"seq_profile", 3, " SeqProfile=", "d">>, <<"seq_level_idx_0", 5, " SeqLevelIdx0=", "d">>,
                <<"seq_tier_0", 1, " SeqTier0=", "d">>, <<"high_bitdepth", 1, " HighBitdepth=", "b">>,
                <<"twelve_bit", 1, " TwelveBit=", "b">>, <<"monochrome", 1, " Monochrome=", "b">>,
                <<"chroma_subsampling_x", 1, " ChromaSubsamplingX=", "d">>, <<"chroma_subsampling_y", 1, " ChromaSubsamplingY=", "d">>,
                <<"chroma_sample_position", 2, " ChromaSamplePosition=", "d">>, <<"", 3, 0>>,
                <<"initial_presentation_delay_present", 1, " InitialPresentationDelayPresent=", "b">>,
                <<"initial_presentation_delay_minus_one", 4, " InitialPresentationDelayMinusOne=",
                  IF Val(e, "initial_presentation_delay_present", 0) = 1 THEN "d" ELSE "none">> >>),
           Rest("config_OBUs", " ConfigOBUs=[", "xl", "]")>>
    [] kind = "AVCDecoderConfiguration" ->
         <<U("configuration_version", 1, "ConfigurationVersion=", "x"), U("profile", 1, " Profile=", "x"),
           U("profile_compatibility", 1, " ProfileCompatibility=", "x"), U("level", 1, " Level=", "x"),
           B(<< <<"", 6, 63>>, <<"length_size_minus_one", 2, " LengthSizeMinusOne=", "x">> >>),
           Lst("sequence_parameter_sets", "nal", 1, 0, 224, " NumOfSequenceParameterSets=", "x", " SequenceParameterSets=[", "]", ", "),
           Lst("picture_parameter_sets", "nal", 1, 0, 0, " NumOfPictureParameterSets=", "x", " PictureParameterSets=[", "]", ", ")>>
         \o If(Has(e, "profile") /\ e["profile"][1] \in HighProfile, <<Probe("high_profile_fields_enabled", 4)>>
               \o If(Val(e, "high_profile_fields_enabled", 0) = 1,
                     <<B(<< <<"", 6, 63>>, <<"chroma_format", 2, " ChromaFormat=", "x">>,
                            <<"", 5, 31>>, <<"bit_depth_luma_minus8", 3, " BitDepthLumaMinus8=", "x">>,
                            <<"", 5, 31>>, <<"bit_depth_chroma_minus8", 3, " BitDepthChromaMinus8=", "x">> >>),
                       Lst("sequence_parameter_sets_ext", "nal", 1, 0, 0, " NumOfSequenceParameterSetExt=", "x",
                           " SequenceParameterSetsExt=[", "]", ", ")>>))
    [] kind \in {"Ftyp", "Styp"} -> Brands
    [] kind = "Hdlr" -> Full \o <<U("pre_defined", 4, " PreDefined=", "d"), Fix("handler_type", 4, " HandlerType=\"", "s", "\""), Z(12)>>
                          \o (IF Has(e, "pre_defined") /\ ~EqN(e["pre_defined"], <<0>>) THEN <<Pascal("name", " Name=\"", "\"")>>
                              ELSE <<Str("name", " Name=\"", "\"")>>) \o <<Rest("padding", "", "h", "")>>
    [] kind = "Emsg" ->
         LET strs(p) == <<Str("scheme_uri", p, "\""), Str("value", " Value=\"", "\"")>>
             rest == <<Rest("message_data", " MessageData=\"", "s", "\"")>>
         IN IF ~Has(e, "version") THEN Full
            ELSE IF Ver(e) = 0 THEN Full \o strs(" SchemeIdUri=\"") \o
                 <<U("timescale", 4, " Timescale=", "d"), U("presentation_time", 4, " PresentationTimeDelta=", "d"),
                   U("event_duration", 4, " EventDuration=", "d"), U("id", 4, " Id=", "d")>> \o rest
            ELSE Full \o   \* the numbers come first, but not in the text
                 <<U("timescale", 4, "", "h"), U("presentation_time", 8, "", "h"), U("event_duration", 4, "", "h"), U("id", 4, "", "h")>>
                 \o strs(" SchemeIdUri=\"") \o
                 <<X("timescale", " Timescale=", "d", ""), X("presentation_time", " PresentationTime=", "d", ""),
                   X("event_duration", " EventDuration=", "d", ""), X("id", " Id=", "d", "")>> \o rest
    [] kind = "Iods" -> Full \o <<U("type_tag", 1, " TypeTag=", "x"), V("descriptor_length", "", "h"), U("OD_ID", 2, " ODID=", "d"),
                            U("OD_profile_level", 1, " ODProfileLevel=", "x"), U("scene_profile_level", 1, " SceneProfileLevel=", "x"),
                            U("audio_profile_level", 1, " AudioProfileLevel=", "x"), U("video_profile_level", 1, " VideoProfileLevel=", "x"),
                            U("graphics_profile_level", 1, " GraphicsProfileLevel=", "x"),
                            SkipTo("descriptor_length", 7)>>
    [] kind = "Data" -> <<U("data_type", 4, "DataType=", "dt"), U("data_lang", 4, " DataLang=", "d")>>
                          \o (IF Has(e, "data_type") /\ EqN(e["data_type"], <<1>>) THEN <<Rest("data", " Data=\"", "dots", "\"")>>
                              ELSE <<Rest("data", " Data=[", "xl", "]")>>)
    [] kind = "VisualSampleEntry" ->
         <<Z(6), U("data_reference_index", 2, "DataReferenceIndex=", "d"), U("pre_defined", 2, " PreDefined=", "d"), Z(2),
           Lst("pre_defined2", "u32", 0, 3, 0, "", "h", " PreDefined2=[", "]", ", "),
           U("width", 2, " Width=", "d"), U("height", 2, " Height=", "d"), U("horizresolution", 4, " Horizresolution=", "d"),
           U("vertresolution", 4, " Vertresolution=", "d"), Z(4), U("frame_count", 2, " FrameCount=", "d"),
           Fix("compressorname", 32, " Compressorname=\"", "pas", "\""), U("depth", 2, " Depth=", "d"),
           U("pre_defined3", 2, " PreDefined3=", "sd")>>
    [] kind = "AudioSampleEntry" ->
         \* ctx: "wave" (inside a wave box: raw), "code" (the type code)
         IF Val(e, "under_wave", 0) = 1 THEN <<Rest("quick_time_data", "QuickTimeData=[", "xl", "]")>>
         ELSE <<Z(6), U("data_reference_index", 2, "DataReferenceIndex=", "d"), U("entry_version", 2, " EntryVersion=", "d"), Z(6),
                U("channel_count", 2, " ChannelCount=", "d"), U("sample_size", 2, " SampleSize=", "d"),
                U("pre_defined", 2, " PreDefined=", "d"), Z(2), U("sample_rate", 4, " SampleRate=", "d")>>
              \o If(Has(e, "entry_version") /\ ~EqN(e["entry_version"], <<0>>) /\ Val(e, "code", <<>>) # Opus,
                    <<Probe("is_quick_time_compatible", 1)>>
                    \o If(Val(e, "is_quick_time_compatible", 0) = 1,
                          IF NumOf(e, "entry_version") = 1 THEN <<Fix("quick_time_data", 16, " QuickTimeData=[", "xl", "]")>>
                          ELSE IF NumOf(e, "entry_version") = 2 THEN <<Fix("quick_time_data", 36, " QuickTimeData=[", "xl", "]")>>
                          ELSE <<Rest("quick_time_data", " QuickTimeData=[", "xl", "]")>>))
    [] kind = "Esds" -> Full \o <<Lst("descriptors", "desc", 0, -1, 0, "", "h", " Descriptors=[", "]", ", ")>>
    [] OTHER -> Assert(FALSE, kind)

=============================================================================
