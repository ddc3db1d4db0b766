------------------------------ MODULE BoxTypes ------------------------------
(* The supported four-character codes: code, kind of box, whether the kind
   carries version and flags, supported versions (empty: any).              *)
EXTENDS Integers, Sequences, SequencesExt

TypeTable == <<
  <<<<98,116,114,116>>, "Btrt", FALSE, <<>>>>,
  <<<<99,111,54,52>>, "Co64", TRUE, <<0>>>>,
  <<<<99,111,108,114>>, "Colr", FALSE, <<>>>>,
  <<<<99,116,116,115>>, "Ctts", TRUE, <<0,1>>>>,
  <<<<100,97,116,97>>, "Data", FALSE, <<>>>>,
  <<<<100,105,110,102>>, "Dinf", FALSE, <<>>>>,
  <<<<100,79,112,115>>, "DOps", FALSE, <<>>>>,
  <<<<100,114,101,102>>, "Dref", TRUE, <<0>>>>,
  <<<<101,100,116,115>>, "Edts", FALSE, <<>>>>,
  <<<<101,108,115,116>>, "Elst", TRUE, <<0,1>>>>,
  <<<<101,109,115,103>>, "Emsg", TRUE, <<0,1>>>>,
  <<<<101,115,100,115>>, "Esds", TRUE, <<0>>>>,
  <<<<102,105,101,108>>, "Fiel", FALSE, <<>>>>,
  <<<<102,114,101,101>>, "Free", FALSE, <<>>>>,
  <<<<102,116,121,112>>, "Ftyp", FALSE, <<>>>>,
  <<<<104,100,108,114>>, "Hdlr", TRUE, <<0>>>>,
  <<<<105,108,115,116>>, "Ilst", FALSE, <<>>>>,
  <<<<105,111,100,115>>, "Iods", TRUE, <<0>>>>,
  <<<<109,100,97,116>>, "Mdat", FALSE, <<>>>>,
  <<<<109,100,104,100>>, "Mdhd", TRUE, <<0,1>>>>,
  <<<<109,100,105,97>>, "Mdia", FALSE, <<>>>>,
  <<<<109,101,104,100>>, "Mehd", TRUE, <<0,1>>>>,
  <<<<109,101,116,97>>, "Meta", TRUE, <<0>>>>,
  <<<<109,102,104,100>>, "Mfhd", TRUE, <<0>>>>,
  <<<<109,102,114,97>>, "Mfra", FALSE, <<>>>>,
  <<<<109,102,114,111>>, "Mfro", TRUE, <<0>>>>,
  <<<<109,105,110,102>>, "Minf", FALSE, <<>>>>,
  <<<<109,111,111,102>>, "Moof", FALSE, <<>>>>,
  <<<<109,111,111,118>>, "Moov", FALSE, <<>>>>,
  <<<<109,118,101,120>>, "Mvex", FALSE, <<>>>>,
  <<<<109,118,104,100>>, "Mvhd", TRUE, <<0,1>>>>,
  <<<<112,115,115,104>>, "Pssh", TRUE, <<0,1>>>>,
  <<<<115,98,103,112>>, "Sbgp", TRUE, <<0,1>>>>,
  <<<<115,99,104,105>>, "Schi", FALSE, <<>>>>,
  <<<<115,100,116,112>>, "Sdtp", TRUE, <<0>>>>,
  <<<<115,103,112,100>>, "Sgpd", TRUE, <<1,2>>>>,
  <<<<115,105,100,120>>, "Sidx", TRUE, <<0,1>>>>,
  <<<<115,105,110,102>>, "Sinf", FALSE, <<>>>>,
  <<<<115,107,105,112>>, "Skip", FALSE, <<>>>>,
  <<<<115,109,104,100>>, "Smhd", TRUE, <<0>>>>,
  <<<<115,116,98,108>>, "Stbl", FALSE, <<>>>>,
  <<<<115,116,99,111>>, "Stco", TRUE, <<>>>>,
  <<<<115,116,115,99>>, "Stsc", TRUE, <<0>>>>,
  <<<<115,116,115,100>>, "Stsd", TRUE, <<0>>>>,
  <<<<115,116,115,115>>, "Stss", TRUE, <<0>>>>,
  <<<<115,116,115,122>>, "Stsz", TRUE, <<0>>>>,
  <<<<115,116,116,115>>, "Stts", TRUE, <<0>>>>,
  <<<<115,116,121,112>>, "Styp", FALSE, <<>>>>,
  <<<<116,102,100,116>>, "Tfdt", TRUE, <<0,1>>>>,
  <<<<116,102,104,100>>, "Tfhd", TRUE, <<0>>>>,
  <<<<116,102,114,97>>, "Tfra", TRUE, <<0,1>>>>,
  <<<<116,107,104,100>>, "Tkhd", TRUE, <<0,1>>>>,
  <<<<116,114,97,102>>, "Traf", FALSE, <<>>>>,
  <<<<116,114,97,107>>, "Trak", FALSE, <<>>>>,
  <<<<116,114,101,120>>, "Trex", TRUE, <<0>>>>,
  <<<<116,114,117,110>>, "Trun", TRUE, <<0,1>>>>,
  <<<<117,100,116,97>>, "Udta", FALSE, <<>>>>,
  <<<<118,109,104,100>>, "Vmhd", TRUE, <<0>>>>,
  <<<<117,114,108,32>>, "Url", TRUE, <<0>>>>,
  <<<<117,114,110,32>>, "Urn", TRUE, <<0>>>>,
  <<<<119,97,118,101>>, "Wave", FALSE, <<0>>>>,
  <<<<97,118,99,49>>, "VisualSampleEntry", FALSE, <<0>>>>,
  <<<<101,110,99,118>>, "VisualSampleEntry", FALSE, <<0>>>>,
  <<<<118,112,48,56>>, "VisualSampleEntry", FALSE, <<0>>>>,
  <<<<118,112,48,57>>, "VisualSampleEntry", FALSE, <<0>>>>,
  <<<<118,112,49,48>>, "VisualSampleEntry", FALSE, <<0>>>>,
  <<<<97,118,48,49>>, "VisualSampleEntry", FALSE, <<0>>>>,
  <<<<109,112,52,97>>, "AudioSampleEntry", FALSE, <<0>>>>,
  <<<<101,110,99,97>>, "AudioSampleEntry", FALSE, <<0>>>>,
  <<<<79,112,117,115>>, "AudioSampleEntry", FALSE, <<0>>>>,
  <<<<97,118,99,67>>, "AVCDecoderConfiguration", FALSE, <<0>>>>,
  <<<<118,112,99,67>>, "VPCodecConfiguration", TRUE, <<1,0>>>>,
  <<<<97,118,49,67>>, "AV1CodecConfiguration", FALSE, <<>>>>,
  <<<<112,97,115,112>>, "PixelAspectRatio", FALSE, <<0>>>>,
  <<<<45,45,45,45>>, "IlstMeta", FALSE, <<>>>>,
  <<<<97,65,82,84>>, "IlstMeta", FALSE, <<>>>>,
  <<<<97,107,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<97,112,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<97,116,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<99,109,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<99,110,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<99,111,118,114>>, "IlstMeta", FALSE, <<>>>>,
  <<<<99,112,105,108>>, "IlstMeta", FALSE, <<>>>>,
  <<<<99,112,114,116>>, "IlstMeta", FALSE, <<>>>>,
  <<<<100,101,115,99>>, "IlstMeta", FALSE, <<>>>>,
  <<<<100,105,115,107>>, "IlstMeta", FALSE, <<>>>>,
  <<<<101,103,105,100>>, "IlstMeta", FALSE, <<>>>>,
  <<<<103,101,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<103,110,114,101>>, "IlstMeta", FALSE, <<>>>>,
  <<<<112,99,115,116>>, "IlstMeta", FALSE, <<>>>>,
  <<<<112,103,97,112>>, "IlstMeta", FALSE, <<>>>>,
  <<<<112,108,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<112,117,114,100>>, "IlstMeta", FALSE, <<>>>>,
  <<<<112,117,114,108>>, "IlstMeta", FALSE, <<>>>>,
  <<<<114,116,110,103>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,102,73,68>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,111,97,97>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,111,97,108>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,111,97,114>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,111,99,111>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,111,110,109>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,111,115,110>>, "IlstMeta", FALSE, <<>>>>,
  <<<<115,116,105,107>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,109,112,111>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,114,107,110>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,118,101,110>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,118,101,115>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,118,110,110>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,118,115,104>>, "IlstMeta", FALSE, <<>>>>,
  <<<<116,118,115,110>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,65,82,84>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,97,108,98>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,99,109,116>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,99,111,109>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,100,97,121>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,103,101,110>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,103,114,112>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,110,97,109>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,116,111,111>>, "IlstMeta", FALSE, <<>>>>,
  <<<<169,119,114,116>>, "IlstMeta", FALSE, <<>>>>
>>
TypeCodes == {TypeTable[i][1] : i \in 1..Len(TypeTable)}
Row(code) == LET i == CHOOSE i \in 1..Len(TypeTable) : TypeTable[i][1] = code IN TypeTable[i]
Known(code) == code \in TypeCodes
KindOf(code) == IF Known(code) THEN Row(code)[2] ELSE "Unsupported"
IsFull(code) == Known(code) /\ Row(code)[3]
VersionsOf(code) == Row(code)[4]
Distinct == \A i, j \in 1..Len(TypeTable) : i # j => TypeTable[i][1] # TypeTable[j][1]
ASSUME Distinct
=============================================================================
