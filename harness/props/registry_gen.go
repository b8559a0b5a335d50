// Code generated by tools/gen_registry.sh; DO NOT EDIT.
package props

// Registry lists every harness for native replay.
var Registry = map[string]func(){
	"C01_Far":               C01_Far,
	"C01_Powers":            C01_Powers,
	"C01_ReadBits":          C01_ReadBits,
	"C01_Reader":            C01_Reader,
	"C01_WriteBits":         C01_WriteBits,
	"C01_Writer":            C01_Writer,
	"C02_Large":             C02_Large,
	"C02_Powers":            C02_Powers,
	"C02_Reader":            C02_Reader,
	"C02_Reset":             C02_Reset,
	"C02_Writer":            C02_Writer,
	"C03_Far":               C03_Far,
	"C03_Fixed":             C03_Fixed,
	"C03_SE":                C03_SE,
	"C03_Short":             C03_Short,
	"C03_Stream":            C03_Stream,
	"C03_UE":                C03_UE,
	"C04_Far":               C04_Far,
	"C04_Find":              C04_Find,
	"C04_Sequence":          C04_Sequence,
	"C04_Twice":             C04_Twice,
	"C04_Variants":          C04_Variants,
	"C05_Large":             C05_Large,
	"C05_Nested":            C05_Nested,
	"C05_Powers":            C05_Powers,
	"C05_Split":             C05_Split,
	"C05_Strip":             C05_Strip,
	"C05_Units":             C05_Units,
	"C06_Any":               C06_Any,
	"C06_Big":               C06_Big,
	"C06_Empty":             C06_Empty,
	"C06_Many":              C06_Many,
	"C06_Powers":            C06_Powers,
	"C06_Twice":             C06_Twice,
	"C06_Units":             C06_Units,
	"C07_Any":               C07_Any,
	"C07_Big":               C07_Big,
	"C07_Broken":            C07_Broken,
	"C07_Many":              C07_Many,
	"C07_Powers":            C07_Powers,
	"C07_RoundTrip":         C07_RoundTrip,
	"C07_Twice":             C07_Twice,
	"C07_Units":             C07_Units,
	"C08_Any":               C08_Any,
	"C08_Big":               C08_Big,
	"C08_Many":              C08_Many,
	"C08_Powers":            C08_Powers,
	"C08_Twice":             C08_Twice,
	"C08_Units":             C08_Units,
	"C09_Large":             C09_Large,
	"C09_Parse":             C09_Parse,
	"C09_RoundTrip":         C09_RoundTrip,
	"C09_Trailing":          C09_Trailing,
	"C09_Truncated":         C09_Truncated,
	"C09_Twice":             C09_Twice,
	"C09_Unfit":             C09_Unfit,
	"C10_Header":            C10_Header,
	"C10_Large":             C10_Large,
	"C10_Parse":             C10_Parse,
	"C10_RoundTrip":         C10_RoundTrip,
	"C10_Trailing":          C10_Trailing,
	"C10_Truncated":         C10_Truncated,
	"C10_Twice":             C10_Twice,
	"C10_Unfit":             C10_Unfit,
	"C11_Any":               C11_Any,
	"C11_AnyHigh":           C11_AnyHigh,
	"C11_Cycle":             C11_Cycle,
	"C11_Elements":          C11_Elements,
	"C11_Escaped":           C11_Escaped,
	"C11_EscapedMany":       C11_EscapedMany,
	"C11_EscapedRaw":        C11_EscapedRaw,
	"C11_Profiles":          C11_Profiles,
	"C11_Scaling":           C11_Scaling,
	"C11_Truncated":         C11_Truncated,
	"C11_Twice":             C11_Twice,
	"C11_VUI":               C11_VUI,
	"C12_Any":               C12_Any,
	"C12_Elements":          C12_Elements,
	"C12_Escaped":           C12_Escaped,
	"C12_EscapedMany":       C12_EscapedMany,
	"C12_EscapedSize":       C12_EscapedSize,
	"C12_SubLayers":         C12_SubLayers,
	"C12_Tiny":              C12_Tiny,
	"C12_Truncated":         C12_Truncated,
	"C12_Twice":             C12_Twice,
	"C13_Any":               C13_Any,
	"C13_Far":               C13_Far,
	"C13_Long":              C13_Long,
	"C13_OtherCodecs":       C13_OtherCodecs,
	"C13_Twice":             C13_Twice,
	"C13_Units":             C13_Units,
	"C14_Any":               C14_Any,
	"C14_Large":             C14_Large,
	"C14_Order":             C14_Order,
	"C14_Streams":           C14_Streams,
	"C14_Twice":             C14_Twice,
	"C14_Units":             C14_Units,
	"C15_Config":            C15_Config,
	"C15_Fields":            C15_Fields,
	"C15_Parse":             C15_Parse,
	"C15_Rates":             C15_Rates,
	"C15_Rejected":          C15_Rejected,
	"C15_RoundTrip":         C15_RoundTrip,
	"C15_Twice":             C15_Twice,
	"C16_AAC":               C16_AAC,
	"C16_AVCRecord":         C16_AVCRecord,
	"C16_AVCRecordChanged":  C16_AVCRecordChanged,
	"C16_Demuxer":           C16_Demuxer,
	"C16_DemuxerKey":        C16_DemuxerKey,
	"C16_Extract":           C16_Extract,
	"C16_ExtractChanged":    C16_ExtractChanged,
	"C16_HEVCRecord":        C16_HEVCRecord,
	"C16_HEVCRecordChanged": C16_HEVCRecordChanged,
	"C16_LengthPrefixed":    C16_LengthPrefixed,
	"C16_LongAudio":         C16_LongAudio,
	"C16_LongExtract":       C16_LongExtract,
	"C16_LongFeed":          C16_LongFeed,
	"C16_LongPrefixed":      C16_LongPrefixed,
	"C16_LongRecord":        C16_LongRecord,
	"C16_LongStream":        C16_LongStream,
	"C16_Packets":           C16_Packets,
	"C16_SPSAny":            C16_SPSAny,
	"C16_SPSChanged":        C16_SPSChanged,
	"C16_SPSHuge":           C16_SPSHuge,
	"C16_Stream":            C16_Stream,
	"C16_Unused":            C16_Unused,
	"C17_Large":             C17_Large,
	"C17_QueueHistory":      C17_QueueHistory,
	"C17_QueueLong":         C17_QueueLong,
	"C17_RingHistory":       C17_RingHistory,
	"C17_RingLong":          C17_RingLong,
	"C18_History":           C18_History,
	"C18_Large":             C18_Large,
	"C18_Long":              C18_Long,
	"C18_Lookups":           C18_Lookups,
	"C18_Pointers":          C18_Pointers,
	"C19_Blocks":            C19_Blocks,
	"C19_History":           C19_History,
	"C19_Large":             C19_Large,
	"C19_Powers":            C19_Powers,
	"C19_Split":             C19_Split,
	"C20_Blocks":            C20_Blocks,
	"C20_Empty":             C20_Empty,
	"C20_Growths":           C20_Growths,
	"C20_History":           C20_History,
	"C20_Large":             C20_Large,
	"C20_Powers":            C20_Powers,
	"C20_Rotation":          C20_Rotation,
	"C21_Drops":             C21_Drops,
	"C21_Handover":          C21_Handover,
	"C21_Many":              C21_Many,
	"C21_TakeDrop":          C21_TakeDrop,
	"C21_Zero":              C21_Zero,
	"C22_Disorder":          C22_Disorder,
	"C22_Gaps":              C22_Gaps,
	"C22_Long":              C22_Long,
	"C22_ManyTracks":        C22_ManyTracks,
	"C22_Nosy":              C22_Nosy,
	"C22_Probe":             C22_Probe,
	"C22_Stable":            C22_Stable,
	"C22_Tentative":         C22_Tentative,
	"C22_Tracks":            C22_Tracks,
	"C22_Two":               C22_Two,
	"C23_Config":            C23_Config,
	"C23_Disorder":          C23_Disorder,
	"C23_Empty":             C23_Empty,
	"C23_Free":              C23_Free,
	"C23_Kept":              C23_Kept,
	"C23_Long":              C23_Long,
	"C23_Streams":           C23_Streams,
	"C23_Transport":         C23_Transport,
	"C23_Wrap":              C23_Wrap,
	"C24_Convert":           C24_Convert,
	"C24_EmptyUnits":        C24_EmptyUnits,
	"C24_Growing":           C24_Growing,
	"C24_Large":             C24_Large,
	"C24_Others":            C24_Others,
	"C24_OwnSets":           C24_OwnSets,
	"C24_Powers":            C24_Powers,
	"C24_RoundTrip":         C24_RoundTrip,
	"C24_Sizes":             C24_Sizes,
	"C24_Unpacked":          C24_Unpacked,
	"C25_Concurrent":        C25_Concurrent,
	"C25_History":           C25_History,
	"C25_Recycle":           C25_Recycle,
	"C25_Two":               C25_Two,
	"C25_Unused":            C25_Unused,
	"C26_Exact":             C26_Exact,
	"C26_Multiples":         C26_Multiples,
	"C26_Order":             C26_Order,
	"C26_Own":               C26_Own,
	"C26_Packet":            C26_Packet,
	"C27_Alias":             C27_Alias,
	"C27_FromRecord":        C27_FromRecord,
	"C27_FromSets":          C27_FromSets,
	"C27_Invalid":           C27_Invalid,
	"C27_Large":             C27_Large,
	"C27_Literal":           C27_Literal,
	"C27_Symbolic":          C27_Symbolic,
	"C27_Two":               C27_Two,
	"C28_Audio":             C28_Audio,
	"C28_FromPackets":       C28_FromPackets,
	"C28_G726":              C28_G726,
	"C28_List":              C28_List,
	"C28_Many":              C28_Many,
	"C28_Markers":           C28_Markers,
	"C28_Muxer":             C28_Muxer,
	"C28_PCM":               C28_PCM,
	"C28_Video":             C28_Video,
	"C29_Every":             C29_Every,
	"C29_Extremes":          C29_Extremes,
	"C29_Inverted":          C29_Inverted,
	"C29_Long":              C29_Long,
	"C29_Range":             C29_Range,
	"C29_Small":             C29_Small,
	"C29_String":            C29_String,
	"C30_Growth":            C30_Growth,
	"C30_History":           C30_History,
	"C30_Large":             C30_Large,
	"C30_Powers":            C30_Powers,
	"C30_Seek":              C30_Seek,
	"C31_Demuxer":           C31_Demuxer,
	"C31_Many":              C31_Many,
	"C31_Packets":           C31_Packets,
	"C32_First":             C32_First,
	"C32_Held":              C32_Held,
	"C32_History":           C32_History,
	"C32_Large":             C32_Large,
	"C32_Many":              C32_Many,
	"C32_Powers":            C32_Powers,
}
