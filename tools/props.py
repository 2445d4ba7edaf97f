"""Per-property check configuration: harness crates, encoded functions, bounds, assumptions."""
KANI = "Kani 0.68 / CBMC 6.11 / CaDiCaL are trusted; Rust overflow and bounds panics are checked as assertions"
HASH = "allocation never fails (Kani's model)"
PROPS = {}

def prop(pid, crates, functions, bounds, outside="", assumptions=(), **kw):
    PROPS[pid] = dict(crates=crates, functions=functions, bounds=bounds, outside=outside, level="other",
                      assumptions=[KANI] + list(assumptions), **kw)

prop("C01", ["core"], ["header::VarHeader::{write_to_slice, take_from_slice}", "header::VarKey::write", "header::VarSeq::write"],
     "every header (4 key widths x 3 sequence widths, every value), output slices of every length 0..=16, trailing bytes arbitrary")
prop("C02", ["core"], ["header::VarHeader::take_from_slice"],
     "every byte string of every length 0..=16 (the header takes at most 13)",
     "longer inputs: bytes past the header are only ever returned as the remainder slice")
prop("C03", ["core"], ["Key1/Key2/Key4::from_key8, from_key4, from_key2", "header::VarKey::{shrink_to, kind, PartialEq}", "VarKeyKind ordering"],
     "every 8-byte key and every key of every width; loop-free, so complete")
prop("C04", ["core"], ["header::VarSeq::resize, PartialEq, From", "VarSeqKind"],
     "every 32-bit sequence number and every width; loop-free, so complete")
prop("C05", ["core"], ["server::min_key_needed", "define_dispatch! generated new()/min_key_len()"],
     "every list of up to 4 (thorough 5) 8-byte keys in every position, split over up to three lists",
     "more than 5 keys: the computation is a pairwise loop over the concatenated list")
prop("C06", ["core"], ["accumulator::raw::CobsAccumulator::{new, feed, feed_ref}"],
     "induction step: any pending frame prefix of 0/3/5/6 bytes in a 6-byte buffer (thorough: buffers 1..12), any chunk of up to 8 (12) bytes",
     "larger buffers and chunks",
     ["crate cobs 0.2.3 replaced by models/cobs (same results; harness c06_cobs_model_matches compares it with the crate's algorithm on every 4-byte buffer)"])

prop("C07", ["core"], ["define_dispatch! generated Dispatch::handle (all arms)", "server::Sender::{reply, reply_keyed, error}", "Key/Key1/Key2/Key4 TryFrom<&VarKey>"],
     "dispatchers of each key length (1,2,4,8) and handler flavour (blocking, async, spawn), one endpoint + one topic + ping each; every key of every width, "
     "every sequence number, every payload of 0..=4 bytes, every send outcome, spawn success or refusal",
     "longer payloads (payload decoding is postcard's); dispatchers with more arms",
     ["handlers and transport never suspend (no await inside them yields)", "messages are observed as serde values, not as bytes"],
     cut=["^_RNCNv.*16send_all_schemas0"])

prop("C08", ["core"], ["server::Server::{run, next_event paths, run_dispatch}", "header::VarHeader::take_from_slice", "server error classification (as_wire_error / WireRxErrorKind, WireTxErrorKind)"],
     "every sequence of 2 (thorough 3) receive events: frames of 0..=6 arbitrary bytes or any receive error, each dispatch returning any send outcome",
     "longer event sequences (the loop carries no state besides the receive buffer)",
     ["transport and dispatcher futures never suspend"])
prop("C09", ["core"], ["server::Sender::{send_all_schemas, publish, reply}"],
     "maps of up to 2 types/endpoints/topics per direction in 6 shapes, every outcome of every send, every key length and sequence number",
     "larger maps (one loop per category)", ["messages are observed as serde values, not as bytes"])
prop("C14", ["core"], ["uniques::{unique_types_nty_upper, type_chewer_nty, type_chewer_dmt, merge_nty_lists, cruncher, total_len, combine_with_copy, nty_eq, dmt_eq, dmv_eq, str_eq, is_prim}"],
     "every kind of composite (option, newtype, seq, tuple, tuple struct, map, struct, enum with each variant kind) two levels deep over children that may coincide, "
     "names symbolic; equality of two types differing in any one part; every primitive; merges of 4 types over 4 lists",
     "deeper trees (the recursion is uniform), more than two children, names longer than 3 bytes",
     ["DataModelType values are laid out by hand with the compiler's layout, checked against the enum by harness c14_layout"])
prop("C20", ["core"], ["server::Sender::{reply, reply_keyed, publish, error, log_str, log_fmt}"],
     "every key, key length, sequence number and value, every transport outcome; loop-free, so complete",
     assumptions=["messages are observed as serde values, not as bytes"])

USBDEV = ["crate embassy-usb replaced by models/embassy-usb-0.3, -0.4 (hands out the driver's endpoints; descriptors not built)",
          "crate embassy-time replaced by models/embassy-time (the harness decides when a timer fires)",
          "the driver's bulk endpoints are scripted: packets are seen by the host in order, a transfer ends with a packet shorter than 64 bytes, a write dropped while pending delivers nothing"]
prop("C15", ["embassy"], ["server::impls::embassy_usb_v0_3 and embassy_usb_v0_4: EUsbWireTx::{send, send_raw, set_timeout_ms_per_frame}, send_all, WireStorage::init_without_build",
                          "embassy_sync::mutex::Mutex, embassy_futures::select (the real crates)"],
     "both versions; raw frames of every length 1..=130 (thorough 322) and content, any one write late; up to two sends of 1..=66 bytes (thorough 130) cut off at any write by refusal, "
     "timeout or cancellation, then one that works; two tasks sending at once; messages of every length 0..=80 with transmit buffers of every length 0..=80",
     "longer frames (the packet loop is uniform), more than two consecutive failures (the only state is one flag)", USBDEV)
prop("C16", ["embassy"], ["server::impls::embassy_usb_v0_3 and embassy_usb_v0_4: EUsbWireRx::receive"],
     "both versions; receive buffers of 64 and 128 bytes (thorough 192), every sequence of 4 (thorough 6) packets of length 0..=64 or endpoint closure, every content, two (thorough three) consecutive receives",
     "receive buffers that are not a multiple of the packet size (the drivers reject a full packet into a smaller window), longer transfers", USBDEV)
prop("C17", ["embassy"], ["server::impls::embassy_usb_v0_3 and embassy_usb_v0_4: EUsbWireTx::{send_log_str, send_log_fmt}, SliceWriter::write_str, actual_varint_max_len, varint_usize, send_all",
                          "core::fmt::write, postcard::to_slice (the real code)"],
     "both versions; every transmit buffer length 0..=24 with every message length 0..=24, in one or two pieces, every key length; buffers and messages of 116..=144 bytes (thorough 0..=280) around "
     "the one/two-byte length boundary; every text of 3 characters (1-4 bytes each) cut at every place by buffers of 0..=13 bytes; pairs of consecutive messages",
     "messages of 16 KiB and more (three-byte lengths), wrap of the 16-bit log counter", USBDEV)
