#![allow(clippy::all)]
use flcheck::*;
use flcore::alloc::Counting;
use flcore::runner::*;

#[global_allocator]
static A: Counting = Counting;

macro_rules! eng {
    ($n:expr, $q:expr, $t:expr, $f:path) => {
        Engine { name: $n, quick: $q, thorough: $t, run: $f }
    };
}
macro_rules! check {
    ($id:expr, $rule:expr, $asm:expr, $($e:expr),* $(,)?) => {
        Check { id: $id, rule: $rule, assumptions: $asm, threads: 0, engines: vec![$($e),*] }
    };
}
const REF: &str = "the reference parser, encoder and decoder of /verif/h/core, written from the documentation, say what the format is";
const REG: &str = "types are those of the registry in /verif/h/reg (about 500 concrete types, user structs and enums included)";
const OBS: &str = "memory use is what the global allocator sees of the calling thread";

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| &a[..]) == Some("memrun") {
        std::process::exit(t6::memrun(&args[1..]));
    }
    if args.first().map(|a| &a[..]) == Some("portrun") {
        std::process::exit(t10::portrun(&args[1..]));
    }
    let checks = vec![
        check!(
            "C01",
            "A case serialises one generated value of one registered type and decodes the bytes through every entry point the type supports (slice, stream, plain reader; copying and borrowing; unknown fields ignored or refused). Non-trivial: the encoding is more than a terminator.",
            &[REG],
            eng!("roundtrip", 300_000, 20_000_000, t1::c01),
            eng!("large_arrays", 19, 190, t9::c01_large),
        ),
        check!(
            "C02",
            "A case serialises one generated value through every entry point and wrapper and compares each output byte for byte with the reference encoder. Non-trivial: more than a terminator.",
            &[REF, REG],
            eng!("bytes", 600_000, 40_000_000, t1::c02),
            eng!("unsized", 100_000, 5_000_000, t9::c02_unsized),
        ),
        check!(
            "C03",
            "A case runs one random session of reading, skipping, seeking and opening blobs over one byte string (valid, damaged or garbage; 'short' enumerates every string of up to 2 bytes and a band of 3-byte strings; 'large' has up to 100,000 nested structs, elements or bytes of padding) on one kind of reader, comparing every reported element, value, position and depth with the reference parser. Non-trivial: at least 2 bytes.",
            &[REF],
            eng!("sessions", 300_000, 20_000_000, read::c03),
            eng!("short", 258, 258, read::c03_short),
            eng!("large", 300, 6_000, read::c03_large),
        ),
        check!(
            "C04",
            "A case decodes one byte string (valid, equivalently re-encoded, damaged, or garbage) as one registered type under one configuration through every entry point, and compares acceptance, value and end position with the reference decoder. Non-trivial: at least 2 bytes.",
            &[REF, REG],
            eng!("differential", 800_000, 40_000_000, t1::c04),
        ),
        check!(
            "C05",
            "A case takes a valid message, parses it into a tree, and reorders fields with different tags, repeats a field, drops one, or adds unknown ones at some level; the outcome is predicted by the reference decoder. Non-trivial: the message actually changed.",
            &[REF, REG],
            eng!("reorder", 60_000, 4_000_000, t2::c05_reorder),
            eng!("repeat", 60_000, 4_000_000, t2::c05_repeat),
            eng!("drop", 60_000, 4_000_000, t2::c05_drop),
            eng!("unknown", 60_000, 4_000_000, t2::c05_unknown),
        ),
        check!(
            "C06",
            "A case feeds one input (garbage, damaged, extreme lengths, deep or long nesting) to a random sequence of element-level calls or to typed decoding; monitors: panics, crashes, stack use at the default recursion limit on a 2 MiB stack, number of reader calls, CPU time of a case. Non-trivial: at least 2 bytes.",
            &["work is judged by reader calls and by CPU time of a case (40 s)", REG],
            eng!("elements", 150_000, 10_000_000, read::c06_elements),
            eng!("long", 60, 60, read::c06_long),
            eng!("typed", 80_000, 6_000_000, t5::c06_typed),
            eng!("deep", 3_000, 200_000, t5::c06_deep),
        ),
        check!(
            "C07",
            "A case takes one valid encoding and decodes every proper prefix of it (all of them up to some hundred bytes, a sample beyond) by every kind of reader, by type and by elements, including skips; each must be refused except at the cuts the reference declares complete. Non-trivial: at least 3 prefixes.",
            &[REF, REG],
            eng!("elements", 10_000, 1_000_000, read::c07_elements),
            eng!("cuts", 4_000, 600_000, t2::c07),
        ),
        check!(
            "C08",
            "A case computes from the schema what one message needs of each limit, then decodes at exactly that limit and one below it, repeatedly; the engine 'context' drives Context::push/collect/blob directly against a counter model; 'defaults' does so with the documented default limits. Non-trivial: some need is above zero.",
            &[REF, REG],
            eng!("limits", 60_000, 4_000_000, t2::c08),
            eng!("context", 60_000, 4_000_000, t2::c08_context),
            eng!("defaults", 6_000, 300_000, t2::c08_defaults),
        ),
        check!(
            "C09",
            "A case reads one input which declares lengths up to 2^64-1 by elements or by type, under an allocator which records peak and largest request of the thread; the bound is a fixed multiple of the bytes received plus a constant. Non-trivial: a declared length exceeds what is there.",
            &[OBS, REG],
            eng!("elements", 400_000, 20_000_000, more::c09_elements),
            eng!("typed", 400_000, 20_000_000, t5::c09_typed),
        ),
        check!(
            "C10",
            "A case serialises, reads by elements, or decodes into a type and counts the allocations of exactly that call; for owning types the total is bounded by what the value itself needs. Non-trivial: more than a terminator.",
            &[OBS, REG],
            eng!("elements", 150_000, 10_000_000, more::c10_elements),
            eng!("serialise", 200_000, 10_000_000, t2::c10_ser),
            eng!("deserialise", 150_000, 10_000_000, t2::c10_de),
        ),
        check!(
            "C11",
            "A case decodes one message in copying and borrowing mode and compares the address and length of every string and byte slice in the value with the place of its blob in the input; 'styles_agree' compares outcome, value and end position of both modes, on valid, damaged and garbage input. Non-trivial: at least 2 bytes.",
            &[REG],
            eng!("alias", 150_000, 10_000_000, t2::c11_alias),
            eng!("styles_agree", 250_000, 15_000_000, t2::c11_agree),
        ),
        check!(
            "C12",
            "A case concatenates values of several types and arbitrary trailing bytes and decodes them one by one on every kind of reader, comparing values, stream positions and the position of the underlying reader after each; 'journal' uses one stream to append messages, read them back, leave them half read, and move about, checking content and positions after each step. Non-trivial: at least two values.",
            &[REG],
            eng!("concat", 150_000, 10_000_000, t2::c12),
            eng!("readers", 60_000, 4_000_000, t9::c12_readers),
            eng!("journal", 150_000, 10_000_000, t13::journal),
        ),
        check!(
            "C13",
            "A case writes a value with one of a pair of schemas related by a documented change, reads it with the other, and compares with the mapping of the reference value. Non-trivial: the message holds the changed field or differs from the empty one.",
            &["the pairs of /verif/h/evo stand for the documented changes"],
            eng!("pairs", 300_000, 15_000_000, t4::c13),
        ),
        check!(
            "C14",
            "A case decodes a message as a type which knows only part of it (or as the generic container), edits a known field, writes it, and compares the result as a tree with the original, and decodes it with the full schema. Non-trivial: some field was unknown.",
            &[REF],
            eng!("edit", 150_000, 10_000_000, t4::c14_rmw),
            eng!("rewrite", 150_000, 10_000_000, t4::c14_trees),
        ),
        check!(
            "C15",
            "A case runs one session which skips fields and levels at random over one byte string with deep, odd or early-ending structure, comparing depth, position and the next element with the reference parser throughout. Non-trivial: at least 2 bytes.",
            &[REF],
            eng!("sessions", 150_000, 10_000_000, read::c15),
            eng!("deep", 400, 50_000, read::c15_deep),
        ),
        check!(
            "C16",
            "A case applies a random sequence of operations to one blob handle over one kind of reader and compares every result, position and remaining count with a model file, then reads on. 'short': the blob declares more than is there. 'cursors': the cursors blobs are sliced from, compared with std::io::Cursor and the definition of their unconsumed bytes after every operation. Non-trivial: the blob (or buffer) has content.",
            &["the model is a read-only file of the declared length"],
            eng!("sessions", 600_000, 40_000_000, blob::c16),
            eng!("short", 300_000, 20_000_000, blob::c16_short),
            eng!("cursors", 200_000, 10_000_000, cursor::cursors),
        ),
        check!(
            "C17",
            "A case performs a random sequence of writes with scripted writes and seeks inside blobs and compares every result and the final bytes with a model; 'incomplete' leaves some blob unfinished, 'overwrite' edits blobs in an existing stream; 'sparse' writes blobs of up to 2^60 bytes into a sparse file by seeking and reads them back, 'far' one of up to 2^64. Non-trivial: some blob is written.",
            &["the model is an array of bytes"],
            eng!("write", 600_000, 40_000_000, write::c17_write),
            eng!("incomplete", 400_000, 20_000_000, write::c17_incomplete),
            eng!("overwrite", 300_000, 20_000_000, write::c17_overwrite),
            eng!("sparse", 100_000, 6_000_000, wsparse::w_sparse),
            eng!("far", 300_000, 15_000_000, wsparse::w_far),
        ),
        check!(
            "C18",
            "A case inserts padding, exceptions or ends of document into a stream, or ends the input between or inside elements, with graceful EOF on or off, and compares what reading yields with the reference; 'align' checks the count and the effect of alignment padding. Non-trivial: something was inserted or cut.",
            &[REF],
            eng!("padding", 60_000, 4_000_000, more::c18_padding),
            eng!("exceptions", 60_000, 4_000_000, more::c18_exceptions),
            eng!("end", 60_000, 4_000_000, more::c18_end),
            eng!("growing", 60_000, 4_000_000, more::c18_growing),
            eng!("align", 20_000, 1_000_000, write::c18_align),
            eng!("typed", 60_000, 4_000_000, t7::c18_typed),
        ),
        check!(
            "C19",
            "A case decodes one message, by elements or by type, through readers which deliver it in other pieces, with interruptions and failing seeks, and compares with the slice; 'faults' fails the n-th read for every n. Non-trivial: the message has content.",
            &[REG],
            eng!("elements", 50_000, 3_000_000, more::c19_elements),
            eng!("deliveries", 30_000, 2_000_000, t3::c19_chunks),
            eng!("faults", 8_000, 600_000, t3::c19_faults),
        ),
        check!(
            "C20",
            "A case serialises one value, or a random sequence of elements, to writers which accept arbitrary pieces, interrupt, fail at the n-th call for every n, or fill up; what arrived is compared with the full encoding; 'flush' flushes within blobs. Non-trivial: more than a terminator.",
            &[REG],
            eng!("elements", 150_000, 8_000_000, more::c20_elements),
            eng!("faults", 80_000, 4_000_000, t3::c20),
            eng!("flush", 100_000, 5_000_000, more::c20_flush),
        ),
        check!(
            "C21",
            "Cases enumerate or sample wire values of every domain (all values around every type bound, all of the 8- and 16-bit range, all of the char range in blocks, generated UTF-8 and broken UTF-8, blob sizes around every fixed size, every wire type for every type) and compare acceptance and value with the definition of the domain. Non-trivial: each.",
            &[REF, REG],
            eng!("small_integers", 6_656, 6_656, t3::c21_small),
            eng!("chars", 1_200, 1_200, t3::c21_chars),
            eng!("wide_integers", 50_000, 4_000_000, t3::c21_wide),
            eng!("text", 12_000, 800_000, t3::c21_text),
            eng!("fixed", 50_000, 4_000_000, t3::c21_fixed),
            eng!("wire_types", 100_000, 8_000_000, t3::c21_wire),
        ),
        check!(
            "C22",
            "A case puts exactly one fault into a valid message (and only one, by the reference) and compares the kind, details, path and positions of the error, and its text, with the prediction. Non-trivial: a fault was placed.",
            &[REF, REG],
            eng!("faults", 300_000, 15_000_000, t3::c22),
        ),
        check!(
            "C23",
            "A case copies one stream element by element or field by field onto another (over all kinds of reader), and compares the bytes and the re-read elements; 'partial' reads part of a blob before copying it. Non-trivial: at least one element.",
            &[REF],
            eng!("copy", 600_000, 40_000_000, more::c23_copy),
            eng!("partial", 500_000, 30_000_000, more::c23_partial),
        ),
        check!(
            "C24",
            "A case performs a set of calls alone, then again interleaved with others which succeed and fail, repeated, and in several threads at once, and compares every result; 'reentrant' makes the calls from inside the reads, writes and seeks of another call, 'contexts' drives several decoding contexts in turns; 'tsan' runs such cases under ThreadSanitizer in a child process. Non-trivial: at least two calls.",
            &[REG],
            eng!("elements", 60_000, 4_000_000, more::c24_elements),
            eng!("interleavings", 12_000, 800_000, t3::c24),
            eng!("reentrant", 25_000, 1_500_000, t8::c24_reentrant),
            eng!("contexts", 100_000, 5_000_000, t8::c24_contexts),
            eng!("tsan", 24, 1_000, t6::tsan),
        ),
        check!(
            "C25",
            "A case of 'balance' runs one workload of the other checks three times and requires that nothing stays allocated and every produced string, char and bool is valid; 'hostile' presents lying readers and writers, shifting buffers and panicking user types and counts constructions against drops; 'values' runs the workloads at the edges of text and other domains under the monitor of produced values; a case of 'asan', 'msan' or 'miri' is a child process which runs a chunk of these workloads under that tool. Non-trivial: the workload allocates, or ran under a tool.",
            &["AddressSanitizer sees fourleaf and the harness but not the standard library's own code (MemorySanitizer's build includes it)", "Miri runs the smaller workloads only", OBS],
            eng!("hostile", 150_000, 10_000_000, hostile::hostile),
            eng!("balance", 30_000, 3_000_000, t6::balance),
            eng!("values", 40_000, 3_000_000, t6::values),
            eng!("asan", 16, 1_000, t6::asan),
            eng!("msan", 16, 1_000, t6::msan),
            eng!("miri", 32, 1_000, t6::miri),
        ),
        check!(
            "C26",
            "A case re-encodes one valid message with widened integers, padding elements, reordered fields or an end of document, at every level, and decodes it through every entry point; the value must be that of the original. Non-trivial: the bytes differ from the original.",
            &[REG],
            eng!("equivalent", 200_000, 10_000_000, t2::c26),
        ),
        check!(
            "C27",
            "A case is one writing call with one of the 256 tags (all of them, for every call and several prior states): valid tags must be read back with that tag and type, invalid ones must panic with nothing written. 'release' runs the same in a build without debug assertions. Non-trivial: each.",
            &[],
            eng!("writers", wirec::c27_count(), wirec::c27_count(), wirec::c27),
            eng!("release", 1, 1, wirec::c27_release),
        ),
        check!(
            "C28",
            "Cases encode and decode integers, densely around every power of two and at random, in shortest, fixed and zero-padded forms of every width, and compare bytes, values, consumption and errors with the definition. Non-trivial: above 127.",
            &[],
            eng!("dense", 1_088, 1_088, wirec::c28_dense),
            eng!("random", 60_000, 4_000_000, wirec::c28_random),
            eng!("forms", 300_000, 20_000_000, wirec::c28_forms),
            eng!("descriptors", 1, 1, wirec::c28_descriptors),
        ),
        check!(
            "C29",
            "A case of 'giant' reads a virtual stream of up to 2^64 bytes with blobs of any size through seeking, plain, and seek-refusing readers against the reference parser; 'pair' compares four such readers on one input step by step; 'write' and 'edge' write and read across the maximum position; 'announce' announces blobs and exceptions of any length from any position; 'sparse' writes blobs of up to 2^60 bytes by seeking, 'far' one of up to 2^64. Non-trivial: more than 4 KiB, or more than 3 bytes.",
            &[REF, "giant content is one repeated byte with real segments in it"],
            eng!("giant", 25_000, 2_000_000, giant::c29_giant),
            eng!("pair", 150_000, 8_000_000, giant::c29_pair),
            eng!("write", 200_000, 10_000_000, giant::c29_write),
            eng!("announce", 300_000, 20_000_000, giant::c29_announce),
            eng!("sparse", 100_000, 6_000_000, wsparse::w_sparse),
            eng!("far", 200_000, 15_000_000, wsparse::w_far),
            eng!("edge", 150_000, 8_000_000, giant::c29_edge),
        ),
        check!(
            "C30",
            "A case of 'words' or 'wide' reads and writes pointer-sized integers, or blobs which declare more than some machines can address; 'native' runs one workload of the other checks with its verdict; 'i686' and 's390x' are child processes in which Miri runs such workloads, verdicts included, as a 32-bit and as a 64-bit big-endian machine. Non-trivial: as in those workloads.",
            &[REF, REG, "other machines are represented by Miri's i686 and s390x"],
            eng!("words", 30_000, 1_000_000, t10::words),
            eng!("wide", 60_000, 3_000_000, t10::wide),
            eng!("native", 50_000, 3_000_000, t10::native),
            eng!("i686", 8, 120, t10::i686),
            eng!("s390x", 8, 120, t10::s390x),
        ),
        check!(
            "C31",
            "A case decodes a sequence of well-formed messages from one stream (slice, seekable and plain readers), most of them refused: damaged in one or two places, of another type, random, with exceptions, or over a limit. Each outcome is compared with decoding the message alone; after a refusal the stream must be between two elements with the depth of that place, and moving on (skip_up(0), or skip_up(1) and then by field or element, comparing the fields) must end exactly at the next message. Non-trivial: always.",
            &[REF, REG],
            eng!("refused", 250_000, 15_000_000, t11::c31),
        ),
        check!(
            "C32",
            "A case writes two values of one of some 200 types built from probes (user types which implement every hook, only the required ones, or slices) and the library's containers and macros, reads them through every entry point, and compares bytes, values and the recorded calls (hook, accumulator, field, positions of the context, depth, configuration) with a model; then one call fails, and the failure must be the outcome. Non-trivial: more than one call expected.",
            &["the order of finishing calls is not compared", "hash sets and maps have at most one entry"],
            eng!("hooks", 300_000, 30_000_000, t12::hooks),
        ),
    ];
    flcore::runner::main(checks)
}
