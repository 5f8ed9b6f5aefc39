//! One monitor per property.
use crate::ctx::*;
pub mod cost;
pub mod diag;
pub mod long;
pub mod msg;
pub mod ops;
pub mod pure;
pub mod side;
pub mod sizes;
pub mod soak;
pub mod text;
pub mod total;
pub mod truth;
pub mod wirep;
pub mod xplat;

pub const STEPS: u64 = 2_000_000_000;
mod long0 {
    pub fn c20_enums(_: bool) -> u64 {
        super::long::c20_enums()
    }
    pub fn c18_enums(_: bool) -> u64 {
        super::long::c18_enums()
    }
    pub fn c26_enums(_: bool) -> u64 {
        super::long::c26_enums()
    }
}
macro_rules! p {
    ($id:literal, $case:path, $enums:path, $ec:path, $rule:literal) => {
        Prop { id: $id, rule: $rule, case: $case, enums: $enums, enum_case: $ec, steps: STEPS }
    };
    ($id:literal, $case:path, $rule:literal) => {
        Prop { id: $id, rule: $rule, case: $case, enums: no_enum, enum_case: no_case, steps: STEPS }
    };
}
static ALL: &[Prop] = &[
    p!("C01", wirep::c01, wirep::c01_enums, wirep::c01_enum, "A case is a message built through the public API from a choice tape (coverage-guided), encoded and decoded again and compared field by field with the model it was built from; distinct by the encoded bytes."),
    p!("C02", wirep::c02, wirep::c01_enums, wirep::c02_enum, "A case is a byte string written by the reference encoder (permuted header fields, foreign descriptor tables, trailing bytes, damaged bytes); non-trivial when it decodes; distinct by the bytes."),
    p!("C03", wirep::c03, wirep::c01_enums, wirep::c03_enum, "A case is an encoded message read by the independent reference decoder and compared byte for byte with the reference encoding; distinct by the bytes."),
    p!("C04", wirep::c04, wirep::c04_enums, wirep::c04_enum, "A case is a valid, mutated or hostile byte string decoded by the library and by the independent reference decoder (the enumerated cases substitute every byte value at one position of fixed messages); distinct by the bytes."),
    p!("C05", wirep::c05, wirep::c05_enums, wirep::c05_enum, "A case is a stream of 1 to 4 messages with garbage before and after, decoded in place, with different tails and in random chunkings; distinct by stream and cuts."),
    p!("C06", wirep::c06, wirep::c06_enums, wirep::c06_enum, "A case is a valid message cut at every position (long ones: at the first 300, last 100 and 100 random ones); distinct by message bytes."),
    p!("C07", total::c07, total::c07_enums, total::c07_enum, "A case is a batch of operations on hostile inputs run on a 2 MiB stack with overflow checks, panic and executed-edge monitors, or a pair of inputs of size n and 4n whose work is compared; distinct by inputs."),
    p!("C08", total::c08, total::c08_enums, total::c08_enum, "A case is a (mostly hostile) byte string decoded three times under the allocation monitor; distinct by the bytes."),
    p!("C09", text::c09, text::c09_enums, text::c09_enum, "A case is a text tried as all seven kinds of names from three source types against the reference grammar (the enumerated cases cover all short texts over a nine-character alphabet and all lengths around the limit); distinct by text."),
    p!("C10", text::c10, text::c10_enums, text::c10_enum, "A case is a history of operations on an object path against a list-of-elements model; distinct by history."),
    p!("C11", text::c11, text::c11_enums, text::c11_enum, "A case is a text parsed as signature and type against the reference grammar, or a type tree printed (the enumerated cases cover all short texts over a seven-character alphabet); distinct by text."),
    p!("C12", msg::c12, msg::c12_enums, msg::c12_enum, "A case is a value tree or an element list whose types are computed by the reference; distinct by value."),
    p!("C13", wirep::c13, wirep::c13_enums, wirep::c13_enum, "A case is a message tree near or beyond the encoder's limits; the verdict is compared with the reference (the enumerated cases are arrays and messages at and around 64 and 128 MiB); distinct by message."),
    p!("C14", text::c14, text::c14_enums, text::c14_enum, "A case is a list of match rules printed and parsed again; distinct by printed text."),
    p!("C15", text::c15, text::c15_enums, text::c15_enum, "A case is a text parsed as match rules by the library and by the reference parser (the enumerated cases cover all short texts after arg0=); distinct by text."),
    p!("C16", text::c16, text::c16_enums, text::c16_enum, "A case is a message and rules about it, its ancestors, siblings and near misses, matched by library and reference; distinct by message and rules."),
    p!("C17", wirep::c17, wirep::c17_enums, wirep::c17_enum, "A case is a message with descriptors at random depths, encoded, and decoded with arbitrary descriptor tables and indices; distinct by bytes and table."),
    p!("C18", msg::c18, msg::c18_enums, msg::c18_enum, "A case is a message and all replies made from it, compared with the specified reply; distinct by message."),
    p!("C19", msg::c19, msg::c19_enums, msg::c19_enum, "A case is a list of header field values with at most one or several faults converted to header fields (the enumerated cases are all 4 x 512 type and field subsets for header construction); distinct by list."),
    p!("C20", msg::c20, long0::c20_enums, long::c20, "A case is a history of operations on a pool of messages with all accessors compared with a shadow model after every step; distinct by history."),
    p!("C21", pure::c21, soak::c21_enums, soak::c21_enum, "A case is a batch of operations executed in two orders, on four threads at once with shared objects, and again later in the process, or (enumerated) four fixed operations of which each is repeated 70 000 times in one process (thorough: 1 100 000), after which all fixed operations and 60 generated ones are compared with their first results; distinct by batch or operation."),
    p!("C22", total::c22, "A case is a batch of operations on hostile inputs with every resulting text checked for UTF-8 and live heap compared before and after, also run under AddressSanitizer and Miri; distinct by inputs."),
    p!("C23", diag::c23, diag::c23_enums, diag::c23_enum, "A case is a valid message with exactly one injected fault and the error that must be reported; distinct by bytes."),
    p!("C24", wirep::c24, wirep::c01_enums, wirep::c24_enum, "A case is a message encoded in both byte orders; distinct by message."),
    p!("C25", msg::c25, long0::c18_enums, long::c25, "A case is a convenience-constructed message compared with the specified one; distinct by arguments."),
    p!("C26", msg::c26, long0::c26_enums, long::c26, "A case is a triple of items of one kind, mostly equal or differing in one place, compared in all ways; distinct by triple."),
    p!("C27", truth::c27, truth::c27_enums, truth::c27_enum, "A case is a name, signature, list of match rules, message, list of header field values or byte string, mostly faulty in one or several ways, whose refusal is compared with the defects it has (the enumerated cases are all short texts over small alphabets, pairs of rules, nestings and lengths around the limits); distinct by input."),
    p!("C28", cost::c28, cost::c28_enums, cost::c28_enum, "A case is one message (an array of random elements, or one of the enumerated families) or one other item at two sizes, n and 4n, on which every operation but decoding is measured (executed edges, bytes allocated, bytes held) and compared, or a large item whose operations must end within a CPU budget; distinct by item."),
    p!("C29", xplat::c29, xplat::c29_enums, xplat::c29_enum, "A case is an operation on arbitrary input whose results are compared between this build, an unoptimised one with all checks and an optimised one without checks (the enumerated cases replace every four bytes of fixed messages by numbers at the limits of a word, and take messages of enumerated sizes); recorded operations are compared with interpreted 32-bit, big-endian and non-Unix builds; distinct by operation."),
    p!("C30", side::c30, side::c30_enums, side::c30_enum, "A case is an operation on arbitrary input (or an enumerated one, as for C29) on a thread where the kernel refuses and reports every system call but those for memory and waiting, and where reading the environment or the clock is noticed; distinct by operation."),
];
pub fn all() -> &'static [Prop] {
    ALL
}
pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id)
}
/// The value, or the end of the case when the library refuses to construct a valid part (that is
/// another property's concern).
#[macro_export]
macro_rules! build {
    ($c:expr, $e:expr) => {
        match $e {
            Ok(x) => x,
            Err(e) => {
                $c.n("skipped: not constructible", 1);
                let _: String = e;
                return Ok(());
            }
        }
    };
}
