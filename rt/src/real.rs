//! Whole protocols that combine the constructors the way users do.
use crate::ast::*;
use crate::ast::Sc::*;

fn c(s: Sc, x: u128) -> Ex { lit(x, s) }
fn eq(a: Ex, b: Ex) -> Ex { bin(Bop::Eq, a, b) }
fn is(e: &str, v: &str) -> Ex { eq(nm("t"), Ex::Variant(e.into(), v.into())) }
fn flag(f: &str, m: &str) -> Ex { Ex::Member(Box::new(nm(f)), m.into()) }
fn len(x: &str, s: Sc) -> Ex { let e = call("len", vec![nm(x)]); if s == U64 { e } else { cast(e, s) } }
fn blen(x: &str, s: Sc) -> Ex { let e = call("blen", vec![nm(x)]); if s == U64 { e } else { cast(e, s) } }
fn en(sc: Sc, le: bool, items: &[(&str, Option<u128>)]) -> Ty { Ty::Enum(sc, le, items.iter().map(|(n, v)| (n.to_string(), match v { Some(x) => EVal::Ex(lit(*x, sc)), None => EVal::Next })).collect()) }
fn bf(sc: Sc, le: bool, items: &[(&str, Option<u128>)]) -> Ty { Ty::Bits(sc, le, items.iter().map(|(n, v)| (n.to_string(), v.map(|x| lit(x, sc)))).collect()) }
const F: &str = "real";

pub fn real() -> Vec<Spec> {
    let mut v = vec![];
    // the format of the repository's own example
    let nbt = || vec![
        decl("Tag", en(U8, false, &[("End", Some(0)), ("Byte", None), ("Short", None), ("Int", None), ("Long", None), ("Float", None), ("Double", None), ("ByteArray", None), ("String", None), ("List", None), ("Compound", None), ("IntArray", None), ("LongArray", None)])),
        decl("NBTString", cont(vec![fld("len", ti(U16)).is(len("value", U16)).i(), it("value", rfa("utf8", vec![nm("len")]))])),
        decl("IntArray", cont(vec![fld("len", ti(I32)).is(len("value", I32)).i(), it("value", arr(ti(I32), cast(nm("len"), U64)))])),
        decl("LongArray", cont(vec![fld("len", ti(I32)).is(len("value", I32)).i(), it("value", arr(ti(I64), cast(nm("len"), U64)))])),
        decl("Payload", tagged(vec![
            fld("Byte", ti(I8)).when(is("Tag", "Byte")).i(), fld("Short", ti(I16)).when(is("Tag", "Short")).i(), fld("Int", ti(I32)).when(is("Tag", "Int")).i(), fld("Long", ti(I64)).when(is("Tag", "Long")).i(),
            fld("Float", Ty::F32).when(is("Tag", "Float")).i(), fld("Double", Ty::F64).when(is("Tag", "Double")).i(), fld("String", rf("NBTString")).when(is("Tag", "String")).i(),
            fld("List", rf("List")).when(is("Tag", "List")).i(), fld("Compound", rf("Compound")).when(is("Tag", "Compound")).i(),
            fld("IntArray", rf("IntArray")).when(is("Tag", "IntArray")).i(), fld("LongArray", rf("LongArray")).when(is("Tag", "LongArray")).i(),
        ])).p("t", rf("Tag")),
        decl("CompoundItem", cont(vec![it("type_id", rf("Tag")), fld("name_len", ti(U16)).is(len("name", U16)).i(), it("name", rfa("utf8", vec![nm("name_len")])), it("payload", rfa("Payload", vec![nm("type_id")]))])),
        decl("Compound", cont(vec![it("items", term(rf("CompoundItem"), b"\0"))])),
        decl("List", cont(vec![it("type_id", rf("Tag")), fld("length", ti(I32)).is(len("items", I32)).i(), it("items", arr(rfa("Payload", vec![nm("type_id")]), cast(nm("length"), U64)))])),
    ];
    let chunks: &[&[u8]] = &[b"\x00", b"\x01\x00\x00\x7f", b"\x02\x00\x01a\x80\x01", b"\x08\x00\x02ab\x00\x01c", b"\x09\x00\x00\x01\x00\x00\x00\x02\x05\x06", b"\x0a\x00\x01q", b"\x0b\x00\x00\x00\x00\x00\x01\x00\x00\x00\x05", b"\x09\x00\x00\x0a\x00\x00\x00\x02", b"\x0c\x00\x00\xff\xff\xff\xff", b"\x06\x00\x01z\x40\x09\x21\xfb\x54\x44\x2d\x18"];
    let mut d = nbt();
    d.push(decl("T", cont(vec![it("root", rf("CompoundItem")), it("z", ti(U8))])));
    v.push(spec(F, d).alpha(chunks));
    let mut d = nbt();
    d.push(decl("T", rf("Compound")));
    v.push(spec(F, d).alpha(chunks));

    // a packet: magic, version, optional parts, a body of declared size, a check sum
    let flags = || decl("Flags", bf(U8, false, &[("has_id", Some(1)), ("has_name", None), ("sealed", None), ("wide", Some(0x80))]));
    let kind = || decl("Kind", en(U8, false, &[("Ping", Some(1)), ("Data", None), ("Close", Some(9))]));
    let msg = || decl("Msg", tagged(vec![
        fld("Ping", ti(U16)).when(is("Kind", "Ping")).i(),
        fld("Data", cont(vec![fld("n", ti(U8)).is(len("d", U8)).i(), it("d", arr(ti(U16), nm("n"))), fld("x", ti(U8)).when(nm("wide")).i()])).when(is("Kind", "Data")).i(),
        fld("Close", rf("utf8")).when(is("Kind", "Close")).i(),
    ])).p("t", rf("Kind")).p("wide", Ty::Bool);
    let packet = |sealed: bool| {
        let body = fld("body", contl(nm("size"), vec![it("kind", rf("Kind")), it("seq", rf("v32")), it("msg", rfa("Msg", vec![nm("kind"), flag("flags", "wide")]))]));
        let body = if sealed { body.via("xor", vec![nm("version")], Some(flag("flags", "sealed"))).via("add", vec![], None) } else { body };
        spec(F, vec![flags(), kind(), msg(), decl("T", cont(vec![
            fld("magic", arr(ti(U8), lit(2, U64))).is(Ex::Str(b"PK".to_vec())).i(), it("version", ti(U8)), it("flags", rf("Flags")),
            fld("id", tl(U32)).when(flag("flags", "has_id")).i(),
            fld("named", cont(vec![fld("name_len", ti(U8)).is(len("name", U8)).i(), it("name", rfa("utf8", vec![nm("name_len")]))])).when(flag("flags", "has_name")).i(),
            fld("size", ti(U16)).is(blen("body", U16)).i(), body.i(),
            it("crc", ti(U8)),
        ]))])
    };
    v.push(packet(false).alpha(&[b"PK\x01", b"\x00", b"\x01", b"\x02", b"\x83\x00\x00\x00\x07\x02hi", b"\x00\x04\x01\x05\xab\xcd", b"\x00\x05\x02\x80\x02\x01\x00\x09", b"\x00\x06\x02\x07\x01\x00\x09\xee", b"\x00\x05\x09\x01bye", b"\xff"]));
    v.push(packet(true).alpha(&[b"PK\x01", b"\x00", b"\x01", b"\x02", b"\x04", b"\x00\x05\x03\x05\x04\x07\x0b", b"\x00\x05\x02\x02\x01\x00\x09", b"\x81\x01\x00\x00\x00", b"\xff"]));

    // type, length, value records in a container of known length, with an escape for unknown types
    let ty = || decl("Type", Ty::Enum(U8, false, vec![("Num".into(), EVal::Ex(lit(1, U8))), ("Text".into(), EVal::Next), ("Nest".into(), EVal::Next), ("Other".into(), EVal::Default)]));
    let tlv = || vec![ty(),
        decl("Value", tagged(vec![fld("Num", ti(U16)).when(is("Type", "Num")).i(), fld("Text", rf("utf8")).when(is("Type", "Text")).i(), fld("Nest", cont(vec![it("kids", rest(rf("Tlv")))])).when(is("Type", "Nest")).i(), fld("Raw", rest(ti(U8))).i()])).p("t", rf("Type")),
        decl("Tlv", cont(vec![it("tag", rf("Type")), fld("size", ti(U8)).is(blen("value", U8)).i(), fld("value", contl(nm("size"), vec![it("v", rfa("Value", vec![nm("tag")]))])).i()]))];
    let tch: &[&[u8]] = &[b"\x00\x00", b"\x00\x03", b"\x00\x05", b"\x00\x08", b"\x01\x02\x12\x34", b"\x01\x01\x12", b"\x02\x01a", b"\x02\x00", b"\x03\x03\x02\x01b", b"\x03\x00", b"\x09\x01\xff", b"\x03\x04", b"\x2a"];
    let mut d = tlv();
    d.push(decl("T", cont(vec![fld("total", ti(U16)).is(blen("all", U16)).i(), fld("all", contl(nm("total"), vec![it("tlvs", rest(rf("Tlv")))])).i(), it("z", ti(U8))])));
    v.push(spec(F, d).alpha(tch));
    let mut d = tlv();
    d.push(decl("T", cont(vec![it("tlvs", rest(rf("Tlv")))])));
    v.push(spec(F, d).alpha(tch).open());

    // counted sections of records with names of terminated labels
    v.push(spec(F, vec![
        decl("Bits", bf(U16, false, &[("reply", Some(0x8000)), ("trunc", Some(0x200)), ("want", Some(0x100)), ("rcode", Some(0xf))])),
        decl("Label", cont(vec![fld("n", ti(U8)).is(len("s", U8)).i(), it("s", rfa("utf8", vec![nm("n")]))])),
        decl("QType", en(U16, false, &[("Addr", Some(1)), ("Name", Some(5)), ("Text", Some(16))])),
        decl("Question", cont(vec![it("labels", term(rf("Label"), b"\0")), it("qtype", rf("QType")), it("qclass", ti(U16))])),
        decl("RData", tagged(vec![fld("Addr", arr(ti(U8), lit(4, U64))).when(is("QType", "Addr")).i(), fld("Name", term(rf("Label"), b"\0")).when(is("QType", "Name")).i(), fld("Text", rest(rf("Label"))).i()])).p("t", rf("QType")),
        decl("Record", cont(vec![it("labels", term(rf("Label"), b"\0")), it("qtype", rf("QType")), it("ttl", ti(U32)), fld("rdlen", ti(U16)).is(blen("rdata", U16)).i(), fld("rdata", contl(nm("rdlen"), vec![it("r", rfa("RData", vec![nm("qtype")]))])).i()])),
        decl("T", cont(vec![it("id", ti(U16)), it("bits", rf("Bits")), fld("qd", ti(U16)).is(len("qs", U16)).i(), fld("an", ti(U16)).is(len("rs", U16)).i(), it("qs", arr(rf("Question"), nm("qd"))), it("rs", arr(rf("Record"), nm("an")))])),
    ]).alpha(&[b"\x12\x34\x01\x00\x00\x01\x00\x00", b"\x12\x34\x83\x05\x00\x01\x00\x01", b"\x00\x00\x80\x00\x00\x00\x00\x02", b"\x00\x00\x00\x00\x00\x00\x00\x00", b"\x01a\x02bc\x00\x00\x01\x00\x01", b"\x00\x00\x05\x00\x01", b"\x03www\x00\x00\x01\x00\x00\x00\x3c\x00\x04\x7f\x00\x00\x01", b"\x00\x00\x05\x00\x00\x00\x00\x00\x04\x02xy\x00", b"\x00\x00\x10\x00\x00\x00\x01\x00\x05\x01t\x02uv", b"\x00\x00\x10\x00\x00\x00\x01\x00\x00", b"\x00"]));

    // trees
    v.push(spec(F, vec![
        decl("Op", en(U8, false, &[("Lit", Some(0)), ("Neg", None), ("Sum", None), ("Var", None)])),
        decl("Node", tagged(vec![fld("Lit", rf("v32")).when(is("Op", "Lit")).i(), fld("Neg", arr(rf("Expr"), lit(1, U64))).when(is("Op", "Neg")).i(), fld("Sum", cont(vec![fld("n", ti(U8)).is(len("kids", U8)).i(), it("kids", arr(rf("Expr"), nm("n")))])).when(is("Op", "Sum")).i(), fld("Var", rfa("utf8", vec![lit(2, U64)])).when(is("Op", "Var")).i()])).p("t", rf("Op")),
        decl("Expr", cont(vec![it("op", rf("Op")), it("node", rfa("Node", vec![nm("op")]))])),
        decl("T", cont(vec![it("e", rf("Expr")), it("z", ti(U8))])),
    ]).alpha(&[b"\x00\x05", b"\x00\x80\x01", b"\x01", b"\x02\x00", b"\x02\x01", b"\x02\x02", b"\x03xy", b"\xff", b"\x02\x03"]));

    // chunks to the end of the file
    v.push(spec(F, vec![
        decl("Chunk", cont(vec![fld("length", ti(U32)).is(blen("data", U32)).i(), it("kind", arr(ti(U8), lit(2, U64))), fld("data", contl(nm("length"), vec![it("d", rest(ti(U8)))])).i(), it("crc", ti(U16)), ])),
        decl("T", cont(vec![fld("sig", arr(ti(U8), lit(3, U64))).is(Ex::Str(b"\x89PN".to_vec())).i(), it("chunks", rest(rf("Chunk")))])),
    ]).alpha(&[b"\x89PN", b"\x00\x00\x00\x00hd\x00\x01", b"\x00\x00\x00\x03da\x01\x02\x03\xab\xcd", b"\x00\x00\x00\x01en\x00", b"\x7f\xff\xff\xffxx", b"\x00"]).open());

    // aligned blocks
    v.push(spec(F, vec![
        decl("Block", cont(vec![fld("size", ti(U16)).is(len("d", U16)).i(), it("d", arr(ti(U8), nm("size"))), Item::Pad(call("pad", vec![lit(4, U64), cast(nm("size"), U64)])), it("next", Ty::Bool)])),
        decl("T", cont(vec![it("n", tl(U16)), it("bs", arr(rf("Block"), nm("n"))), Item::Pad(lit(2, U64)), it("z", ti(U8))])),
    ]).alpha(&[b"\x00\x00", b"\x01\x00", b"\x02\x00", b"\x00\x03abc\x00\x01", b"\x00\x04abcd\x00", b"\x00\x05abcde\x00\x00\x00\x01", b"\x00\x00\x01", b"\xee\xff", b"\x07"]));

    // an envelope whose header decides about the payload: version, quality of service, compression, key
    v.push(spec(F, vec![
        decl("Head", bf(U8, false, &[("retain", Some(1)), ("qos", Some(6)), ("dup", Some(8)), ("sealed", Some(0x10))])),
        decl("Props", cont(vec![fld("n", ti(U8)).is(len("ps", U8)).i(), it("ps", arr(rf("Prop"), nm("n")))])),
        decl("Prop", cont(vec![it("id", ti(U8)), fld("num", ti(U16)).when(bin(Bop::Lt, nm("id"), c(U8, 0x10))).i(), fld("text", rf("Str")).when(bin(Bop::Ge, nm("id"), c(U8, 0x10))).i()])),
        decl("Str", cont(vec![fld("l", ti(U16)).is(len("s", U16)).i(), it("s", rfa("utf8", vec![nm("l")]))])),
        decl("T", cont(vec![
            it("head", rf("Head")), it("version", ti(U8)), it("seq", rf("v32")), fld("remaining", ti(U8)).is(blen("rest", U8)).i(),
            fld("rest", contl(nm("remaining"), vec![
                it("topic", rf("Str")), fld("packet", ti(U16)).when(flag("head", "qos")).i(),
                fld("props", rf("Props")).when(bin(Bop::Ge, nm("version"), c(U8, 5))).i(),
                fld("payload", rest(ti(U8))).via("xor", vec![nm("version")], Some(flag("head", "sealed"))).i(),
            ])).i(),
            it("z", ti(U8)),
        ])),
    ]).alpha(&[b"\x00\x04\x01", b"\x12\x04\x80\x02", b"\x06\x05\x00", b"\x11\x05\x01", b"\x02\x00\x00", b"\x05\x00\x01t\x01\x02", b"\x04\x00\x01t\x00", b"\x08\x00\x01t\x00\x07\x01\x02\x00", b"\x09\x00\x00\x00\x09\x01\x20\x00\x01v", b"\x0b\x00\x00\x02\x0f\x01\x00\x10\x00\x00pp", b"\x7f", b"\x00"]));

    // versions, with constants and defaulted arguments through two levels
    v.push(spec(F, vec![
        decl("Point", cont(vec![it("x", ti(I16)), it("y", ti(I16)), fld("zz", ti(I16)).when(nm("deep")).i()])).po("deep", Ty::Bool, Ex::Bool(false)),
        decl("Shape", cont(vec![it("n", ti(U8)), it("pts", arr(rfa("Point", vec![bin(Bop::Ge, nm("v"), nm("DEEP"))]), nm("n"))), it("origin", rf("Point"))])).p("v", ti(U8)).po("scale", ti(U8), c(U8, 1)),
        decl("T", cont(vec![it("version", ti(U8)), fld("a", rfa("Shape", vec![nm("version")])).i(), fld("b", rfa("Shape", vec![nm("version"), c(U8, 2)])).when(bin(Bop::And, bin(Bop::Ge, nm("version"), nm("MIN")), bin(Bop::Lt, nm("version"), bin(Bop::Add, nm("MIN"), c(U8, 5))))).i(), it("z", ti(U8))])),
    ]).consts(vec![("DEEP", ti(U8), lit(3, U8)), ("MIN", ti(U8), bin(Bop::Sub, nm("DEEP"), lit(1, U8)))]).alpha(&[b"\x01", b"\x02", b"\x03", b"\x06", b"\x07", b"\x00\x00\x01\x00\x02", b"\x01\x00\x03\x00\x04\x00\x05", b"\x80\x00\x7f\xff", b"\x00\x09"]));

    // a matrix of field-given size, in rows and columns
    v.push(spec(F, vec![decl("T", cont(vec![it("rows", ti(U8)), it("cols", tl(U16)), it("m", arr(arr(tl(U16), nm("cols")), nm("rows"))), it("names", arr(rf("utf8"), lit(1, U64)))]))]).open());
    // strings of several encodings and conditional groups of them
    v.push(spec(F, vec![
        decl("Enc", en(U16, true, &[("Narrow", Some(1)), ("Wide", Some(0x100))])),
        decl("Text", tagged(vec![fld("Narrow", cont(vec![fld("n", ti(U8)).is(len("s", U8)).i(), it("s", rfa("utf8", vec![nm("n")]))])).when(is("Enc", "Narrow")).i(), fld("Wide", cont(vec![it("n", ti(U8)), it("s", rfa("utf16", vec![nm("n")]))])).when(is("Enc", "Wide")).i()])).p("t", rf("Enc")),
        decl("T", cont(vec![it("enc", rf("Enc")), it("title", rfa("Text", vec![nm("enc")])), it("more", Ty::Bool), fld("extra", cont(vec![it("sub", rfa("Text", vec![nm("enc")])), it("id", rf("v64")), it("ratio", Ty::F32)])).when(nm("more")).i(), it("z", ti(U8))])),
    ]).alpha(&[b"\x01\x00", b"\x00\x01", b"\x00", b"\x01", b"\x02ab", b"\x02\x00a", b"\x04\xd8\x34\xdd\x06", b"\x02\xc3\xa9", b"\x2a\x3f\x80\x00\x00", b"\x80\x01\x00\x00\x00\x80"]));
    // a session: a hello, then frames, each transformed with the key the hello gave
    v.push(spec(F, vec![
        decl("Cmd", en(U8, false, &[("Get", Some(1)), ("Put", Some(2)), ("Bye", Some(0xff))])),
        decl("Args", tagged(vec![fld("Get", cont(vec![it("key", ti(U16))])).when(is("Cmd", "Get")).i(), fld("Put", cont(vec![it("key", ti(U16)), fld("n", ti(U8)).is(len("val", U8)).i(), it("val", arr(ti(U8), nm("n")))])).when(is("Cmd", "Put")).i(), fld("Bye", Ty::Bool).i()])).p("t", rf("Cmd")),
        decl("Frame", cont(vec![it("cmd", rf("Cmd")), fld("args", rfa("Args", vec![nm("cmd")])).via("xor", vec![nm("key")], None).i()])).p("key", ti(U8)),
        decl("T", cont(vec![it("key", ti(U8)), it("count", ti(U8)), it("frames", arr(rfa("Frame", vec![nm("key")]), nm("count"))), it("z", ti(U8))])),
    ]).alpha(&[b"\x00\x00", b"\x00\x01", b"\x07\x02", b"\x01\x00\x05", b"\x02\x00\x01\x03\x09", b"\x02\x07\x0f\x08\x0a", b"\x01\x07\x08", b"\xff\x01", b"\xff\x06", b"\x00"]));
    v
}
