P="core/src/parser.rs"; M="core/src/model.rs"; B="core/src/message_buf.rs"
SEEDS=[
dict(id="c37-trim-first-nul", prop="C37", edits=[(M,"""        let mut end = self.len();
        while end > 0 && self[end - 1].0 == 0 {
            end -= 1;
        }
        &self[..end]""","""        let mut end = self.len();
        while end > 1 && self[end - 1].0 == 0 {
            end -= 1;
        }
        &self[..end]""")],
 needs="a character array that holds nothing but NULs", breaks="an empty text keeps one NUL after trimming",
 demo="""
use yule_log::model::CCharSlice;
fn main() {
    let c = |b: &[u8]| -> Vec<CChar> { b.iter().map(|&x| CChar::from(x)).collect() };
    let v = c(b"ab\\0\\0");
    assert_eq!(v.trim_end_nul().len(), 2);
    let v = c(b"\\0\\0\\0");
    assert_eq!(v.trim_end_nul().len(), 0);
}
"""),
dict(id="c37-text-trims-space", prop="C37", edits=[(M,"self.to_string_lossy().trim_end_matches(char::from(0)).to_string()","self.to_string_lossy().trim_end_matches(|c: char| c == char::from(0) || c.is_ascii_whitespace()).to_string()")],
 needs="a character array whose text ends in white space before the NULs", breaks="white space at the end of a text is lost",
 demo="""
use yule_log::model::CCharSlice;
fn main() {
    let c = |b: &[u8]| -> Vec<CChar> { b.iter().map(|&x| CChar::from(x)).collect() };
    assert_eq!(c(b"ab\\0\\0").to_string_lossy_trimmed(), "ab");
    assert_eq!(c(b"ab \\n\\0\\0").to_string_lossy_trimmed(), "ab \\n");
}
"""),
dict(id="c38-long-key", prop="C38", edits=[(P,"""        let is_continued = message_buf.take_u8()? != 0;
        let key_len = message_buf.take_u8()? as usize;
""","""        let is_continued = message_buf.take_u8()? != 0;
        let key_len = usize::try_from(message_buf.take_u8()? as i8)
            .map_err(|_| ULogError::ParseError("Invalid key length.".to_string()))?;
""")],
 needs="a multi information message whose key is longer than 127 bytes", breaks="a well-formed message is refused",
 demo="""
fn main() {
    let key = format!("uint8_t {}", "k".repeat(150));
    let mut b = vec![0u8, key.len() as u8];
    b.extend_from_slice(key.as_bytes());
    b.push(7);
    let f = cat(&[hdr(), m(b'M', &b)]);
    let v = all(&f);
    assert_eq!(v.len(), 1);
    assert!(matches!(&v[0], Ok(UlogMessage::MultiInfo(i)) if i.key.len() == 150), "{:?}", show(&v));
}
"""),
dict(id="c38-bool-strict", prop="C38", edits=[("core/src/field_helpers.rs","        Ok(buf.take_u8()? != 0)","        match buf.take_u8()? {\n            0 => Ok(false),\n            1 => Ok(true),\n            b => Err(ULogError::ParseError(format!(\"{b} is no bool.\"))),\n        }")],
 needs="a bool whose byte is neither 0 nor 1", breaks="the message that holds it is refused, where any byte but 0 stands for true",
 demo="""
fn main() {
    let key = "bool[3] flags";
    let mut b = vec![key.len() as u8];
    b.extend_from_slice(key.as_bytes());
    b.extend_from_slice(&[0, 1, 255]);
    let f = cat(&[hdr(), m(b'I', &b)]);
    let v = all(&f);
    assert!(matches!(&v[0], Ok(UlogMessage::Info(i)) if matches!(&i.value, inst::FieldValue::ArrayBool(x) if x == &[false, true, true])), "{:?}", show(&v));
}
"""),
dict(id="c38-flag-bits-version", prop="C38", edits=[(P,"            || incompat_flags.iter().skip(1).any(|&f| f != 0);","            || incompat_flags.iter().chain(compat_flags.iter().skip(4)).skip(1).any(|&f| f != 0);")],
 needs="flag bits with a compatible bit set that this version does not know", breaks="a log with unknown compatible bits, which a reader is to skip over, is refused",
 demo="""
fn main() {
    let mut b = vec![0u8; 40];
    b[0] = 1;
    assert!(matches!(&all(&cat(&[hdr(), m(b'B', &b)]))[0], Ok(UlogMessage::FlagBits(_))));
    b[6] = 0x10;
    let v = all(&cat(&[hdr(), m(b'B', &b)]));
    assert!(matches!(&v[0], Ok(UlogMessage::FlagBits(_))), "{:?}", show(&v));
}
"""),
dict(id="c39-offset-order", prop="C39", edits=[(P,"""                        .iter()
                        .find(|&&offset| offset > 0)
                        .map(|&offset| offset as usize);""","""                        .iter()
                        .filter(|&&offset| offset > 0)
                        .collect::<HashSet<_>>()
                        .into_iter()
                        .next()
                        .map(|&offset| offset as usize);""")],
 needs="flag bits with several appended data offsets", breaks="which of the offsets ends the data depends on the random order of a hash table: two runs over one log yield different items",
 demo="""
fn main() {
    let mut b = vec![0u8; 40];
    b[8] = 1;
    let tail = cat(&[fmt("a:uint64_t timestamp;float x;"), sub(0, 1, "a"), data(1, &[0u8; 12]), data(1, &[1u8; 12]), data(1, &[2u8; 12])]);
    let one = (16 + 43 + tail.len() - 2 * 17) as u64;
    let two = (16 + 43 + tail.len()) as u64;
    b[16..24].copy_from_slice(&one.to_le_bytes());
    b[24..32].copy_from_slice(&two.to_le_bytes());
    let f = cat(&[hdr(), m(b'B', &b), tail]);
    let first = show(&all(&f));
    for _ in 0..64 {
        assert_eq!(first, show(&all(&f)));
    }
}
"""),
dict(id="c39-allow-cap", prop="C39", edits=[(P,"        let names: HashSet<String> = subscr_names.into_iter().collect::<HashSet<_>>();","""        // More names than this would only slow down the lookup.
        const MAX_NAMES: usize = 64;
        let mut names: HashSet<String> = subscr_names.into_iter().collect::<HashSet<_>>();
        if names.len() > MAX_NAMES {
            names = names.into_iter().take(MAX_NAMES).collect();
        }""")],
 needs="an allow list of more than 64 names", breaks="which names the list keeps depends on the random order of a hash table: two runs over one log yield different items",
 demo="""
fn main() {
    let mut parts = vec![hdr()];
    let names: Vec<String> = (0..80).map(|i| format!("m{i}")).collect();
    for n in &names { parts.push(fmt(&format!("{n}:uint64_t timestamp;float x;"))); }
    for (i, n) in names.iter().enumerate() { parts.push(sub(0, i as u16, n)); }
    for i in 0..80u16 { parts.push(data(i, &[0u8; 12])); }
    let f = cat(&parts);
    let run = || -> Vec<String> {
        let p = ULogParserBuilder::new(&f[..]).set_subscription_allow_list(names.clone()).build().unwrap();
        p.filter_map(|r| match r.unwrap() { UlogMessage::LoggedData(d) => Some(d.data.name.to_string()), _ => None }).collect()
    };
    let first = run();
    for _ in 0..16 { assert_eq!(first, run()); }
}
"""),
]
