D="core/src/display.rs"
SEEDS=[
dict(id="c36-first-instance", prop="C36", edits=[(D,'            None => write!(f, "{name}", name = self.name),','            // The first instance needs no suffix.\n            None | Some(0) => write!(f, "{name}", name = self.name),')],
 needs="the first of several subscriptions to the same message, rendered as text", breaks="the instance index 0 is not shown, so that the text of the first instance reads like that of a message with a single instance",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;float x;"), sub(0, 1, "a"), sub(1, 2, "a"),
        data(1, &[0u8; 12]), data(2, &[0u8; 12])]);
    let v: Vec<String> = ULogParser::new(&f[..]).unwrap().filter_map(|r| match r.unwrap() {
        UlogMessage::LoggedData(d) => Some(d.data.to_string()), _ => None }).collect();
    assert_eq!(v.len(), 2);
    assert!(v[0].contains('0') && v[1].contains('1'), "{v:?}");
}
"""),
dict(id="c36-array-of-one", prop="C36", edits=[(D,"""            None => {
                write!(f, "{}", self.base_type)
            }
            Some(array_size) => {""","""            None | Some(1) => {
                write!(f, "{}", self.base_type)
            }
            Some(array_size) => {""")],
 needs="a definition with an array field of size one, rendered as text", breaks="float[1] x reads as float x, which is another definition",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;float[1] x;")]);
    let v: Vec<String> = ULogParser::new(&f[..]).unwrap().filter_map(|r| match r.unwrap() {
        UlogMessage::FormatDefinition(d) => Some(d.to_string()), _ => None }).collect();
    assert_eq!(v, ["uint64_t timestamp; float[1] x"]);
}
"""),
]
