PA = "core/src/parser.rs"; DS = "core/src/datastream.rs"
SEEDS = [
dict(id="c08-dropout-width", prop="C08", edits=[(PA, """                duration: message_buf.take_u16()?,
            })),""", """                duration: u16::from(message_buf.take_u8()?),
            })),""")],
 needs="a dropout message with a duration of 256 ms or more", breaks="the dropout duration is taken from one byte instead of the little-endian 16-bit value",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), m(b'O', &[0x34, 0x12])]);
    match full(&f).pop() {
        Some(Ok(UlogMessage::DropoutMark(d))) => assert!(format!("{d:?}").contains("4660"), "{d:?}"),
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c18-first-offset-only", prop="C18", edits=[(PA, """                        .iter()
                        .find(|&&offset| offset > 0)
""", """                        .first()
                        .filter(|&&offset| offset > 0)
""")],
 needs="a flag-bits message with the data-appended bit whose first offset is zero and a later one is not", breaks="the appended data is parsed as messages because only the first of the three offsets is looked at",
 demo="""
fn main() {
    let flag = |limit: u64| { let mut b = vec![0u8; 16]; b[8] = 1; b.extend(0u64.to_le_bytes()); b.extend(limit.to_le_bytes()); b.extend(0u64.to_le_bytes()); m(b'B', &b) };
    let head = cat(&[hdr(), flag(0), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), data(1, &7u64.to_le_bytes())]);
    let limit = head.len() as u64;
    let f = cat(&[hdr(), flag(limit), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), data(1, &7u64.to_le_bytes()), data(1, &8u64.to_le_bytes())]);
    let items = full(&f);
    assert_eq!(items.len(), 5, "{:?}", show(&items));
    assert!(items.iter().all(|i| i.is_ok()));
}
"""),
dict(id="c07-size-mask", prop="C07", edits=[(PA, "        let mut message: Vec<u8> = vec![0; msg_size];", "        let mut message: Vec<u8> = vec![0; msg_size & 0x7fff];")],
 needs="a message of 32768 bytes or more", breaks="fewer bytes than the size field says are taken, so the following messages are out of step",
 demo="""
fn main() {
    let f = cat(&[hdr(), m(b'S', &vec![0u8; 0x8001]), fmt("a:uint64_t timestamp;")]);
    let items = full(&f);
    assert_eq!(items.len(), 3, "{}", items.len());
    assert!(matches!(&items[2], Ok(UlogMessage::FormatDefinition(_))));
}
"""),
dict(id="c22-default-keys", prop="C22", edits=[(PA, """    fn parse_default_parameter(
        &self,
""", """    fn parse_default_parameter(
        &mut self,
"""), (PA, """            Ok(msg::DefaultParameter {
                key: field.name.to_string(),
""", """            if default_types & 1 != 0 {
                self.overridden_params.insert(field.name.to_string());
            }

            Ok(msg::DefaultParameter {
                key: field.name.to_string(),
""")],
 needs="many default-parameter messages with the system-wide bit set and different keys", breaks="the parser keeps one string per default parameter for its whole life",
 demo="""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut f = hdr();
    for i in 0..20000 {
        let key = format!("int32_t P_{i:05}");
        let mut b = vec![1u8, key.len() as u8];
        b.extend_from_slice(key.as_bytes());
        b.extend_from_slice(&1i32.to_le_bytes());
        f.extend(m(b'Q', &b));
    }
    let mut p = ULogParser::new(&f[..]).unwrap();
    for _ in 0..100 { assert!(matches!(p.next(), Some(Ok(UlogMessage::DefaultParameter(_))))); }
    let before = LIVE.load(SeqCst);
    let mut n = 0;
    while let Some(x) = p.next() { assert!(x.is_ok()); n += 1; }
    let after = LIVE.load(SeqCst);
    assert_eq!(n, 19900);
    assert!(after - before < 20000, "grew by {} bytes", after - before);
}
"""),
dict(id="c04-lossy-tagged", prop="C04", edits=[(PA, """                    tag: Some(message_buf.take_u16()?),
                    timestamp: message_buf.take_u64()?,
                    msg: String::from_utf8(message_buf.into_remaining_bytes())?,
""", """                    tag: Some(message_buf.take_u16()?),
                    timestamp: message_buf.take_u64()?,
                    msg: String::from_utf8_lossy(&message_buf.into_remaining_bytes()).into_owned(),
""")],
 needs="a tagged logged string whose text is not valid UTF-8", breaks="invalid text is replaced silently instead of surfacing as an error item",
 demo="""
fn main() {
    let mut b = vec![b'3', 1, 0];
    b.extend(5u64.to_le_bytes());
    b.extend_from_slice(&[b'x', 0xff, b'y']);
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), m(b'C', &b)]);
    assert!(all(&f).pop().unwrap().is_err());
}
"""),
dict(id="c05-no-final-eof", prop="C05", edits=[(PA, """            None => {
                self.state = State::EOF;
                return Ok(None);
            }
            Some(header) => (""", """            None => {
                return Ok(None);
            }
            Some(header) => (""")],
 needs="a reader that reports end of file at a message boundary and fails when it is read again", breaks="after None the iterator reads on and can yield an error item",
 demo="""
struct Grow { d: Vec<u8>, pos: usize, stop: Option<usize> }
impl Read for Grow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if let Some(s) = self.stop { if self.pos == s { self.stop = None; return Ok(0); } }
        if self.stop.is_none() { return Err(io::Error::new(io::ErrorKind::Other, "gone")); }
        let end = self.stop.unwrap_or(self.d.len());
        let n = b.len().min(end - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
fn main() {
    let head = cat(&[hdr(), fmt("a:uint64_t timestamp;")]);
    let stop = head.len();
    let d = cat(&[head, fmt("b:uint64_t timestamp;"), fmt("c:uint64_t timestamp;")]);
    let mut p = ULogParser::new(Grow { d, pos: 0, stop: Some(stop) }).unwrap();
    assert!(matches!(p.next(), Some(Ok(_))));
    assert!(p.next().is_none());
    for _ in 0..5 { assert!(p.next().is_none()); }
}
"""),
dict(id="c06-short-magic", prop="C06", edits=[(PA, "        if msg_header[0..7] != MAGIC {", "        if msg_header[0..4] != MAGIC[0..4] {")],
 needs="a file that starts with 'ULog' but whose other magic bytes differ", breaks="messages are yielded from a file without the valid seven magic bytes",
 demo="""
fn main() {
    let mut f = cat(&[hdr(), fmt("a:uint64_t timestamp;")]);
    f[5] = 0x13;
    let items: Vec<_> = ULogParser::new(&f[..]).unwrap().take(5).collect();
    assert!(items.iter().all(|i| i.is_err()), "{items:?}");
}
"""),
dict(id="c12-unknown-type-7bit", prop="C12", edits=[(PA, "            ULogMessageType::UNKNOWN(byte) => byte,\n", "            ULogMessageType::UNKNOWN(byte) => byte & 0x7f,\n")],
 needs="a message whose unknown type byte is 128 or more", breaks="the item reports another type byte than the log has",
 demo="""
fn main() {
    let f = cat(&[hdr(), m(0xd2, &[1, 2, 3])]);
    match full(&f).pop() {
        Some(Ok(UlogMessage::Unhandled { msg_type, message_contents })) => { assert_eq!(msg_type, 0xd2); assert_eq!(message_contents, [1, 2, 3]); }
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c03-eof-only-when-empty", prop="C03", edits=[(DS, """                ErrorKind::UnexpectedEof => {
                    self.eof = true;
                    Ok(0)
                }
""", """                ErrorKind::UnexpectedEof => {
                    self.eof = buf.len() != 1;
                    Ok(0)
                }
""")],
 needs="a stream that ends exactly after the size field of a message with no body bytes following", breaks="a message cut before its type byte is yielded as a message of type zero",
 demo="""
fn main() {
    let mut f = cat(&[hdr(), fmt("a:uint64_t timestamp;")]);
    f.extend_from_slice(&[0, 0]);
    let items = all(&f);
    assert!(items.last().unwrap().is_err(), "{:?}", show(&items));
}
"""),
]
