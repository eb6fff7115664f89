PA="core/src/parser.rs"; DS="core/src/datastream.rs"; FH="core/src/field_helpers.rs"; MB="core/src/message_buf.rs"; FO="core/src/formats.rs"; TK="core/src/tokenizer.rs"
EN="core/src/encode.rs"; MO="core/src/model.rs"; DI="core/src/display.rs"; ER="core/src/errors.rs"
SEEDS=[
dict(id="c01-nul-default-key", prop="C01", edits=[(PA, """        let default_types = message_buf.take_u8()?; // read the default_types bitfield
        let key_len = message_buf.take_u8()? as usize;
        let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
""", """        let default_types = message_buf.take_u8()?; // read the default_types bitfield
        let key_len = message_buf.take_u8()? as usize;
        // Some writers terminate the key with a NUL.
        let raw_key = message_buf.advance(key_len)?;
        let last = raw_key.iter().rposition(|&b| b != 0).unwrap();
        let raw_key = String::from_utf8(raw_key[..=last].to_vec())?;
""")], needs="a default parameter message whose key is empty or consists of NUL bytes only", breaks="the parser panics on the unwrap instead of reporting an error item",
 demo="""
fn main() {
    let f = cat(&[hdr(), m(b'Q', &[1, 0, 1, 2, 3, 4])]);
    let r = std::panic::catch_unwind(|| full(&f).len());
    assert!(r.is_ok());
}
"""),
dict(id="c02-array-up-front", prop="C02", edits=[(PA, "            UINT8 => ArrayU8(parse_primitive_array(array_size, message_buf)?),", """            UINT8 => ArrayU8({
                // Bytes need no conversion.
                let mut bytes = vec![0u8; array_size];
                bytes.copy_from_slice(message_buf.advance(array_size)?);
                bytes
            }),""")], needs="a declared array size far larger than the message that holds the array", breaks="memory is allocated for the declared size before the bytes are known to be there",
 demo="""
fn main() {
    if std::env::args().len() > 1 {
        let f = cat(&[hdr(), fmt("a:uint64_t timestamp;uint8_t[4611686018427387904] x;"), sub(0, 1, "a"), data(1, &[7u8; 10])]);
        assert!(full(&f).pop().unwrap().is_err());
        return;
    }
    let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").status().unwrap();
    assert!(s.success());
}
"""),
dict(id="c10-default-bits", prop="C10", edits=[(EN, "        writer.write_all(&[self.default_types])?;\n", "        // Only the two lower bits have a meaning.\n        writer.write_all(&[self.default_types & 0b11])?;\n")],
 needs="a default parameter message with a reserved bit set in its type bits", breaks="re-encoding it clears the bit",
 demo="""
use yule_log::encode::Encode;
fn main() {
    let b = m(b'Q', &[&[5u8, 9][..], b"int32_t a", &[1, 2, 3, 4]].concat());
    let f = cat(&[hdr(), b.clone()]);
    let msg = full(&f).pop().unwrap().unwrap();
    let mut out = Vec::new();
    msg.encode(&mut out).unwrap();
    assert_eq!(out, b);
}
"""),
dict(id="c11-short-write", prop="C11", edits=[(EN, """                writer.write_all(&content_buf)?;
                Ok(())
            }
        }""", """                if writer.write(&content_buf)? == 0 && !content_buf.is_empty() {
                    return Err(io::ErrorKind::WriteZero.into());
                }
                Ok(())
            }
        }""")],
 needs="a writer that takes fewer bytes than offered in one call", breaks="the rest of the message is lost and success is reported",
 demo="""
use yule_log::encode::Encode;
struct Slow(Vec<u8>);
impl io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(7); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let b = m(b'O', &[1, 2]);
    let s = fmt("a_long_name:uint64_t timestamp;uint8_t x;");
    for b in [b, s] {
        let msg = full(&cat(&[hdr(), b.clone()])).pop().unwrap().unwrap();
        let mut w = Slow(vec![]);
        msg.encode(&mut w).unwrap();
        assert_eq!(w.0, b);
    }
}
"""),
dict(id="c19-high-bit-level", prop="C19", edits=[(MO, "            match byte {\n                b'0' => Ok(LogLevel::Emerg),", "            match byte & 0x7f {\n                b'0' => Ok(LogLevel::Emerg),")],
 needs="a log level byte with its highest bit set", breaks="a byte that is no level is accepted as one",
 demo="""
fn main() {
    let mut b = vec![0xb3];
    b.extend_from_slice(&[0; 8]);
    b.extend_from_slice(b"hi");
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), m(b'L', &b)]);
    assert!(full(&f).pop().unwrap().is_err());
}
"""),
dict(id="c20-nul-skipped", prop="C20", edits=[(TK, "(?P<whitespace>\\s+)", "(?P<whitespace>[\\s\\x00]+)")],
 needs="a NUL byte between the tokens of a format definition", breaks="the malformed definition is accepted",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;uint8_t\\0x;")]);
    assert!(full(&f).pop().unwrap().is_err());
}
"""),
dict(id="c21-stderr-warning", prop="C21", edits=[(PA, """            log::warn!(
                "Length of flag bits >40bytes (Contained {len} extra bytes).  Ignoring.",""", """            eprintln!(
                "Length of flag bits >40bytes (Contained {len} extra bytes).  Ignoring.",""")],
 needs="a flag bits message of another length than 40 bytes", breaks="the library writes to standard error",
 demo="""
fn main() {
    if std::env::args().len() > 1 {
        let f = cat(&[hdr(), m(b'B', &[0; 48])]);
        full(&f);
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("child").output().unwrap();
    assert!(o.status.success() && o.stderr.is_empty() && o.stdout.is_empty(), "{o:?}");
}
"""),
dict(id="c23-rc-error", prop="C23", edits=[(ER, "    DatabaseError(String),", "    DatabaseError(std::rc::Rc<str>),")],
 needs="the thread_safe feature, and an error (or a result) handed to another thread", breaks="the error type is no longer Send and Sync", feat=', "thread_safe"',
 demo="""
fn send<T: Send + Sync>() {}
fn main() { send::<ULogError>(); }
"""),
dict(id="c24-capacity", prop="C24", edits=[(EN, "std::slice::from_raw_parts(arr.as_ptr() as *const u8, arr.len())", "std::slice::from_raw_parts(arr.as_ptr() as *const u8, arr.capacity())")],
 needs="a character array value whose vector has spare capacity, as one built by a user", breaks="uninitialised memory behind the characters is read and written out",
 demo="""
use yule_log::encode::Encode;
fn main() {
    let b = m(b'I', &[&[6u8][..], b"char[3] a", b"xyz"].concat());
    let mut b = b;
    b[3] = 9;
    let mut msg = full(&cat(&[hdr(), b])).pop().unwrap().unwrap();
    if let UlogMessage::Info(i) = &mut msg {
        if let inst::FieldValue::ArrayChar(v) = &mut i.value { v.reserve_exact(64); v.truncate(2); } else { panic!() }
    } else { panic!("{msg:?}") }
    let mut out = Vec::new();
    msg.encode(&mut out).unwrap();
    assert_eq!(out.len(), 3 + 1 + 9 + 2);
}
"""),
dict(id="c30-skip-clamped", prop="C30", edits=[(MB, "        self.advance(size).map(|_| ()) // Discard the result of advance", "        self.current_index = self.buf.len().min(self.current_index.saturating_add(size));\n        Ok(())")],
 needs="a skip past the end of the message", breaks="the skip succeeds although the bytes are not there",
 demo="""
fn main() {
    let mut b = yule_log::message_buf::MessageBuf::from_vec(vec![1, 2, 3]);
    b.take_u8().unwrap();
    assert!(b.skip(3).is_err());
    assert_eq!(b.len(), 2);
}
"""),
dict(id="c31-broken-pipe-eof", prop="C31", edits=[(DS, "                ErrorKind::UnexpectedEof => {", "                ErrorKind::UnexpectedEof | ErrorKind::BrokenPipe => {")],
 needs="a reader that fails with a broken pipe in the middle of the log", breaks="the failure is taken for the end of the log",
 demo="""
struct Pipe(usize, Vec<u8>);
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0 == self.1.len() { return Err(io::ErrorKind::BrokenPipe.into()); }
        let n = b.len().min(self.1.len() - self.0);
        b[..n].copy_from_slice(&self.1[self.0..self.0 + n]);
        self.0 += n;
        Ok(n)
    }
}
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;")]);
    let mut p = ULogParser::new(Pipe(0, f)).unwrap();
    assert!(p.next().unwrap().is_ok());
    assert!(matches!(p.next(), Some(Err(ULogError::Io(_)))));
    let mut d = yule_log::datastream::DataStream::new(Pipe(0, vec![]));
    assert!(d.read_exact(&mut [0; 2]).is_err());
}
"""),
dict(id="c32-trimmed-chars", prop="C32", edits=[(MO, "            ArrayChar(v) => Some(v.iter().map(", "            ArrayChar(v) => Some(v.trim_end_nul().iter().map(")],
 needs="a character array that ends in NUL bytes", breaks="splitting it drops the trailing characters",
 demo="""
fn main() {
    let v = inst::FieldValue::ArrayChar(vec![CChar(65), CChar(0), CChar(0)]);
    assert_eq!(v.to_scalars().unwrap().len(), 3);
    let v = inst::FieldValue::ArrayU8(vec![65, 0]);
    assert_eq!(v.to_scalars().unwrap().len(), 2);
}
"""),
dict(id="c33-rounded-double", prop="C33", edits=[(DI, '            FieldValue::ScalarF64(v) => write!(f, "{v}"),', '            FieldValue::ScalarF64(v) => write!(f, "{}", *v as f32),')],
 needs="a double with more digits than a float holds, rendered outside info messages", breaks="the text shows another number than the value",
 demo="""
fn main() {
    assert_eq!(inst::FieldValue::ScalarF64(0.1).to_string(), "0.1");
    assert_eq!(inst::FieldValue::ScalarF64(123456789.123).to_string(), "123456789.123");
    assert_eq!(inst::FieldValue::ScalarF32(0.5).to_string(), "0.5");
}
"""),
]
